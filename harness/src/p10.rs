//! P10: joining, splitting, stacking, meshgrid, diag, atleast
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;


fn sets() -> Vec<Vec<usize>> {
    let l: &[&[&[usize]]] = &[
        &[&[2], &[3]], &[&[3], &[0], &[1]], &[&[0], &[0]], &[&[2, 3], &[1, 3]], &[&[2, 3], &[2, 2]], &[&[2, 2], &[2, 2]], &[&[0, 2], &[1, 2]], &[&[2, 1, 2], &[2, 2, 2]], &[&[1, 2, 2], &[2, 2, 2]],
        &[&[2, 2]], &[&[2], &[2, 2]], &[&[], &[]], &[&[1], &[2], &[1]], &[&[2, 1], &[2, 1], &[2, 1]], &[&[17], &[2]], &[&[2, 17], &[2, 1]], &[],
    ];
    let n = if thorough() { l.len() - 1 } else { l.len() - 1 };
    l[upick(0, n)].iter().map(|s| s.to_vec()).collect()
}
/// sources of one join: one of them (chosen) in any layout pattern, the others fixed
fn sources(sets: &[Vec<usize>], last: i64) -> Vec<Src> {
    if sets.is_empty() { return vec![] }
    let w = upick(0, sets.len() - 1);
    let p = pick(0, last);
    sets.iter().enumerate().map(|(k, s)| src(s, if k == w { p } else { (k as i64) % 2 * 4 })).collect()
}
fn cat_shape(s: &[Vec<usize>], ax: isize) -> Option<(Vec<usize>, usize)> {
    if s.is_empty() { return None; }
    let r = s[0].len() as isize;
    if r == 0 || ax < -r || ax >= r { return None; }
    let k = (if ax < 0 { ax + r } else { ax }) as usize;
    let mut out = s[0].clone();
    for t in &s[1..] {
        if t.len() != out.len() { return None; }
        for q in 0..out.len() { if q != k && t[q] != out[q] { return None; } }
        out[k] += t[k];
    }
    Some((out, k))
}
fn cat_at(src: &[Src], k: usize, i: &[usize]) -> i64 {
    let mut i = i.to_vec();
    for s in src {
        let n = s.shape()[k];
        if i[k] < n { return s.at(&i); }
        i[k] -= n;
    }
    fail("index outside the joined tensors")
}
/// concat along any axis
#[no_mangle]
pub extern "C" fn h_concat() {
    let sh = sets();
    let srcs = sources(&sh, NPAT);
    let ax = pick(-4, 3) as isize;
    let v: Vec<_> = srcs.iter().map(|s| s.view()).collect();
    match (cat_shape(&sh, ax), rt::concat_f((v, ax))) {
        (Some((s, k)), Ok(t)) => {
            reach(1);
            check_tensor(&t, &s, |i| cat_at(&srcs, k, i), "joined tensor has a wrong shape", "joined tensor has a wrong element");
        }
        (None, Err(_)) => reach(2),
        (Some(_), Err(_)) => fail("tensors that fit together rejected"),
        (None, Ok(_)) => fail("tensors that do not fit together accepted"),
    }
}
/// stack along a new axis
#[no_mangle]
pub extern "C" fn h_stack() {
    let sh = sets();
    let srcs = sources(&sh, NPAT);
    let ax = pick(-5, 4) as isize;
    let v: Vec<_> = srcs.iter().map(|s| s.view()).collect();
    let r = rt::stack_f((v, ax));
    let ok = !sh.is_empty() && sh.iter().all(|s| *s == sh[0]);
    let n = if ok { sh[0].len() as isize + 1 } else { 0 };
    if !ok || ax < -n || ax >= n {
        reach(2);
        check(r.is_err(), "invalid stack accepted");
        return;
    }
    let k = (if ax < 0 { ax + n } else { ax }) as usize;
    let t = match r { Ok(t) => t, Err(_) => fail("tensors of one shape rejected") };
    reach(1);
    let mut s = sh[0].clone();
    s.insert(k, sh.len());
    check_tensor(&t, &s, |i| { let mut j = i.to_vec(); let w = j.remove(k); srcs[w].at(&j) }, "stacked tensor has a wrong shape", "stacked tensor has a wrong element");
}
/// hstack and vstack: promotion of low ranks, then concat
#[no_mangle]
pub extern "C" fn h_hvstack() {
    let sh = sets();
    let srcs = sources(&sh, NPAT);
    let h = pick(0, 1) == 0;
    // promoted shapes; element at an index of the promoted tensor
    let min = if h { 1 } else { 2 };
    let ps: Vec<Vec<usize>> = sh.iter().map(|s| { let mut p = vec![1; min_usize(min, s.len())]; p.extend_from_slice(s); p }).collect();
    let ax = if h && !ps.is_empty() && ps[0].len() > 1 { 1 } else { 0 };
    let v: Vec<_> = srcs.iter().map(|s| s.view()).collect();
    let r = if h { rt::hstack_f(v) } else { rt::vstack_f(v) };
    match (cat_shape(&ps, ax), r) {
        (Some((s, k)), Ok(t)) => {
            reach(1);
            check_tensor(&t, &s, |i| {
                let mut i = i.to_vec();
                for (w, s) in ps.iter().enumerate() {
                    if i[k] < s[k] { return srcs[w].at(&i[i.len() - sh[w].len()..]); }
                    i[k] -= s[k];
                }
                fail("index outside the joined tensors")
            }, "joined tensor has a wrong shape", "joined tensor has a wrong element");
        }
        (None, Err(_)) => reach(2),
        (Some(_), Err(_)) => fail("tensors that fit together rejected"),
        (None, Ok(_)) => fail("tensors that do not fit together accepted"),
    }
}
/// number of axes to insert
fn min_usize(min: usize, n: usize) -> usize { if n >= min { 0 } else { min - n } }
/// unstack: slices along an axis, sharing the memory
#[no_mangle]
pub extern "C" fn h_unstack() {
    macro_rules! go {
        ($d:ty, $sh:expr) => {{
            let sh: &[usize] = $sh;
            let s = src(sh, pick(0, NPAT));
            let r = sh.len() as isize;
            let ax = pick(-4, 3) as isize;
            let res = rt::unstack_f((s.view().into_dim::<$d>(), ax));
            if ax < -r || ax >= r {
                reach(2);
                check(res.is_err(), "axis out of range accepted");
                return;
            }
            let k = (if ax < 0 { ax + r } else { ax }) as usize;
            let v = match res { Ok(v) => v, Err(_) => fail("valid axis rejected") };
            reach(1);
            check(v.len() == sh[k], "wrong number of parts");
            let mut ps = sh.to_vec();
            ps.remove(k);
            for (w, t) in v.iter().enumerate() {
                check(t.layout().shape().as_ref() as &[usize] == &ps[..], "part has a wrong shape");
                for i in indices(&ps) {
                    let mut j = i.clone();
                    j.insert(k, w);
                    check(crate::gen::pos(t.layout(), &i) == s.p(&j) as isize, "part addresses a wrong element");
                }
            }
        }};
    }
    match pick(0, 4) {
        0 => go!(Ix1, &[3]),
        1 => go!(Ix2, &[2, 3]),
        2 => go!(Ix3, &[2, 1, 3]),
        3 => go!(IxD, &[2, 3, 2]),
        _ => go!(Ix2, &[0, 2]),
    }
}
/// coordinate matrices
#[no_mangle]
pub extern "C" fn h_meshgrid() {
    let l: &[&[usize]] = &[&[3], &[2, 3], &[1, 2], &[0, 2], &[2, 3, 2], &[2, 1, 2, 2], &[]];
    let ns = l[upick(0, l.len() - 1)];
    let w = if ns.is_empty() { 0 } else { upick(0, ns.len() - 1) };
    let p = pick(0, NPAT);
    let srcs: Vec<Src> = ns.iter().enumerate().map(|(k, &n)| src(&[n], if k == w { p } else { 3 })).collect();
    let xy = pick(0, 2);
    let own: Vec<T> = srcs.iter().map(|s| s.owned()).collect();
    let refs: Vec<&T> = own.iter().collect();
    let r = rt::meshgrid_f((refs, ["ij", "xy", "zz"][xy as usize], pick(0, 1) == 1));
    if xy == 2 {
        reach(2);
        check(r.is_err(), "unknown indexing accepted");
        return;
    }
    let v = match r { Ok(v) => v, Err(_) => fail("one-dimensional tensors rejected") };
    reach(1);
    check(v.len() == ns.len(), "one grid per input");
    let swap = xy == 1 && ns.len() > 1;
    let mut sh = ns.to_vec();
    if swap { sh.swap(0, 1); }
    for (k, t) in v.iter().enumerate() {
        let q = if swap && k < 2 { 1 - k } else { k };
        check_tensor(t, &sh, |i| srcs[k].at(&[i[q]]), "grid has a wrong shape", "grid has a wrong element");
    }
}
/// diag: from a vector to a matrix and back
#[no_mangle]
pub extern "C" fn h_diag() {
    let off = pick(-4, 4) as isize;
    let l: &[&[usize]] = &[&[3], &[1], &[0], &[2, 3], &[3, 2], &[3, 3], &[0, 2], &[1, 1], &[2, 2, 2], &[]];
    let sh = l[upick(0, l.len() - 1)];
    let s = src(sh, pick(0, NPAT));
    let r = if pick(0, 1) == 0 { rt::diag_f((&s.view(), off)) } else { rt::diag_f((&s.owned(), off)) };
    let (up, down) = (off.max(0) as usize, (-off).max(0) as usize);
    match sh.len() {
        1 => {
            let t = match r { Ok(t) => t, Err(_) => fail("vector rejected") };
            reach(1);
            let n = sh[0] + off.unsigned_abs();
            check_tensor(&t, &[n, n], |i| if i[0] >= down && i[1] == i[0] - down + up && i[0] - down < sh[0] { s.at(&[i[0] - down]) } else { 0 }, "diagonal matrix has a wrong shape", "diagonal matrix has a wrong element");
        }
        2 => {
            let t = match r { Ok(t) => t, Err(_) => fail("matrix rejected") };
            reach(2);
            let n = sh[0].saturating_sub(down).min(sh[1].saturating_sub(up));
            check_tensor(&t, &[n], |i| s.at(&[i[0] + down, i[0] + up]), "diagonal has a wrong length", "diagonal has a wrong element");
        }
        _ => {
            reach(3);
            check(r.is_err(), "diag of another rank accepted");
        }
    }
}
/// atleast_1d/2d/3d insert axes of extent one where documented
#[no_mangle]
pub extern "C" fn h_atleast() {
    let l: &[&[usize]] = &[&[], &[3], &[0], &[2, 3], &[2, 1, 3], &[2, 1, 2, 1]];
    let sh = l[upick(0, l.len() - 1)];
    let s = src(sh, pick(0, NPAT));
    let v = s.view();
    let n = upick(1, 3);
    let t = match (n, pick(0, 1)) {
        (1, 0) => rt::atleast_1d_f(&v), (2, 0) => rt::atleast_2d_f(&v), (3, 0) => rt::atleast_3d_f(&v),
        (1, _) => v.atleast_1d_f(), (2, _) => v.atleast_2d_f(), _ => v.atleast_3d_f(),
    };
    let t = match t { Ok(t) => t, Err(_) => fail("tensor rejected") };
    // where the new axes go: before, except that a 3-d view of rank 1 and 2 gets its last axis appended
    let (pre, post) = match (n, sh.len()) { (1, 0) => (1, 0), (2, 0) => (2, 0), (2, 1) => (1, 0), (3, 0) => (3, 0), (3, 1) => (1, 1), (3, 2) => (0, 1), _ => (0, 0) };
    let mut want = vec![1; pre];
    want.extend_from_slice(sh);
    want.extend(vec![1; post]);
    reach(1);
    check(t.layout().shape() == &want, "wrong shape");
    for i in indices(sh) {
        let mut j = vec![0; pre];
        j.extend_from_slice(&i);
        j.extend(vec![0; post]);
        check(crate::gen::pos(t.layout(), &j) == s.p(&i) as isize, "view addresses a wrong element");
    }
}
/// every stride and offset of the joined tensor
#[no_mangle]
pub extern "C" fn h_join_sym() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 1, 2]];
    let sh = l[upick(0, l.len() - 1)];
    let (a, b) = (src_sym(sh, 3, true), src(sh, 4));
    let k = upick(0, sh.len() - 1);
    let (va, vb) = (a.view(), b.view());
    reach(1);
    match pick(0, 2) {
        0 => {
            let (s, _) = cat_shape(&[sh.to_vec(), sh.to_vec()], k as isize).unwrap();
            let t = match rt::concat_f((vec![vb, va], k as isize)) { Ok(t) => t, Err(_) => fail("tensors that fit together rejected") };
            let src = [b, a];
            check_tensor(&t, &s, |i| cat_at(&src, k, i), "joined tensor has a wrong shape", "joined tensor has a wrong element");
        }
        1 => {
            let t = match rt::stack_f((vec![va, vb], k as isize)) { Ok(t) => t, Err(_) => fail("tensors of one shape rejected") };
            let mut s = sh.to_vec();
            s.insert(k, 2);
            check_tensor(&t, &s, |i| { let mut j = i.to_vec(); let w = j.remove(k); if w == 0 { a.at(&j) } else { b.at(&j) } }, "stacked tensor has a wrong shape", "stacked tensor has a wrong element");
        }
        _ => {
            if sh.len() != 2 { return; }
            let t = match rt::diag_f((&va, k as isize)) { Ok(t) => t, Err(_) => fail("matrix rejected") };
            check_tensor(&t, &[2 - k], |i| a.at(&[i[0], i[0] + k]), "diagonal has a wrong length", "diagonal has a wrong element");
        }
    }
}
/// element type with a destructor: nothing is dropped twice or read uninitialised
#[no_mangle]
pub extern "C" fn h_join_boxed() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 0], &[1, 2]];
    let sh = l[upick(0, l.len() - 1)];
    let (lay, len) = pattern(sh, pick(0, NPAT));
    let data: Vec<Bx> = (0..len).map(|_| Bx(Box::new(val()))).collect();
    let at = |i: &[usize]| *data[crate::gen::pos(&lay, i) as usize].0;
    let v = || -> TensorView<Bx, Dev, IxD> { rt::asarray((&data, lay.clone(), &Dev::default())) };
    let chk = |t: Tensor<Bx, Dev, IxD>, s: &[usize], f: &dyn Fn(&[usize]) -> i64| {
        check(t.layout().shape() == s, "result has a wrong shape");
        for i in indices(s) { check(*t.raw()[crate::gen::pos(t.layout(), &i) as usize].0 == f(&i), "result has a wrong element"); }
    };
    reach(1);
    match pick(0, 2) {
        0 => {
            let mut s = sh.to_vec();
            s[0] *= 2;
            let n = sh[0];
            chk(rt::concat((vec![v(), v()], 0isize)), &s, &|i| { let mut i = i.to_vec(); i[0] %= n.max(1); at(&i) });
        }
        1 => {
            let mut s = sh.to_vec();
            s.push(2);
            chk(rt::stack((vec![v(), v()], -1isize)), &s, &|i| at(&i[..i.len() - 1]));
        }
        _ => {
            let t = rt::diag((&v(), 0isize));
            if sh.len() == 1 { chk(t, &[sh[0], sh[0]], &|i| if i[0] == i[1] { at(&i[..1]) } else { 0 }) }
            else { chk(t, &[sh[0].min(sh[1])], &|i| at(&[i[0], i[0]])) }
        }
    }
}

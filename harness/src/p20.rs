//! P20: column-major devices: every operation is the row-major operation with all axes reversed; reshape in either order
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::DeviceBaseAPI;

fn ok<X>(r: Result<X>) -> X { match r { Ok(x) => x, Err(_) => fail("valid call rejected") } }
fn dev(col: bool) -> Dev { let mut d = Dev::default(); d.set_default_order(if col { ColMajor } else { RowMajor }); d }
fn rev<X: Copy>(i: &[X]) -> Vec<X> { i.iter().rev().copied().collect() }
/// Src describes the row-major mirror; the tensor under test has the axes reversed and lives on a column-major device
fn cv<'a>(a: &'a Src, d: &Dev) -> TV<'a> { ok(rt::asarray_f((&a.data, a.lay.reverse_axes(), d))) }
fn co(a: &Src, d: &Dev) -> T { ok(rt::asarray_f((a.data.clone(), a.lay.reverse_axes(), d))) }
/// t (column-major) mirrors the row-major result with shape s and elements f
fn is<X: Copy + PartialEq>(t: &Tensor<X, Dev, IxD>, s: &[usize], f: impl Fn(&[usize]) -> X) where Dev: DeviceRawAPI<X, Raw = Vec<X>> {
    check(t.device().default_order() == ColMajor, "result of a column-major operation is not column-major");
    check_tensor(t, &rev(s), |i| f(&rev(i)), "column-major result has a wrong shape", "column-major result has a wrong element");
}
fn order() { match pick(0, 2) { 0 => {} 1 => unsafe { TensorIterOrder::change_default(TensorIterOrder::C) }, _ => unsafe { TensorIterOrder::change_default(TensorIterOrder::F) } } }
fn judge<X: Copy + PartialEq>(s: Option<Vec<usize>>, r: Result<Tensor<X, Dev, IxD>>, f: impl Fn(&[usize]) -> X) where Dev: DeviceRawAPI<X, Raw = Vec<X>> {
    match (s, r) {
        (Some(s), Ok(t)) => { reach(1); is(&t, &s, f) }
        (None, Err(_)) => reach(2),
        (Some(_), Err(_)) => fail("operands that fit rejected on a column-major device"),
        (None, Ok(_)) => fail("operands that do not fit accepted on a column-major device"),
    }
}
fn binop(sa: &[usize], sb: &[usize], a: Src, b: Src) {
    let d = dev(true);
    let sc = bshape(sa, sb);
    let sub = |i: &[usize]| a.at_bc(i) - b.at_bc(i);
    match pick(0, 7) {
        0 => judge(sc, cv(&a, &d).sub_f(&cv(&b, &d)), sub),
        1 => judge(sc, rt::sub_f(co(&a, &d), &cv(&b, &d)), sub),
        2 => judge(sc, rt::sub_f(cv(&a, &d), co(&b, &d)), sub),
        3 => judge(sc, rt::sub_f(co(&a, &d), co(&b, &d)), sub),
        4 => judge(sc, rt::less_f(&cv(&a, &d), &cv(&b, &d)), |i| a.at_bc(i) < b.at_bc(i)),
        5 => judge(sc, cv(&a, &d).mapb_f(&cv(&b, &d), |x: &i64, y: &i64| *x - *y), sub),
        6 => judge(sc, cv(&a, &d).mapvb_f(&cv(&b, &d), |x, y| x - y), sub),
        _ => {
            // broadcasting of two views to their common shape
            let r = rt::broadcast_arrays_f(vec![cv(&a, &d), cv(&b, &d)]);
            match (sc, r) {
                (Some(s), Ok(v)) => {
                    check(v.len() == 2, "broadcast of two tensors has a wrong length");
                    reach(1);
                    for (t, o) in v.iter().zip([&a, &b]) {
                        check(t.layout().shape() == &rev(&s), "broadcast tensor has a wrong shape");
                        for i in indices(&s) { check(get(t, &o.data, &rev(&i)) == o.at_bc(&i), "broadcast tensor has a wrong element") }
                    }
                }
                (None, Err(_)) => reach(2),
                (Some(_), Err(_)) => fail("tensors that broadcast rejected"),
                (None, Ok(_)) => fail("tensors that do not broadcast accepted"),
            }
        }
    }
}
/// binary operations, closures of two operands and broadcasting align shapes at the first axis
#[no_mangle]
pub extern "C" fn h_binop() {
    let (sa, sb) = shape_pair();
    let (a, b) = (src(&sa, pick(0, NPAT)), src(&sb, if thorough() { pick(0, NPAT) } else { [0, 1, 3, 6][upick(0, 3)] }));
    order();
    binop(&sa, &sb, a, b)
}
/// every stride and offset of both operands
#[no_mangle]
pub extern "C" fn h_binop_sym() {
    let l: &[(&[usize], &[usize])] = &[(&[3], &[1]), (&[2, 2], &[2, 2]), (&[2, 3], &[3]), (&[2], &[2, 1])];
    let (sa, sb) = l[upick(0, l.len() - 1)];
    let (a, b) = (src_sym(sa, 3, true), src_sym(sb, 3, false));
    binop(sa, sb, a, b)
}
/// in-place operations write exactly the addressed elements
#[no_mangle]
pub extern "C" fn h_inplace() {
    let l: &[(&[usize], &[usize])] = &[(&[3], &[1]), (&[2, 3], &[2, 3]), (&[2, 3], &[3]), (&[2, 3], &[2, 1]), (&[2, 3], &[2]), (&[2, 1], &[3]), (&[3], &[1, 3]), (&[0, 3], &[3]), (&[2, 16], &[16]), (&[2, 2, 2], &[2, 1, 2]), (&[2, 2, 2], &[2])];
    let (sa, sb) = l[upick(0, l.len() - 1)];
    let (a, b) = (src(sa, pick(0, 4)), src(sb, pick(0, NPAT)));
    let d = dev(true);
    let fits = bshape(sa, sb).map(|s| s == sa).unwrap_or(false);
    let mut data = a.data.clone();
    let how = pick(0, 2);
    let r = {
        let mut t = ok(rt::asarray_f((&mut data, a.lay.reverse_axes(), &d)));
        let v = cv(&b, &d);
        match how { 0 => t.assign_f(&v), 1 => rt::sub_assign_f(&mut t, &v), _ => rt::sub_with_output_f(&v, &v, &mut t) }
    };
    check(r.is_ok() == fits, "column-major in-place operation accepts or rejects the wrong operands");
    let mut want = a.data.clone();
    if fits { reach(1); for i in indices(sa) { want[a.p(&i)] = match how { 0 => b.at_bc(&i), 1 => a.at(&i) - b.at_bc(&i), _ => 0 } } } else { reach(2) }
    for k in 0..want.len() { check(data[k] == want[k], "column-major in-place operation leaves a wrong value") }
}
fn mm_shape(sa: &[usize], sb: &[usize]) -> Option<Vec<usize>> {
    let (na, nb) = (sa.len(), sb.len());
    if na == 0 || nb == 0 { return None; }
    let (ka, kb) = (sa[na - 1], if nb == 1 { sb[0] } else { sb[nb - 2] });
    if ka != kb { return None; }
    let ra: &[usize] = if na >= 2 { &sa[..na - 2] } else { &[] };
    let rb: &[usize] = if nb >= 2 { &sb[..nb - 2] } else { &[] };
    let mut s = bshape(ra, rb)?;
    if na >= 2 { s.push(sa[na - 2]) }
    if nb >= 2 { s.push(sb[nb - 1]) }
    Some(s)
}
fn mm_at(a: &Src, b: &Src, i: &[usize]) -> i64 {
    let (sa, sb) = (a.shape(), b.shape());
    let (na, nb) = (sa.len(), sb.len());
    let mut tail = i.len();
    let (mut n, mut m) = (None, None);
    if nb >= 2 { tail -= 1; n = Some(i[tail]) }
    if na >= 2 { tail -= 1; m = Some(i[tail]) }
    let rest = &i[..tail];
    let lead = |s: &[usize], r: usize| -> Vec<usize> { (0..r).map(|q| if s[q] == 1 { 0 } else { rest[rest.len() - r + q] }).collect() };
    let mut acc = 0;
    for p in 0..sa[na - 1] {
        let mut ia = if na >= 2 { lead(&sa, na - 2) } else { vec![] };
        let mut ib = if nb >= 2 { lead(&sb, nb - 2) } else { vec![] };
        ia.extend(m);
        ia.push(p);
        ib.push(p);
        ib.extend(n);
        acc += a.at(&ia) * b.at(&ib);
    }
    acc
}
/// matrix products: matrix axes first, further axes broadcast; y @ x mirrors x @ y
#[no_mangle]
pub extern "C" fn h_matmul() {
    let l: &[(&[usize], &[usize])] = &[
        (&[3], &[3]), (&[2], &[3]), (&[2, 3], &[3, 2]), (&[2, 3], &[2, 3]), (&[2, 0], &[0, 3]), (&[3], &[3, 2]), (&[2, 3], &[3]), (&[2, 3], &[2]), (&[2, 2, 3], &[3]), (&[2], &[2, 2, 3]), (&[], &[2]),
        (&[2, 2], &[2, 2, 3]), (&[2, 2, 3], &[3, 2]), (&[2, 2, 3], &[2, 3]), (&[2, 2, 1], &[2, 1, 2]), (&[1, 2, 2], &[3, 2, 1]), (&[2, 2, 2], &[3, 2, 2]), (&[2, 1, 1, 2], &[1, 2, 2, 1]), (&[2, 1, 2], &[2, 1, 2, 1]), (&[0, 2, 2], &[1, 2, 2]),
    ];
    let (sa, sb) = l[upick(0, l.len() - 1)];
    let (a, b) = (src(sa, pick(0, NPAT)), src(sb, pick(0, NPAT)));
    let d = dev(true);
    judge(mm_shape(sa, sb), if pick(0, 1) == 0 { rt::matmul_f(&cv(&b, &d), &cv(&a, &d)) } else { co(&b, &d).matmul_f(&cv(&a, &d)) }, |i| mm_at(&a, &b, i))
}
/// c <- alpha b @ a + beta c
#[no_mangle]
pub extern "C" fn h_matmul_from() {
    let l: &[(&[usize], &[usize], &[usize])] = &[(&[3], &[3], &[]), (&[2, 3], &[3, 2], &[2, 2]), (&[2, 2], &[2, 1], &[2, 2]), (&[2], &[2, 3], &[3]), (&[2, 2], &[2], &[2]), (&[2], &[2, 2, 2], &[2, 2]), (&[2], &[2, 2, 2], &[3, 2]), (&[2, 2, 1], &[1, 2], &[2, 2, 2]), (&[2, 2, 1], &[1, 2], &[1, 2, 2]), (&[2, 2, 1], &[2, 1, 2], &[2, 2, 2]), (&[1, 2, 1], &[2, 1, 2], &[2, 2, 2])];
    let (sa, sb, sc) = l[upick(0, l.len() - 1)];
    let (a, b, c) = (src(sa, pick(0, 2)), src(sb, pick(0, 2)), src(sc, pick(0, 4)));
    let (alpha, beta) = (val(), [0, 1, val()][upick(0, 2)]);
    let d = dev(true);
    let mut data = c.data.clone();
    let r = { let mut t = ok(rt::asarray_f((&mut data, c.lay.reverse_axes(), &d))); t.matmul_from_f(&cv(&b, &d), &cv(&a, &d), alpha, beta) };
    let fits = mm_shape(sa, sb) == Some(sc.to_vec());
    check(r.is_ok() == fits, "column-major product accepts or rejects the wrong output");
    let mut want = c.data.clone();
    if fits { reach(1); for i in indices(sc) { want[c.p(&i)] = alpha * mm_at(&a, &b, &i) + beta * c.at(&i) } } else { reach(2) }
    for k in 0..want.len() { check(data[k] == want[k], "column-major product update leaves a wrong value") }
}
/// dot products along axes (mirrored numbers)
#[no_mangle]
pub extern "C" fn h_vecdot() {
    let l: &[(&[usize], &[usize], usize, usize)] = &[(&[3], &[3], 0, 0), (&[2, 3], &[2, 3], 1, 1), (&[2, 3], &[2, 3], 0, 0), (&[2, 3], &[3, 2], 1, 0), (&[2, 3], &[3], 1, 0), (&[3], &[2, 3], 0, 1), (&[2, 1, 2], &[3, 2], 2, 1), (&[2, 2, 3], &[2, 3], 0, 0), (&[2, 0], &[2, 0], 1, 1), (&[2, 3], &[4, 3], 1, 1), (&[2], &[3], 0, 0)];
    let (sa, sb, xa, xb) = l[upick(0, l.len() - 1)];
    let (a, b) = (src(sa, pick(0, NPAT)), src(sb, pick(0, NPAT)));
    let cut = |s: &[usize], x: usize| { let mut v = s.to_vec(); v.remove(x); v };
    let s = if sa[xa] == sb[xb] { bshape(&cut(sa, xa), &cut(sb, xb)) } else { None };
    let d = dev(true);
    let (ya, yb) = (sa.len() - 1 - xa, sb.len() - 1 - xb);
    let ax = AxesPairIndex::Pair(AxesIndex::Vec(vec![ya as isize]), AxesIndex::Vec(vec![yb as isize]));
    order();
    let op = |i: &[usize], s: &[usize], x: usize, q: usize| -> Vec<usize> {
        let r = cut(s, x);
        let mut v: Vec<usize> = (0..r.len()).map(|k| if r[k] == 1 { 0 } else { i[i.len() - r.len() + k] }).collect();
        v.insert(x, q);
        v
    };
    judge(s, rt::vecdot_f(&cv(&a, &d), &cv(&b, &d), ax), |i| (0..sa[xa]).map(|q| a.at(&op(i, sa, xa, q)) * b.at(&op(i, sb, xb, q))).sum())
}
/// concat and stack along mirrored axes, selection, sums
#[no_mangle]
pub extern "C" fn h_axis() {
    let d = dev(true);
    let how = pick(0, 4);
    let l: &[(&[usize], &[usize])] = &[(&[2], &[3]), (&[2, 3], &[1, 3]), (&[2, 3], &[2, 2]), (&[2, 2], &[2, 2]), (&[2, 1, 2], &[2, 2, 2]), (&[2], &[2, 2]), (&[0, 2], &[1, 2])];
    let (sa, sb) = l[upick(0, if how < 2 { l.len() - 1 } else { 4 })];
    let (a, b) = (src(sa, pick(0, NPAT)), src(sb, 4));
    let r = sa.len();
    match how {
        0 => {
            let k = upick(0, r - 1);
            let mut s = sa.to_vec();
            let fits = sb.len() == r && (0..r).all(|q| q == k || sa[q] == sb[q]);
            if fits { s[k] += sb[k] }
            judge(if fits { Some(s) } else { None }, rt::concat_f((vec![cv(&a, &d), cv(&b, &d)], (r - 1 - k) as isize)), |i| if i[k] < sa[k] { a.at(i) } else { let mut i = i.to_vec(); i[k] -= sa[k]; b.at(&i) })
        }
        1 => {
            let k = upick(0, r);
            let mut s = sa.to_vec();
            s.insert(k, 2);
            judge(if sa == sb { Some(s) } else { None }, rt::stack_f((vec![cv(&a, &d), cv(&b, &d)], (r - k) as isize)), |i| { let mut i = i.to_vec(); let w = i.remove(k); if w == 0 { a.at(&i) } else { b.at(&i) } })
        }
        2 => {
            let k = upick(0, r - 1);
            let ix = [sa[k] - 1, 0, sa[k] - 1];
            let mut s = sa.to_vec();
            s[k] = 3;
            judge(Some(s), cv(&a, &d).index_select_f((r - 1 - k) as isize, ix.to_vec()), |i| { let mut i = i.to_vec(); i[k] = ix[i[k]]; a.at(&i) })
        }
        3 => {
            let k = upick(0, r - 1);
            let mut s = sa.to_vec();
            s.remove(k);
            order();
            judge(Some(s), cv(&a, &d).sum_axes_f((r - 1 - k) as isize), |i| (0..sa[k]).map(|q| { let mut j = i.to_vec(); j.insert(k, q); a.at(&j) }).sum())
        }
        _ => {
            // contiguous copies in the two orders
            let o = if pick(0, 1) == 0 { ColMajor } else { RowMajor };
            let t = ok(cv(&a, &d).into_contig_f(o));
            is(&t, sa, |i| a.at(i));
            check(if o == ColMajor { t.layout().f_contig() } else { t.layout().c_contig() }, "contiguous copy is not contiguous");
        }
    }
}
/// creation fills the memory in column-major order
#[no_mangle]
pub extern "C" fn h_create() {
    let d = dev(true);
    let l: &[&[usize]] = &[&[], &[3], &[2, 3], &[2, 0], &[2, 1, 3]];
    let sh = l[upick(0, l.len() - 1)].to_vec();
    let n: usize = sh.iter().product();
    let x = val();
    reach(1);
    let pos = |i: &[usize]| { let (mut p, mut m) = (0, 1); for k in 0..sh.len() { p += i[k] * m; m *= sh[k]; } p };
    let fc = |t: &Tensor<i64, Dev, IxD>, f: &dyn Fn(&[usize]) -> i64| {
        check(t.layout().f_contig(), "tensor created on a column-major device is not column-major");
        check(t.device().default_order() == ColMajor, "created tensor lives on another device");
        check_tensor(t, &sh, f, "created tensor has a wrong shape", "created tensor has a wrong element");
    };
    match pick(0, 7) {
        0 => fc(&ok(rt::zeros_f((sh.clone(), &d))), &|_| 0),
        1 => fc(&ok(rt::ones_f((sh.clone(), &d))), &|_| 1),
        2 => fc(&ok(rt::full_f((sh.clone(), x, &d))), &|_| x),
        3 => { let v = vals(n); fc(&ok(rt::asarray_f((v.clone(), sh.clone(), &d))), &|i| v[pos(i)]) }
        4 => {
            let v = vals(n);
            let t: TV = ok(rt::asarray_f((&v, sh.clone(), &d)));
            check(t.layout().shape() == &sh, "view has a wrong shape");
            for i in indices(&sh) { check(crate::gen::pos(t.layout(), &i) == pos(&i) as isize, "view of a vector on a column-major device addresses a wrong element") }
        }
        5 => { let k = pick(-2, 2) as isize; let t: T = ok(rt::eye_f((2, 3, k, &d))); check(t.layout().f_contig(), "identity is not column-major"); check_tensor(&t, &[2, 3], |i| (i[1] as isize - i[0] as isize == k) as i64, "identity has a wrong shape", "identity has a wrong element") }
        6 => { let t: T = ok(rt::arange_f((x, x + 4, &d))); check_tensor(&t, &[4], |i| x + i[0] as i64, "range has a wrong shape", "range has a wrong element"); let u = ok(t.into_shape_f([2, 2])); check_tensor(&u, &[2, 2], |i| x + (i[0] + 2 * i[1]) as i64, "range has a wrong shape", "reshape on a column-major device has a wrong order") }
        _ => {
            // a vector too short for the shape
            if n == 0 { return }
            let v = vals(n - 1);
            check(rt::asarray_f((v, sh.clone(), &d)).is_err(), "vector too short for its shape accepted");
        }
    }
}
/// iteration starts with the first axis
#[no_mangle]
pub extern "C" fn h_iter() {
    let l: &[&[usize]] = &[&[3], &[2, 3], &[2, 1, 2], &[0, 2], &[2, 2, 2]];
    let sh = l[upick(0, l.len() - 1)];
    let a = src(sh, pick(0, NPAT));
    let d = dev(true);
    let v = cv(&a, &d);
    let want = indices(sh); // mirrored: first axis of the column-major tensor is the last of the mirror
    reach(1);
    let at = |x: *const i64| (x as usize - a.data.as_ptr() as usize) / 8;
    match pick(0, 4) {
        0 => { let g: Vec<usize> = v.iter().map(|x| at(x)).collect(); check(g.len() == want.len(), "iteration has a wrong length"); for k in 0..g.len() { check(g[k] == a.p(&want[k]), "column-major iteration is in a wrong order") } }
        1 => { let mut k = 0; for (i, x) in v.indexed_iter() { check(rev(&i) == want[k] && at(x) == a.p(&want[k]), "column-major indexed iteration is in a wrong order"); k += 1 } check(k == want.len(), "iteration has a wrong length") }
        2 => {
            let mut data = a.data.clone();
            if !(0..sh.len()).any(|k| sh[k] > 1 && a.lay.stride()[k] == 0) {
                let base = data.as_ptr() as usize;
                let mut t = ok(rt::asarray_f((&mut data, a.lay.reverse_axes(), &d)));
                let mut k = 0;
                for x in t.iter_mut() { check((x as *mut i64 as usize - base) / 8 == a.p(&want[k]), "column-major mutable iteration is in a wrong order"); k += 1 }
                check(k == want.len(), "iteration has a wrong length");
            }
        }
        n => {
            let r = sh.len();
            let k = upick(0, r - 1);
            let outer = indices(&[sh[k]]);
            if n == 3 {
                // the default order of axes_iter is that of the memory: only the set of parts is fixed
                let mut g: Vec<usize> = ok(v.axes_iter_f((r - 1 - k) as isize)).map(|t| t.layout().offset()).collect();
                let mut w: Vec<usize> = (0..outer.len()).map(|q| a.lay.offset().wrapping_add_signed(a.lay.stride()[k] * q as isize)).collect();
                g.sort();
                w.sort();
                check(g == w, "iteration over an axis misses or repeats a part");
            } else if r >= 2 {
                // two axes: the first listed axis in column-major order varies fastest
                let ax = [0isize, (r - 1) as isize];
                let (n0, n1) = (sh[r - 1], sh[0]);
                let g: Vec<(Vec<usize>, usize)> = ok(v.indexed_axes_iter_f(ax.to_vec())).map(|(i, t)| (i.to_vec(), t.layout().offset())).collect();
                check(g.len() == n0 * n1, "iteration over two axes has a wrong length");
                for q in 0..g.len() {
                    let (i0, i1) = (q % n0, q / n0);
                    check(g[q].0 == [i0, i1], "iteration over two axes is in a wrong order");
                    check(g[q].1 == a.lay.offset().wrapping_add_signed(a.lay.stride()[r - 1] * i0 as isize + a.lay.stride()[0] * i1 as isize), "iteration over two axes gives a wrong part");
                }
            }
        }
    }
}
/// linear position of an index in an order
fn lin(i: &[usize], sh: &[usize], f: bool) -> usize {
    let mut p = 0;
    if f { for k in (0..sh.len()).rev() { p = p * sh[k] + i[k] } } else { for k in 0..sh.len() { p = p * sh[k] + i[k] } }
    p
}
fn unlin(mut p: usize, sh: &[usize], f: bool) -> Vec<usize> {
    let mut v = vec![0; sh.len()];
    let o: Vec<usize> = if f { (0..sh.len()).collect() } else { (0..sh.len()).rev().collect() };
    for k in o { v[k] = p % sh[k]; p /= sh[k]; }
    v
}
/// reshape of a tensor on a device of either order with the order given or taken from the device, copying or not
fn reshape(a: Src, b: &[isize]) {
    let col = pick(0, 1) == 1;
    let d = dev(col);
    let sa = a.shape();
    let n = sa.iter().product::<usize>() as isize;
    let neg = b.iter().filter(|&&x| x < 0).count();
    // -1: the product is larger than any size
    let known: isize = b.iter().filter(|&&x| x >= 0).try_fold(1isize, |p, &x| p.checked_mul(x)).unwrap_or(-1);
    let fits = if neg == 0 { known == n } else { neg == 1 && known > 0 && n % known == 0 };
    let sh: Vec<usize> = b.iter().map(|&x| if x < 0 { if known > 0 { (n / known) as usize } else { 0 } } else { x as usize }).collect();
    let o = pick(0, 2);
    let f = match o { 0 => col, 1 => false, _ => true };
    let copy = match pick(0, 2) { 0 => None, 1 => Some(true), _ => Some(false) };
    let args = rstsr_core::prelude_dev::ReshapeArgs { order: match o { 0 => None, 1 => Some(RowMajor), _ => Some(ColMajor) }, copy };
    let v: TV = ok(rt::asarray_f((&a.data, a.lay.clone(), &d)));
    let e = |i: &[usize]| a.at(&unlin(lin(i, &sh, f), &sa, f));
    let seen = |t: &[i64], l: &Layout<IxD>| {
        check(l.shape() == &sh, "reshaped tensor has a wrong shape");
        for i in indices(&sh) {
            let p = crate::gen::pos(l, &i);
            check(p >= 0 && (p as usize) < t.len(), "reshaped tensor reaches outside its storage");
            check(t[p as usize] == e(&i), "reshaped tensor has a wrong element");
        }
    };
    let err = |bad: bool| { reach(2); check(bad, "valid reshape rejected") };
    let plain = o == 0 && copy.is_none();
    match pick(0, if plain { 6 } else { 3 }) {
        0 => match v.reshape_with_args_f(b.to_vec(), args) {
            Ok(t) => {
                check(fits, "reshape to another size accepted");
                reach(1);
                if copy == Some(true) { check(n == 0 || t.raw().as_ptr() != a.data.as_ptr(), "reshape with copy does not copy") }
                if copy == Some(false) { check(t.raw().as_ptr() == a.data.as_ptr(), "reshape without copy copies") }
                seen(t.raw(), t.layout())
            }
            Err(_) => err(!fits || copy == Some(false)),
        },
        1 => match co_row(&a, &d).into_shape_with_args_f(b.to_vec(), args) { Ok(t) => { check(fits, "reshape to another size accepted"); reach(1); seen(t.raw(), t.layout()); check(sh.contains(&0) || !(0..sh.len()).any(|k| sh[k] > 1 && t.layout().stride()[k] == 0), "owned reshaped tensor is broadcast") } Err(_) => err(!fits || copy == Some(false)) },
        2 => match co_row(&a, &d).change_shape_with_args_f(b.to_vec(), args) { Ok(t) => { check(fits, "reshape to another size accepted"); reach(1); seen(t.raw(), t.layout()) } Err(_) => err(!fits || copy == Some(false)) },
        3 => match rt::reshapeable_without_copy(&v, b.to_vec(), args.order) {
            Ok(Some(l)) => { check(fits, "reshape to another size accepted"); reach(1); seen(&a.data, &l) }
            Ok(None) => check(fits, "reshape to another size not rejected"),
            Err(_) => err(!fits),
        },
        4 => match v.reshape_f(b.to_vec()) { Ok(t) => { check(fits, "reshape to another size accepted"); reach(1); seen(t.raw(), t.layout()) } Err(_) => err(!fits) },
        5 => match co_row(&a, &d).into_shape_f(b.to_vec()) { Ok(t) => { check(fits, "reshape to another size accepted"); reach(1); seen(t.raw(), t.layout()) } Err(_) => err(!fits) },
        _ => match co_row(&a, &d).change_shape_f(b.to_vec()) { Ok(t) => { check(fits, "reshape to another size accepted"); reach(1); seen(t.raw(), t.layout()) } Err(_) => err(!fits) },
    }
}
/// owned tensor with the layout of the source itself
fn co_row(a: &Src, d: &Dev) -> T { ok(rt::asarray_f((a.data.clone(), a.lay.clone(), d))) }
const RS: &[(&[usize], &[isize])] = &[(&[2, 3], &[3, 2]), (&[2, 3], &[6]), (&[2, 3], &[-1]), (&[6], &[2, -1]), (&[], &[1, 1]), (&[2, 0], &[0, 5]), (&[2, 2], &[3]), (&[2, 2], &[2, 3]), (&[2, 2], &[1]), (&[2, 2, 2], &[4, 2]), (&[2, 2, 2], &[2, -1]), (&[2, 1, 2], &[2, 2]), (&[2, 2], &[-1, -1]), (&[0], &[1]), (&[1, 3], &[3, 1]), (&[2, 3, 2], &[2, 3, 2]), (&[2, 5], &[2, 13, 419, 691, 823, 2977518503]), (&[2, 2], &[-1, 1 << 62, 4])];
#[no_mangle]
pub extern "C" fn h_reshape() {
    let (s, b) = RS[upick(0, RS.len() - 1)];
    reshape(src(s, pick(0, NPAT)), b)
}
#[no_mangle]
pub extern "C" fn h_reshape_sym() {
    let l: &[(&[usize], &[isize])] = &[(&[2, 2], &[4]), (&[2, 3], &[3, 2]), (&[2, 2, 2], &[4, 2])];
    let (s, b) = l[upick(0, if thorough() { 2 } else { 1 })];
    reshape(src_sym(s, 3, true), b)
}

//! P26: iterators over the elements and axes of a tensor
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use TensorIterOrder as O;

static mut SIMPLE: bool = false;
fn simple() -> bool { unsafe { SIMPLE } }
const SH: &[&[usize]] = &[&[3], &[0], &[2, 3], &[3, 2], &[0, 2], &[2, 0], &[1, 3], &[2, 2, 2], &[2, 1, 3]];
fn shape() -> Vec<usize> { SH[upick(0, SH.len() - if thorough() { 1 } else { 2 })].to_vec() }
/// an ordered list of distinct axes, some written as negative numbers
fn axes(n: usize) -> Vec<isize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let k = upick(0, n.min(2));
    let mut out = vec![];
    for _ in 0..k {
        let a = rest.remove(upick(0, rest.len() - 1));
        out.push(if pick(0, 1) == 0 { a as isize } else { a as isize - n as isize });
    }
    out
}
fn norm(ax: &[isize], n: usize) -> Vec<usize> { ax.iter().map(|&a| if a < 0 { (a + n as isize) as usize } else { a as usize }).collect() }
/// multi-indices over the axes in the order of iteration: C last axis fastest, F first axis fastest
fn outer(sh: &[usize], ax: &[usize], f: bool) -> Vec<Vec<usize>> {
    let e: Vec<usize> = ax.iter().map(|&a| sh[a]).collect();
    if !f { return indices(&e) }
    let r: Vec<usize> = e.iter().rev().copied().collect();
    indices(&r).into_iter().map(|mut v| { v.reverse(); v }).collect()
}
fn full(o: &[usize], ax: &[usize], inner: &[usize], n: usize) -> Vec<usize> {
    let mut it = inner.iter();
    (0..n).map(|k| match ax.iter().position(|&a| a == k) { Some(p) => o[p], None => *it.next().unwrap() }).collect()
}
fn inner_shape(sh: &[usize], ax: &[usize]) -> Vec<usize> { (0..sh.len()).filter(|k| !ax.contains(k)).map(|k| sh[k]).collect() }
/// a history of taking from the front and the back; for each step the position that must be produced
fn drive<I, F>(mut it: I, base: usize, n: usize, f: &mut F)
where I: Iterator + DoubleEndedIterator + ExactSizeIterator, F: FnMut(usize, I::Item) {
    check(it.len() == n, "iterator reports a wrong length");
    let (mut i, mut j) = (0, n);
    let mode = if simple() { pick(0, 1) } else { pick(0, 3) };
    let b = if mode == 3 { upick(0, n) } else { 0 };
    let mut flip = mode == 2;
    while i < j {
        let back = match mode { 0 => false, 1 => true, 2 => { flip = !flip; flip } _ => j > n - b };
        let x = if back { j -= 1; (it.next_back(), j) } else { i += 1; (it.next(), i - 1) };
        match x { (Some(v), k) => f(base + k, v), _ => fail("iterator ends early") }
        check(it.len() == j - i, "iterator reports a wrong remaining length");
    }
    check(it.next().is_none() && it.next_back().is_none(), "iterator yields too many parts");
}
/// split at any position, or not at all
fn split<I, F>(it: I, n: usize, mut f: F)
where I: Iterator + DoubleEndedIterator + ExactSizeIterator + IterSplitAtAPI, F: FnMut(usize, I::Item) {
    reach(1);
    if pick(0, 1) == 0 { drive(it, 0, n, &mut f); return }
    let k = if simple() { n / 2 } else { upick(0, n) };
    let (l, r) = it.split_at(k);
    drive(l, 0, k, &mut f);
    drive(r, k, n - k, &mut f);
}
/// an axis whose parts overlap
fn bc(s: &Src) -> bool { (0..s.lay.ndim()).any(|k| s.lay.shape()[k] > 1 && s.lay.stride()[k] == 0) }
fn eqv<R: DataAPI<Data = Vec<i64>>>(v: &TensorAny<R, i64, Dev, IxD>, s: &Src, o: &[usize], ax: &[usize]) {
    let sh = s.shape();
    let ins = inner_shape(&sh, ax);
    check(v.shape().to_vec() == ins, "a part has the wrong shape");
    for ii in indices(&ins) {
        let p = crate::gen::pos(v.layout(), &ii);
        check(p >= 0 && p as usize == s.p(&full(o, ax, &ii, sh.len())), "a part refers to the wrong elements");
    }
}
fn axes_run(s: Src) {
    let sh = s.shape();
    let n = sh.len();
    let a = axes(n);
    let ax = norm(&a, n);
    let f = pick(0, 1) == 1;
    let ord = if f { O::F } else { O::C };
    let out = outer(&sh, &ax, f);
    let mut buf = s.data.clone();
    let v = s.view();
    match pick(0, 3) {
        0 => { let it = match v.axes_iter_with_order_f(a, ord) { Ok(x) => x, Err(_) => fail("axes_iter rejected valid axes") }; split(it, out.len(), |k, x| eqv(&x, &s, &out[k], &ax)); }
        1 => { let it = match v.indexed_axes_iter_with_order_f(a, ord) { Ok(x) => x, Err(_) => fail("indexed_axes_iter rejected valid axes") }; split(it, out.len(), |k, (i, x)| { check(i.as_ref() as &[usize] == &out[k][..], "a part is reported with the wrong index"); eqv(&x, &s, &out[k], &ax) }); }
        2 => {
            let mut m: TensorMut<i64, Dev, IxD> = match rt::asarray_f((&mut buf, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected") };
            let it = match m.axes_iter_mut_with_order_f(a, ord) { Ok(x) => x, Err(_) => { check(bc(&s), "axes_iter_mut rejected valid axes"); return } };
            split(it, out.len(), |k, x| eqv(&x, &s, &out[k], &ax));
        }
        _ => {
            let mut m: TensorMut<i64, Dev, IxD> = match rt::asarray_f((&mut buf, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected") };
            let it = match m.indexed_axes_iter_mut_with_order_f(a, ord) { Ok(x) => x, Err(_) => { check(bc(&s), "indexed_axes_iter_mut rejected valid axes"); return } };
            split(it, out.len(), |k, (i, x)| { check(i.as_ref() as &[usize] == &out[k][..], "a part is reported with the wrong index"); eqv(&x, &s, &out[k], &ax) });
        }
    }
}
/// parts along any axes, each once, from both ends and across splits
#[no_mangle]
pub extern "C" fn h_axes() { axes_run(src(&shape(), pick(0, 4))); }
#[no_mangle]
pub extern "C" fn h_axes_sym() {
    unsafe { SIMPLE = true };
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 2, 2]];
    axes_run(src_sym(l[upick(0, l.len() - if thorough() { 1 } else { 2 })], 40, true));
}
fn elem_run(s: Src) {
    let sh = s.shape();
    let f = pick(0, 1) == 1;
    let ord = if f { O::F } else { O::C };
    let ax: Vec<usize> = (0..sh.len()).collect();
    let out = outer(&sh, &ax, f);
    let mut buf = s.data.clone();
    let base = s.data.as_ptr() as usize;
    let at = |x: &i64, b: usize, k: usize| check(x as *const i64 as usize == b + 8 * s.p(&out[k]), "iteration over elements yields the wrong element");
    let v = s.view();
    match pick(0, 3) {
        0 => { let it = match v.iter_with_order_f(ord) { Ok(x) => x, Err(_) => fail("iter rejected") }; split(it, out.len(), |k, x| at(x, base, k)); }
        1 => { let it = match v.indexed_iter_with_order_f(ord) { Ok(x) => x, Err(_) => fail("indexed_iter rejected") }; split(it, out.len(), |k, (i, x)| { check(i.as_ref() as &[usize] == &out[k][..], "an element is reported with the wrong index"); at(x, base, k) }); }
        2 => {
            let b = buf.as_ptr() as usize;
            let mut m: TensorMut<i64, Dev, IxD> = match rt::asarray_f((&mut buf, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected") };
            let it = match m.iter_mut_with_order_f(ord) { Ok(x) => x, Err(_) => { check(bc(&s), "iter_mut rejected"); return } };
            check(!bc(&s), "iter_mut over a broadcast tensor");
            split(it, out.len(), |k, x| { at(x, b, k); if !simple() { *x = k as i64 } });
            if !simple() { for k in 0..out.len() { check(buf[s.p(&out[k])] == k as i64, "writing through iter_mut is lost") } }
        }
        _ => {
            let b = buf.as_ptr() as usize;
            let mut m: TensorMut<i64, Dev, IxD> = match rt::asarray_f((&mut buf, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected") };
            let it = match m.indexed_iter_mut_with_order_f(ord) { Ok(x) => x, Err(_) => { check(bc(&s), "indexed_iter_mut rejected"); return } };
            split(it, out.len(), |k, (i, x)| { check(i.as_ref() as &[usize] == &out[k][..], "an element is reported with the wrong index"); at(x, b, k) });
        }
    }
}
/// elements in C and F order
#[no_mangle]
pub extern "C" fn h_elem() { elem_run(src(&shape(), pick(0, 4))); }
#[no_mangle]
pub extern "C" fn h_elem_sym() {
    unsafe { SIMPLE = true };
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 2, 2]];
    elem_run(src_sym(l[upick(0, l.len() - if thorough() { 1 } else { 2 })], 40, true));
}
/// default orders visit every part once
#[no_mangle]
pub extern "C" fn h_default() {
    let s = src(&shape(), pick(0, 4));
    let sh = s.shape();
    let n = sh.len();
    let a = axes(n);
    let ax = norm(&a, n);
    let v = s.view();
    reach(1);
    let mut want: Vec<usize> = outer(&sh, &ax, false).iter().map(|o| s.p(&full(o, &ax, &vec![0; n - ax.len()], n))).collect();
    want.sort();
    let size: usize = sh.iter().product();
    match pick(0, 2) {
        0 => { let it = match v.axes_iter_f(a) { Ok(x) => x, Err(_) => fail("axes_iter rejected valid axes") }; let mut g: Vec<usize> = it.map(|x| x.layout().offset()).collect(); g.sort(); check(g == want, "default order of axes_iter misses or repeats a part") }
        1 => { let ord = [O::C, O::F, O::K, O::A, O::G, O::B][upick(0, 5)]; let it = match v.iter_with_order_f(ord) { Ok(x) => x, Err(_) => return }; let mut g: Vec<usize> = it.map(|x| (x as *const i64 as usize - s.data.as_ptr() as usize) / 8).collect(); g.sort(); let mut w: Vec<usize> = indices(&sh).iter().map(|i| s.p(i)).collect(); w.sort(); check(g == w && g.len() == size, "an order of iteration misses or repeats an element") }
        _ => { let mut k = 0; for (i, x) in v.indexed_iter() { check((x as *const i64 as usize - s.data.as_ptr() as usize) / 8 == s.p(i.as_ref() as &[usize]), "default indexed iteration pairs the wrong element"); k += 1; } check(k == size, "default indexed iteration has a wrong length") }
    }
}
/// mutable references handed out never overlap
#[no_mangle]
pub extern "C" fn h_alias() {
    let l: &[(&[usize], &[usize])] = &[(&[1], &[2]), (&[2, 1], &[2, 2]), (&[1, 2], &[2, 2]), (&[2], &[2, 2]), (&[2, 2], &[2, 2]), (&[1, 0], &[2, 0]), (&[1, 1], &[1, 1]), (&[1, 2], &[1, 2])];
    let (f, t) = l[upick(0, l.len() - 1)];
    let s = src(f, pick(0, 4));
    let mut buf = s.data.clone();
    let base = buf.as_ptr() as usize;
    let m: TensorMut<i64, Dev, IxD> = match rt::asarray_f((&mut buf, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected") };
    let mut m = match m.into_broadcast_f(t.to_vec()) { Ok(x) => x, Err(_) => fail("valid broadcast rejected") };
    let same = f == t || t.contains(&0);
    let ord = if pick(0, 1) == 0 { O::C } else { O::F };
    let some = !t.contains(&0);
    let distinct = |g: &[usize]| if some { for i in 0..g.len() { for j in 0..i { check(g[i] != g[j], "two mutable references to one element") } } };
    reach(1);
    match pick(0, 3) {
        0 => { let r = m.iter_mut_with_order_f(ord); check(!same || r.is_ok(), "iter_mut rejected"); if let Ok(it) = r { let g: Vec<usize> = it.map(|x| x as *mut i64 as usize - base).collect(); distinct(&g) } }
        1 => { let r = m.indexed_iter_mut_with_order_f(ord); check(!same || r.is_ok(), "indexed_iter_mut rejected"); if let Ok(it) = r { let g: Vec<usize> = it.map(|(_, x)| x as *mut i64 as usize - base).collect(); distinct(&g) } }
        2 => { let ax: Vec<isize> = if pick(0, 1) == 0 { vec![0] } else { vec![t.len() as isize - 1] }; let r = m.axes_iter_mut_with_order_f(ax, ord); check(!same || r.is_ok(), "axes_iter_mut rejected"); if let Ok(it) = r { let g: Vec<usize> = it.map(|x| x.layout().offset()).collect(); distinct(&g) } }
        _ => { let ax: Vec<isize> = if pick(0, 1) == 0 { vec![0] } else { vec![t.len() as isize - 1] }; let r = m.indexed_axes_iter_mut_with_order_f(ax, ord); check(!same || r.is_ok(), "indexed_axes_iter_mut rejected"); if let Ok(it) = r { let g: Vec<usize> = it.map(|(_, x)| x.layout().offset()).collect(); distinct(&g) } }
    }
}

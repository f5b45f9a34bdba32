//! P17: tensor creation
use crate::gen::pos;
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

type TX<X> = Tensor<X, Dev, IxD>;
fn ok<X>(r: Result<X>) -> X { match r { Ok(t) => t, Err(_) => fail("creation rejected valid arguments") } }
/// shape, and every element equal to f(index); storage holds all of them
fn is<X: Copy + PartialEq>(t: &TX<X>, sh: &[usize], f: impl Fn(&[usize]) -> X) where Dev: DeviceRawAPI<X, Raw = Vec<X>> {
    check(t.ndim() == sh.len() && t.shape() == &sh.to_vec(), "created tensor has a wrong shape");
    let raw = t.raw();
    for i in indices(sh) {
        let p = pos(t.layout(), &i);
        if p < 0 || p as usize >= raw.len() { fail("created tensor has an element outside its storage") }
        check(raw[p as usize] == f(&i), "created tensor has a wrong element");
    }
}
/// arange of a machine integer type: count elements given by start, step and a stop inside the next step
macro_rules! ar {
    ($ty:ty, $start:expr, $step:expr, $stop:expr, $n:expr) => {{
        let (start, step, stop, n) = ($start as i128, $step as i128, $stop as i128, $n as usize);
        let t: TX<$ty> = ok(rt::arange_f((start as $ty, stop as $ty, step as $ty, &Dev::default())));
        is(&t, &[n], |i| (start as $ty).wrapping_add((i[0] as $ty).wrapping_mul(step as $ty)))
    }};
}
/// start, step, stop within lo..=hi such that exactly n numbers belong to the interval
fn ends(lo: i64, hi: i64, step: i64, n: usize) -> (i64, i64) {
    let start = int(lo, hi);
    let stop = int(lo, hi);
    if n == 0 {
        assume(if step > 0 { start >= stop } else { start <= stop });
        return (start, stop);
    }
    // last = start + (n-1) step lies before stop, and stop not after last + step
    let d = (n as i64 - 1).checked_mul(step);
    let last = match d { Some(d) => match start.checked_add(d) { Some(l) => l, None => { assume(false); unreachable!() } }, None => { assume(false); unreachable!() } };
    assume(if step > 0 { last < stop } else { last > stop });
    let inside = match last.checked_add(step) { Some(e) => if step > 0 { stop <= e } else { stop >= e }, None => true };
    assume(inside);
    (start, stop)
}
#[no_mangle]
pub extern "C" fn h_arange_int() {
    let n = upick(0, if thorough() { 5 } else { 3 });
    let f = pick(0, 8);
    let (lo, hi, steps): (i64, i64, &[i64]) = match f {
        0 | 1 => (i64::MIN, i64::MAX, &[1, -1, 2, -2, 3, -7, 10, 1 << 20, 1 << 62, -(1 << 62), i64::MAX, i64::MIN]),
        2 => (i32::MIN as i64, i32::MAX as i64, &[1, -1, 3, 1 << 30, i32::MAX as i64, i32::MIN as i64]),
        3 => (0, u32::MAX as i64, &[1, 5, 1 << 31, u32::MAX as i64]),
        4 | 5 => (0, i64::MAX, &[1, 5, 1 << 62, i64::MAX]),
        6 => (i8::MIN as i64, i8::MAX as i64, &[1, -1, 5, -5, 100, i8::MIN as i64]),
        7 => (0, u8::MAX as i64, &[1, 5, 100, 255]),
        _ => (i16::MIN as i64, i16::MAX as i64, &[1, -1, 3, 30000, -30000]),
    };
    let step = steps[upick(0, steps.len() - 1)];
    let (start, stop) = ends(lo, hi, step, n);
    reach(1);
    if n == 3 { reach(2) }
    match f {
        0 => ar!(i64, start, step, stop, n),
        1 => ar!(isize, start, step, stop, n),
        2 => ar!(i32, start, step, stop, n),
        3 => ar!(u32, start, step, stop, n),
        4 => ar!(u64, start, step, stop, n),
        5 => ar!(usize, start, step, stop, n),
        6 => ar!(i8, start, step, stop, n),
        7 => ar!(u8, start, step, stop, n),
        _ => ar!(i16, start, step, stop, n),
    }
}
/// dyadic floating-point numbers, where the arithmetic of the specification is exact
#[no_mangle]
pub extern "C" fn h_arange_float() {
    let n = upick(0, if thorough() { 6 } else { 4 });
    let step = [4i64, 1, -2, -4, 8][upick(0, 4)];
    let start = int(-400, 400);
    let stop = int(-400, 400);
    let s = step.signum();
    let gap = (stop - start) * s;
    assume(if n == 0 { gap <= 0 } else { (n as i64 - 1) * step * s < gap && gap <= n as i64 * step * s });
    reach(1);
    let dev = Dev::default();
    let q = |x: i64| x as f64 * 0.25;
    if pick(0, 1) == 0 {
        let t: TX<f64> = ok(rt::arange_f((q(start), q(stop), q(step), &dev)));
        is(&t, &[n], |i| q(start) + q(step * i[0] as i64));
    } else {
        let t: TX<f32> = ok(rt::arange_f((q(start) as f32, q(stop) as f32, q(step) as f32, &dev)));
        is(&t, &[n], |i| (q(start) + q(step * i[0] as i64)) as f32);
    }
}
/// zero step is an error; the short forms default to start 0 and step 1
#[no_mangle]
pub extern "C" fn h_arange_forms() {
    let dev = Dev::default();
    reach(1);
    match pick(0, 4) {
        0 => { let (a, b) = (int(i64::MIN, i64::MAX), int(i64::MIN, i64::MAX)); let r: Result<TX<i64>> = rt::arange_f((a, b, 0i64, &dev)); check(r.is_err(), "arange accepted a zero step") }
        1 => { let r: Result<TX<f64>> = rt::arange_f((0.5, 2.0, 0.0, &dev)); check(r.is_err(), "arange accepted a zero step") }
        2 => { let n = upick(0, 4); let t: TX<i64> = ok(rt::arange_f((n as i64, &dev))); is(&t, &[n], |i| i[0] as i64) }
        3 => { let n = upick(0, 4); let a = int(-1 << 60, 1 << 60); let t: TX<i64> = ok(rt::arange_f((a, a + n as i64, &dev))); is(&t, &[n], |i| a + i[0] as i64) }
        _ => { let a = int(i64::MIN, 0); let t: TX<i64> = ok(rt::arange_f((a, &dev))); is(&t, &[0], |_| 0) }
    }
}
/// linspace: n values, first is start, last is stop when asked for, evenly spaced (checked where division by n is exact)
#[no_mangle]
pub extern "C" fn h_linspace() {
    let dev = Dev::default();
    let ep = pick(0, 1) == 1;
    let n = upick(0, if thorough() { 17 } else { 7 });
    let (a, b) = (int(-500, 500) as f64 * 0.125, int(-500, 500) as f64 * 0.125);
    reach(1);
    let t: TX<f64> = if ep && pick(0, 1) == 1 { ok(rt::linspace_f((a, b, n, &dev))) } else { ok(rt::linspace_f((a, b, n, ep, &dev))) };
    check(t.ndim() == 1 && t.shape()[0] == n, "linspace has a wrong length");
    if n == 0 { return }
    let v = |i: usize| { let p = pos(t.layout(), &[i]); if p < 0 || p as usize >= t.raw().len() { fail("linspace element outside storage") } t.raw()[p as usize] };
    check(v(0) == a, "linspace does not begin with start");
    if ep && n > 1 { check(v(n - 1) == b, "linspace does not end with stop") }
    let d = if ep { n - 1 } else { n };
    if d > 0 && (d & (d - 1)) == 0 {
        reach(2);
        let h = (b - a) * (1.0 / d as f64);
        for i in 0..n { check(v(i) == a + h * i as f64, "linspace is not evenly spaced") }
    }
}
/// ones on the k-th diagonal
#[no_mangle]
pub extern "C" fn h_eye() {
    let dev = Dev::default();
    let (r, c) = (upick(0, 3), upick(0, 3));
    let k = if pick(0, 1) == 0 { int(-5, 5) } else { int(i64::MIN, i64::MAX) };
    reach(1);
    let e = |i: &[usize]| if i[0] as i128 + k as i128 == i[1] as i128 { 1i64 } else { 0 };
    match pick(0, 3) {
        0 => is(&ok(rt::eye_f((r, c, k as isize, RowMajor, &dev))), &[r, c], e),
        1 => is(&ok(rt::eye_f((r, c, k as isize, ColMajor, &dev))), &[r, c], e),
        2 => is(&ok(rt::eye_f((r, c, k as isize, &dev))), &[r, c], e),
        _ => is(&ok(rt::eye_f((r, &dev))), &[r, r], |i| (i[0] == i[1]) as i64),
    }
}
fn shapes() -> Vec<usize> {
    let l: &[&[usize]] = &[&[], &[3], &[2, 3], &[0, 2], &[2, 1, 2]];
    l[upick(0, l.len() - 1)].to_vec()
}
/// zeros, ones, full of a shape in both orders and of a layout with any strides and offset
#[no_mangle]
pub extern "C" fn h_fill() {
    let dev = Dev::default();
    let sh = shapes();
    let x = val();
    reach(1);
    match pick(0, 9) {
        0 => is(&ok(rt::zeros_f((sh.clone(), &dev))), &sh, |_| 0i64),
        1 => is(&ok(rt::ones_f((sh.clone(), &dev))), &sh, |_| 1i64),
        2 => is(&ok(rt::full_f((sh.clone(), x, &dev))), &sh, |_| x),
        f @ 3..=5 => {
            let (o, col) = if pick(0, 1) == 0 { (RowMajor, false) } else { (ColMajor, true) };
            let t: TX<i64> = match f { 3 => ok(rt::zeros_f((sh.clone(), o, &dev))), 4 => ok(rt::ones_f((sh.clone(), o, &dev))), _ => ok(rt::full_f((sh.clone(), x, o, &dev))) };
            is(&t, &sh, |_| match f { 3 => 0, 4 => 1, _ => x });
            // elements one after another in the requested order
            let mut all = indices(&sh);
            if col { let rev: Vec<usize> = sh.iter().rev().cloned().collect(); all = indices(&rev).into_iter().map(|mut v| { v.reverse(); v }).collect(); }
            for (m, i) in all.iter().enumerate() { check(pos(t.layout(), i) == m as isize, "created tensor is not in the requested order") }
        }
        f => {
            let r = sh.len();
            let st: Vec<isize> = (0..r).map(|_| int(-4, 4) as isize).collect();
            let off = uint(0, 12);
            let lay = match Layout::new(sh.clone(), st, off) { Ok(l) => l, Err(_) => { assume(false); unreachable!() } };
            reach(2);
            match f {
                6 => is(&ok(rt::zeros_f((lay, &dev))), &sh, |_| 0i64),
                7 => is(&ok(rt::ones_f((lay, &dev))), &sh, |_| 1i64),
                8 => is(&ok(rt::full_f((lay, x, &dev))), &sh, |_| x),
                _ => {
                    let t: Tensor<core::mem::MaybeUninit<i64>, Dev, IxD> = ok(rt::uninit_f((lay, &dev)));
                    for i in indices(&sh) { let p = pos(t.layout(), &i); check(p >= 0 && (p as usize) < t.raw().len(), "created tensor has an element outside its storage") }
                }
            }
        }
    }
}
/// *_like keep the shape, own storage for every element
#[no_mangle]
pub extern "C" fn h_like() {
    let dev = Dev::default();
    let sh = shapes();
    let x = val();
    let s = src(&sh, pick(0, NPAT));
    let v = s.view();
    let o = [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::A, TensorIterOrder::K][upick(0, 3)];
    reach(1);
    match pick(0, 6) {
        0 => is(&ok(rt::zeros_like_f(&v)), &sh, |_| 0i64),
        1 => is(&ok(rt::ones_like_f(&v)), &sh, |_| 1i64),
        2 => is(&ok(rt::full_like_f((&v, x))), &sh, |_| x),
        3 => is(&ok(rt::zeros_like_f((&v, o, &dev))), &sh, |_| 0i64),
        4 => is(&ok(rt::ones_like_f((&v, o, &dev))), &sh, |_| 1i64),
        5 => is(&ok(rt::full_like_f((&v, x, o, &dev))), &sh, |_| x),
        _ => {
            let t: TX<i64> = ok(unsafe { rt::empty_like_f((&v, o, &dev)) });
            check(t.ndim() == sh.len() && t.shape() == &sh.to_vec(), "empty_like has a wrong shape");
            for i in indices(&sh) { let p = pos(t.layout(), &i); check(p >= 0 && (p as usize) < t.raw().len(), "empty_like has an element outside its storage") }
        }
    }
}
fn tri(s: &Src, sh: &[usize], k: i64, upper: bool) {
    let r = sh.len();
    let keep = |i: &[usize]| { let d = i[r - 1] as i128 - i[r - 2] as i128; if upper { d >= k as i128 } else { d <= k as i128 } };
    let e = |i: &[usize]| if keep(i) { s.at(i) } else { 0 };
    let k = k as isize;
    let overlap = (0..r).any(|d| sh[d] > 1 && s.lay.stride()[d] == 0);
    match pick(0, 3) {
        0 => { let v = s.view(); let t = if upper { ok(rt::triu_f((&v, k))) } else { ok(rt::tril_f((&v, k))) }; is(&t, sh, e) }
        1 => { let v = s.view(); let t = if upper { ok(rt::triu_f((v, k))) } else { ok(rt::tril_f((v, k))) }; is(&t, sh, e) }
        2 => {
            let o = s.owned();
            match if upper { rt::triu_f((o, k)) } else { rt::tril_f((o, k)) } { Ok(t) => is(&t, sh, e), Err(_) => check(overlap, "triangle of an owned tensor rejected") }
        }
        _ => {
            let mut data = s.data.clone();
            let v: TensorMut<i64, Dev, IxD> = ok(rt::asarray_f((&mut data, s.lay.clone(), &Dev::default())));
            let r = match if upper { rt::triu_f((v, k)) } else { rt::tril_f((v, k)) } { Ok(_) => true, Err(_) => false };
            if overlap { return check(!r, "triangle written into a broadcast tensor") }
            check(r, "in-place triangle rejected");
            let mut exp = s.data.clone();
            for i in indices(sh) { if !keep(&i) { exp[s.p(&i)] = 0 } }
            for m in 0..exp.len() { check(data[m] == exp[m], "in-place triangle changes a wrong element") }
        }
    }
}
/// triangle with every diagonal
#[no_mangle]
pub extern "C" fn h_tri() {
    let l: &[&[usize]] = &[&[2, 3], &[3, 2], &[0, 2], &[2, 0], &[2, 2, 2], &[3, 3]];
    let sh = l[upick(0, l.len() - 1 - !thorough() as usize)];
    let s = src(sh, pick(0, 4));
    let k = if pick(0, 1) == 0 { int(-4, 4) } else { int(i64::MIN, i64::MAX) };
    reach(1);
    tri(&s, sh, k, pick(0, 1) == 1)
}
/// every stride and offset
#[no_mangle]
pub extern "C" fn h_tri_sym() {
    let l: &[&[usize]] = &[&[2, 2], &[1, 3], &[3, 1], &[2, 3]];
    let sh = l[upick(0, 2 + thorough() as usize)];
    let s = src_sym(sh, 4, true);
    let k = int(-3, 4);
    reach(1);
    tri(&s, sh, k, pick(0, 1) == 1)
}

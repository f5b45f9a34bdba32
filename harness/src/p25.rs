//! P25: vector dot products along axes
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

/// (shape a, shape b, contracted axes of a, of b); None: the operands do not match
struct Case { sa: &'static [usize], sb: &'static [usize], xa: &'static [usize], xb: &'static [usize] }
const CASES: &[Case] = &[
    Case { sa: &[3], sb: &[3], xa: &[0], xb: &[0] },
    Case { sa: &[2, 3], sb: &[2, 3], xa: &[1], xb: &[1] },
    Case { sa: &[2, 3], sb: &[2, 3], xa: &[0], xb: &[0] },
    Case { sa: &[2, 3], sb: &[3, 2], xa: &[1], xb: &[0] },
    Case { sa: &[2, 3], sb: &[3], xa: &[1], xb: &[0] },
    Case { sa: &[3], sb: &[2, 3], xa: &[0], xb: &[1] },
    Case { sa: &[2, 3], sb: &[1, 3], xa: &[1], xb: &[1] },
    Case { sa: &[2, 1, 2], sb: &[3, 2], xa: &[2], xb: &[1] },
    Case { sa: &[2, 2, 2], sb: &[2, 2, 2], xa: &[0, 2], xb: &[0, 2] },
    Case { sa: &[2, 2, 2], sb: &[2, 2, 2], xa: &[2, 0], xb: &[0, 1] },
    Case { sa: &[2, 3, 2], sb: &[2, 2], xa: &[2, 0], xb: &[0, 1] },
    Case { sa: &[2, 2], sb: &[2, 2], xa: &[], xb: &[] },
    Case { sa: &[2, 2], sb: &[2, 2], xa: &[0, 1], xb: &[1, 0] },
    Case { sa: &[2, 0], sb: &[2, 0], xa: &[1], xb: &[1] },
    Case { sa: &[0, 2], sb: &[0, 2], xa: &[1], xb: &[1] },
    Case { sa: &[0, 2], sb: &[1, 2], xa: &[1], xb: &[1] },
    Case { sa: &[1, 2], sb: &[1, 2], xa: &[0], xb: &[0] },
    Case { sa: &[9], sb: &[9], xa: &[0], xb: &[0] },
    Case { sa: &[2, 66], sb: &[2, 66], xa: &[0], xb: &[0] },
    Case { sa: &[2], sb: &[3], xa: &[0], xb: &[0] },
    Case { sa: &[2, 3], sb: &[4, 3], xa: &[1], xb: &[1] },
];
fn rest(r: usize, x: &[usize]) -> Vec<usize> { (0..r).filter(|k| !x.contains(k)).collect() }
fn out_shape(c: &Case) -> Option<Vec<usize>> {
    for (p, q) in c.xa.iter().zip(c.xb) { if c.sa[*p] != c.sb[*q] { return None } }
    let ra: Vec<usize> = rest(c.sa.len(), c.xa).iter().map(|&k| c.sa[k]).collect();
    let rb: Vec<usize> = rest(c.sb.len(), c.xb).iter().map(|&k| c.sb[k]).collect();
    bshape(&ra, &rb)
}
/// operand index from the contracted and the (broadcast) remaining index
fn operand(s: &[usize], x: &[usize], con: &[usize], i: &[usize]) -> Vec<usize> {
    let mut v = vec![0; s.len()];
    for (k, &p) in x.iter().enumerate() { v[p] = con[k]; }
    let r = rest(s.len(), x);
    for (k, &p) in r.iter().enumerate() { v[p] = if s[p] == 1 { 0 } else { i[i.len() - r.len() + k] }; }
    v
}
fn at(c: &Case, a: &Src, b: &Src, i: &[usize]) -> i64 {
    let cs: Vec<usize> = c.xa.iter().map(|&p| c.sa[p]).collect();
    indices(&cs).iter().map(|q| a.at(&operand(c.sa, c.xa, q, i)) * b.at(&operand(c.sb, c.xb, q, i))).sum()
}
/// axes as the caller may spell them
fn axes(c: &Case) -> AxesPairIndex<isize> {
    let (ra, rb) = (c.sa.len() as isize, c.sb.len() as isize);
    let one = c.xa.len() == 1;
    let (pa, pb) = if one { (c.xa[0] as isize, c.xb[0] as isize) } else { (0, 0) };
    match pick(0, 3) {
        0 if one && pa == pb => AxesPairIndex::Val(pa),
        1 if one && pa - ra == pb - rb => AxesPairIndex::Val(pa - ra),
        2 if one && pa == ra - 1 && pb == rb - 1 => AxesPairIndex::None,
        n => {
            let sh = |x: &[usize], r: isize, neg: bool| AxesIndex::Vec(x.iter().map(|&k| if neg { k as isize - r } else { k as isize }).collect());
            AxesPairIndex::Pair(sh(c.xa, ra, n == 1), sh(c.xb, rb, n >= 2))
        }
    }
}
fn order() {
    match pick(0, 2) { 0 => (), 1 => unsafe { TensorIterOrder::change_default(TensorIterOrder::C) }, _ => unsafe { TensorIterOrder::change_default(TensorIterOrder::F) } }
}
#[no_mangle]
pub extern "C" fn h_vecdot() {
    let c = &CASES[upick(0, CASES.len() - 1)];
    let (a, b) = (src(c.sa, pick(0, NPAT)), src(c.sb, pick(0, NPAT)));
    match (out_shape(c), rt::vecdot_f(&a.view(), &b.view(), axes(c))) {
        (Some(s), Ok(t)) => {
            reach(1);
            check_tensor(&t, &s, |i| at(c, &a, &b, i), "dot product has a wrong shape", "dot product has a wrong element");
        }
        (None, Err(_)) => reach(2),
        (Some(_), Err(_)) => fail("matching operands rejected"),
        (None, Ok(_)) => fail("operands that do not match accepted"),
    }
}
/// three iteration order defaults decide the layout of the result only
#[no_mangle]
pub extern "C" fn h_vecdot_order() {
    let c = &CASES[upick(1, 12)];
    let (a, b) = (src(c.sa, pick(0, NPAT)), src(c.sb, 0));
    order();
    let t = match rt::vecdot_f(&a.view(), &b.view(), axes(c)) { Ok(t) => t, Err(_) => fail("matching operands rejected") };
    reach(1);
    check_tensor(&t, &out_shape(c).unwrap(), |i| at(c, &a, &b, i), "dot product has a wrong shape", "dot product has a wrong element");
}
/// every stride and offset of one operand
#[no_mangle]
pub extern "C" fn h_vecdot_sym() {
    let k = [0, 1, 2, 3, 4, 6, 12];
    let c = &CASES[k[upick(0, k.len() - 1)]];
    let (a, b) = if pick(0, 1) == 0 { (src_sym(c.sa, 3, true), src(c.sb, 4)) } else { (src(c.sa, 1), src_sym(c.sb, 3, true)) };
    let t = match rt::vecdot_f(&a.view(), &b.view(), AxesPairIndex::Pair(AxesIndex::Vec(c.xa.iter().map(|&k| k as isize).collect()), AxesIndex::Vec(c.xb.iter().map(|&k| k as isize).collect()))) { Ok(t) => t, Err(_) => fail("matching operands rejected") };
    reach(1);
    check_tensor(&t, &out_shape(c).unwrap(), |i| at(c, &a, &b, i), "dot product has a wrong shape", "dot product has a wrong element");
}
/// writing into an existing tensor: exactly the addressed elements
#[no_mangle]
pub extern "C" fn h_vecdot_from() {
    let c = &CASES[upick(0, CASES.len() - 1)];
    let s = out_shape(c);
    let bad = pick(0, 1) == 1;
    let sc = match (&s, bad) { (Some(s), false) => s.clone(), (Some(s), true) => { let mut s = s.clone(); if s.is_empty() { s.push(2) } else { s[0] += 1 }; s } _ => vec![2] };
    let two = pick(0, 1);
    let (a, b) = (src(c.sa, if two == 0 { pick(0, 4) } else { 0 }), src(c.sb, 0));
    let d = src(&sc, if two == 1 { pick(0, NPAT) } else { 4 });
    let bc = (0..sc.len()).any(|k| sc[k] > 1 && d.lay.stride()[k] == 0);
    let mut data = d.data.clone();
    let dev = Dev::default();
    let r = {
        let mut t = match rt::asarray_f((&mut data, d.lay.clone(), &dev)) { Ok(t) => t, Err(_) => fail("valid layout rejected for a mutable view") };
        if pick(0, 1) == 0 { rt::vecdot_from_f(&mut t, &a.view(), &b.view(), axes(c)) } else { t.vecdot_from_f(&a.view(), &b.view(), axes(c)) }
    };
    if s.is_none() || bad {
        reach(2);
        check(r.is_err(), "output of another shape accepted");
    } else if bc {
        check(r.is_err(), "broadcast output accepted");
    } else {
        check(r.is_ok(), "matching output rejected");
    }
    let mut want = d.data.clone();
    if r.is_ok() {
        reach(1);
        for i in indices(&sc) { want[d.p(&i)] = at(c, &a, &b, &i); }
    }
    for k in 0..data.len() { check(data[k] == want[k], "dot product leaves a wrong value in the storage"); }
}
/// axes out of range or repeated are errors
#[no_mangle]
pub extern "C" fn h_vecdot_axes() {
    let (a, b) = (src(&[2, 2], 0), src(&[2, 2, 2], 0));
    match pick(0, 1) {
        0 => {
            let x = pick(-5, 5) as isize;
            let r = rt::vecdot_f(&a.view(), &b.view(), x);
            if x < -2 || x > 1 { reach(2); check(r.is_err(), "axis out of range accepted") } else { reach(1); check(r.is_ok(), "valid axis rejected") }
        }
        _ => {
            let (x, y) = ([pick(-3, 2) as isize, pick(-3, 2) as isize], [pick(-4, 3) as isize, pick(-4, 3) as isize]);
            let r = rt::vecdot_f(&a.view(), &b.view(), AxesPairIndex::Pair(AxesIndex::Vec(x.to_vec()), AxesIndex::Vec(y.to_vec())));
            let ok = |v: &[isize; 2], n: isize| v.iter().all(|&k| -n <= k && k < n) && v[0].rem_euclid(n) != v[1].rem_euclid(n);
            if ok(&x, 2) && ok(&y, 3) { reach(1); check(r.is_ok(), "valid axes rejected") } else { reach(2); check(r.is_err(), "invalid axes accepted") }
        }
    }
}
/// the first operand is conjugated
#[no_mangle]
pub extern "C" fn h_vecdot_complex() {
    use num::complex::Complex;
    let l: &[(&[usize], isize)] = &[(&[2], 0), (&[2, 2], 0), (&[2, 2], 1), (&[3], -1)];
    let (sh, ax) = l[upick(0, l.len() - 1)];
    let (lay, len) = pattern(sh, pick(0, 4));
    let g = || -> Vec<Complex<f64>> { (0..len).map(|_| Complex::new(int(-100, 100) as f64, int(-100, 100) as f64)).collect() };
    let (x, y) = (g(), g());
    let dev = Dev::default();
    let a: TensorView<Complex<f64>, Dev, IxD> = rt::asarray((&x, lay.clone(), &dev));
    let b: TensorView<Complex<f64>, Dev, IxD> = rt::asarray((&y, lay.clone(), &dev));
    let t = rt::vecdot(&a, &b, ax);
    let k = if ax < 0 { (ax + sh.len() as isize) as usize } else { ax as usize };
    let rs: Vec<usize> = rest(sh.len(), &[k]).iter().map(|&q| sh[q]).collect();
    reach(1);
    check(t.shape() == &rs, "dot product has a wrong shape");
    for i in indices(&rs) {
        let (mut re, mut im) = (0.0, 0.0);
        for q in 0..sh[k] {
            let mut j = i.clone();
            j.insert(k, q);
            let p = crate::gen::pos(&lay, &j) as usize;
            re += x[p].re * y[p].re + x[p].im * y[p].im;
            im += x[p].re * y[p].im - x[p].im * y[p].re;
        }
        let v = t.raw()[crate::gen::pos(t.layout(), &i) as usize];
        check(v.re == re && v.im == im, "complex dot product is not the sum of conj(a) b");
    }
}

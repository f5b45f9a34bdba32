//! P11: reductions
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

fn order() {
    match pick(0, 2) { 0 => {} 1 => unsafe { TensorIterOrder::change_default(TensorIterOrder::C) }, _ => unsafe { TensorIterOrder::change_default(TensorIterOrder::F) } }
}
fn sub_axes(r: usize) -> Vec<usize> {
    let m = upick(0, (1 << r) - 1);
    (0..r).filter(|k| m >> k & 1 == 1).collect()
}
fn spelled(r: usize, ax: &[usize]) -> Vec<isize> {
    let neg = pick(0, 1) == 1;
    let mut v: Vec<isize> = ax.iter().map(|&a| if neg { a as isize - r as isize } else { a as isize }).collect();
    if ax.len() > 1 && pick(0, 1) == 1 { v.reverse() }
    v
}
fn rest(r: usize, ax: &[usize]) -> Vec<usize> { (0..r).filter(|k| !ax.contains(k)).collect() }
/// full index from the remaining and the reduced coordinates
fn merge(r: usize, ax: &[usize], red: &[usize], rem: &[usize]) -> Vec<usize> {
    let mut v = vec![0; r];
    for (q, &k) in ax.iter().enumerate() { v[k] = red[q] }
    for (q, &k) in rest(r, ax).iter().enumerate() { v[k] = rem[q] }
    v
}
fn small() -> &'static [usize] {
    let l: &[&[usize]] = &[&[], &[3], &[0], &[2, 3], &[3, 1], &[0, 2], &[2, 0], &[2, 3, 2], &[1, 2, 2], &[2, 0, 2], &[9], &[2, 9]];
    let l2: &[&[usize]] = &[&[2, 2, 2, 2], &[3, 2, 3], &[17, 2]];
    let n = l.len() - 1 + if thorough() { l2.len() } else { 0 };
    let k = upick(0, n);
    if k < l.len() { l[k] } else { l2[k - l.len()] }
}
fn large() -> &'static [usize] {
    let l: &[&[usize]] = &[&[33], &[40], &[2, 33], &[33, 2], &[2, 50], &[50, 2], &[2, 2, 33], &[97, 2]];
    l[upick(0, l.len() - 1)]
}
fn sum_axes_of(sh: &[usize]) {
    let r = sh.len();
    let a = src(sh, pick(0, NPAT));
    let ax = sub_axes(r);
    order();
    let t = match a.view().sum_axes_f(spelled(r, &ax)) { Ok(t) => t, Err(_) => fail("sum rejected") };
    let shr: Vec<usize> = rest(r, &ax).iter().map(|&k| sh[k]).collect();
    let shx: Vec<usize> = ax.iter().map(|&k| sh[k]).collect();
    reach(1);
    let red = indices(&shx);
    check_tensor(&t, &shr, |i| red.iter().map(|x| a.at(&merge(r, &ax, x, i))).sum(), "sum has a wrong shape", "sum has a wrong element");
}
#[no_mangle]
pub extern "C" fn h_sum_axes() { sum_axes_of(small()) }
#[no_mangle]
pub extern "C" fn h_sum_axes_large() { sum_axes_of(large()) }
/// every stride and offset
#[no_mangle]
pub extern "C" fn h_sum_sym() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 3]];
    let sh = l[upick(0, if thorough() { 2 } else { 1 })];
    let r = sh.len();
    let a = src_sym(sh, 4, true);
    let ax = sub_axes(r);
    let axs: Vec<isize> = ax.iter().map(|&x| x as isize).collect();
    let t = match a.view().sum_axes_f(axs) { Ok(t) => t, Err(_) => fail("sum rejected") };
    let shr: Vec<usize> = rest(r, &ax).iter().map(|&k| sh[k]).collect();
    let shx: Vec<usize> = ax.iter().map(|&k| sh[k]).collect();
    reach(1);
    let red = indices(&shx);
    check_tensor(&t, &shr, |i| red.iter().map(|x| a.at(&merge(r, &ax, x, i))).sum(), "sum has a wrong shape", "sum has a wrong element");
    let s = match a.view().sum_all_f() { Ok(t) => t, Err(_) => fail("sum rejected") };
    check(s == indices(sh).iter().map(|i| a.at(i)).sum::<i64>(), "total sum is wrong");
}
#[no_mangle]
pub extern "C" fn h_sum_all() {
    let sh = if pick(0, 1) == 0 { small() } else { large() };
    let a = src(sh, pick(0, NPAT));
    order();
    reach(1);
    let s = match a.view().sum_all_f() { Ok(t) => t, Err(_) => fail("sum rejected") };
    check(s == indices(sh).iter().map(|i| a.at(i)).sum::<i64>(), "total sum is wrong");
    let t = match rt::sum_axes_f(a.view(), None) { Ok(t) => t, Err(_) => fail("sum rejected") };
    check(t.ndim() == 0 && t.raw().len() == 1 && t.raw()[0] == s, "sum over all axes differs from the total");
}
/// invalid axes are errors
#[no_mangle]
pub extern "C" fn h_axes_err() {
    let sh: &[usize] = &[2, 3];
    let a = src(sh, 0);
    let n = upick(1, 3);
    let ax: Vec<isize> = (0..n).map(|_| pick(-4, 4) as isize).collect();
    let nrm: Vec<isize> = ax.iter().map(|&x| if x < 0 { x + 2 } else { x }).collect();
    let ok = nrm.iter().all(|&x| x == 0 || x == 1) && (0..n).all(|i| (0..i).all(|j| nrm[i] != nrm[j]));
    let (r1, r2, r3) = (a.view().sum_axes_f(ax.clone()).is_ok(), a.view().max_axes_f(ax.clone()).is_ok(), a.view().argmin_axes_f(ax).is_ok());
    if ok { reach(1) } else { reach(2) }
    check(r1 == ok && r2 == ok && r3 == ok, "reduction accepts invalid axes or rejects valid ones");
}
/// minimum, maximum, product and their witnesses
#[no_mangle]
pub extern "C" fn h_minmax() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[3, 1], &[2, 1, 2], &[0, 2]];
    let sh = l[upick(0, l.len() - 1)];
    let r = sh.len();
    let a = src(sh, pick(0, NPAT));
    let ax = sub_axes(r);
    order();
    let axs: Vec<isize> = ax.iter().map(|&x| x as isize).collect();
    let shr: Vec<usize> = rest(r, &ax).iter().map(|&k| sh[k]).collect();
    let shx: Vec<usize> = ax.iter().map(|&k| sh[k]).collect();
    let red = indices(&shx);
    let empty = sh.contains(&0);
    let v = a.view();
    let isel = pick(0, 3);
    let what = if isel < 2 { v.min_axes_f(axs) } else { v.max_axes_f(axs) };
    if empty { reach(2); check(what.is_err(), "minimum of an empty tensor accepted"); return }
    reach(1);
    let t = match what { Ok(t) => t, Err(_) => fail("minimum rejected") };
    let lt = isel < 2;
    check_tensor(&t, &shr, |i| {
        let mut m = a.at(&merge(r, &ax, &red[0], i));
        for x in &red { let y = a.at(&merge(r, &ax, x, i)); m = if (lt && y < m) || (!lt && y > m) { y } else { m } }
        m
    }, "minimum has a wrong shape", "minimum has a wrong element");
    let s = if lt { v.min_all_f() } else { v.max_all_f() };
    let s = match s { Ok(s) => s, Err(_) => fail("minimum rejected") };
    let mut any = false;
    for i in indices(sh) { let y = a.at(&i); check(if lt { s <= y } else { s >= y }, "total minimum is not a bound"); any |= s == y; }
    check(any, "total minimum is not attained");
}
#[no_mangle]
pub extern "C" fn h_arg() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[3, 1], &[2, 1, 2], &[0, 2]];
    let sh = l[upick(0, l.len() - 1)];
    let r = sh.len();
    let a = src(sh, pick(0, NPAT));
    let ax = sub_axes(r);
    if ax.len() == 0 { assume(false) }
    order();
    let axs: Vec<isize> = ax.iter().map(|&x| x as isize).collect();
    let shr: Vec<usize> = rest(r, &ax).iter().map(|&k| sh[k]).collect();
    let shx: Vec<usize> = ax.iter().map(|&k| sh[k]).collect();
    let red = indices(&shx);
    let v = a.view();
    let lt = pick(0, 1) == 0;
    if sh.contains(&0) { reach(2); check(v.argmin_axes_f(axs).is_err() && v.argmin_all_f().is_err(), "argmin of an empty tensor accepted"); return }
    reach(1);
    let first = |vals: &[i64]| { let mut b = 0usize; for k in 0..vals.len() { if if lt { vals[k] < vals[b] } else { vals[k] > vals[b] } { b = k } } b };
    let t = match if lt { v.argmin_axes_f(axs.clone()) } else { v.argmax_axes_f(axs.clone()) } { Ok(t) => t, Err(_) => fail("argmin rejected") };
    check_tensor(&t, &shr, |i| first(&red.iter().map(|x| a.at(&merge(r, &ax, x, i))).collect::<Vec<_>>()), "argmin has a wrong shape", "argmin is not the first position of the extremum");
    let u = match if lt { v.unraveled_argmin_axes_f(axs) } else { v.unraveled_argmax_axes_f(axs) } { Ok(t) => t, Err(_) => fail("argmin rejected") };
    check(u.layout().shape().as_ref() as &[usize] == &shr[..], "unraveled argmin has a wrong shape");
    for i in indices(&shr) {
        let p = crate::gen::pos(u.layout(), &i) as usize;
        let k = first(&red.iter().map(|x| a.at(&merge(r, &ax, x, &i))).collect::<Vec<_>>());
        check(u.raw()[p] == red[k], "unraveled argmin is not the first position of the extremum");
    }
    let all: Vec<i64> = indices(sh).iter().map(|i| a.at(i)).collect();
    let k = match if lt { v.argmin_all_f() } else { v.argmax_all_f() } { Ok(t) => t, Err(_) => fail("argmin rejected") };
    check(k == first(&all), "total argmin is not the first position of the extremum");
}
/// boolean reductions and counts
#[no_mangle]
pub extern "C" fn h_bool() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 1, 2], &[0, 2], &[9]];
    let sh = l[upick(0, l.len() - 1)];
    let r = sh.len();
    let (lay, len) = pattern(sh, pick(0, NPAT));
    let data: Vec<bool> = (0..len).map(|_| any_bool()).collect();
    let at = |i: &[usize]| data[crate::gen::pos(&lay, i) as usize];
    let v: TensorView<bool, Dev, IxD> = rt::asarray((&data, lay.clone(), &Dev::default()));
    let ax = sub_axes(r);
    let axs: Vec<isize> = ax.iter().map(|&x| x as isize).collect();
    let shr: Vec<usize> = rest(r, &ax).iter().map(|&k| sh[k]).collect();
    let shx: Vec<usize> = ax.iter().map(|&k| sh[k]).collect();
    let red = indices(&shx);
    reach(1);
    match pick(0, 2) {
        0 => check_tensor(&rt::all_axes(&v, axs), &shr, |i| red.iter().fold(true, |b, x| b & at(&merge(r, &ax, x, i))), "all has a wrong shape", "all has a wrong element"),
        1 => check_tensor(&rt::any_axes(&v, axs), &shr, |i| red.iter().fold(false, |b, x| b | at(&merge(r, &ax, x, i))), "any has a wrong shape", "any has a wrong element"),
        _ => check_tensor(&v.sum_axes(axs), &shr, |i| red.iter().map(|x| at(&merge(r, &ax, x, i)) as usize).sum(), "count has a wrong shape", "count has a wrong element"),
    }
}
#[no_mangle]
pub extern "C" fn h_count() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 1, 2]];
    let sh = l[upick(0, l.len() - 1)];
    let r = sh.len();
    let a = src(sh, pick(0, NPAT));
    let ax = sub_axes(r);
    let axs: Vec<isize> = ax.iter().map(|&x| x as isize).collect();
    let shr: Vec<usize> = rest(r, &ax).iter().map(|&k| sh[k]).collect();
    let red = indices(&ax.iter().map(|&k| sh[k]).collect::<Vec<_>>());
    reach(1);
    check_tensor(&a.view().count_nonzero_axes(axs), &shr, |i| red.iter().map(|x| (a.at(&merge(r, &ax, x, i)) != 0) as usize).sum(), "count has a wrong shape", "count has a wrong element");
}
/// element type with heap storage: no element is dropped twice
#[derive(Clone)]
struct Bx(Box<i64>);
impl core::ops::Add for Bx { type Output = Bx; fn add(self, o: Bx) -> Bx { Bx(Box::new(*self.0 + *o.0)) } }
impl num::Zero for Bx { fn zero() -> Bx { Bx(Box::new(0)) } fn is_zero(&self) -> bool { *self.0 == 0 } }
#[no_mangle]
pub extern "C" fn h_sum_boxed() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 1, 2]];
    let sh = l[upick(0, l.len() - 1)];
    let r = sh.len();
    let (lay, len) = pattern(sh, pick(0, NPAT));
    let data: Vec<Bx> = (0..len).map(|_| Bx(Box::new(val()))).collect();
    let at = |i: &[usize]| *data[crate::gen::pos(&lay, i) as usize].0;
    let ax = sub_axes(r);
    let axs: Vec<isize> = ax.iter().map(|&x| x as isize).collect();
    let shr: Vec<usize> = rest(r, &ax).iter().map(|&k| sh[k]).collect();
    let red = indices(&ax.iter().map(|&k| sh[k]).collect::<Vec<_>>());
    order();
    reach(1);
    let t = { let v: TensorView<Bx, Dev, IxD> = rt::asarray((&data, lay.clone(), &Dev::default())); v.sum_axes(axs) };
    for i in indices(&shr) {
        let p = crate::gen::pos(t.layout(), &i) as usize;
        check(*t.raw()[p].0 == red.iter().map(|x| at(&merge(r, &ax, x, &i))).sum::<i64>(), "sum of boxed elements is wrong");
    }
}
/// mean, variance, deviation and norm are the stated functions of the sums over the same axes
#[no_mangle]
pub extern "C" fn h_stat() {
    let l: &[&[usize]] = &[&[4], &[2, 2], &[2, 3], &[2, 1, 2], &[64]];
    let sh = l[upick(0, l.len() - 1)];
    let r = sh.len();
    let (lay, len) = pattern(sh, pick(0, NPAT));
    let data: Vec<f64> = (0..len).map(|_| val() as f64).collect();
    let v: TensorView<f64, Dev, IxD> = rt::asarray((&data, lay.clone(), &Dev::default()));
    let sq: Vec<f64> = data.iter().map(|x| x * x).collect();
    let q: TensorView<f64, Dev, IxD> = rt::asarray((&sq, lay.clone(), &Dev::default()));
    let ax = sub_axes(r);
    let axs: Vec<isize> = ax.iter().map(|&x| x as isize).collect();
    // counts that are powers of two: the statistics of integer data are then exact whatever the order of evaluation
    assume(ax.iter().map(|&k| sh[k]).product::<usize>().is_power_of_two());
    let shr: Vec<usize> = rest(r, &ax).iter().map(|&k| sh[k]).collect();
    let n = ax.iter().map(|&k| sh[k]).product::<usize>() as f64;
    let (s, s2) = (v.sum_axes(axs.clone()), q.sum_axes(axs.clone()));
    let g = |t: &Tensor<f64, Dev, IxD>, i: &[usize]| t.raw()[crate::gen::pos(t.layout(), i) as usize];
    reach(1);
    match pick(0, 3) {
        0 => check_f(&v.mean_axes(axs), &shr, |i| g(&s, i) / n, "mean has a wrong shape", "mean is not the sum over the count"),
        1 => check_f(&v.var_axes(axs), &shr, |i| { let m = g(&s, i) / n; g(&s2, i) / n - m * m }, "variance has a wrong shape", "variance is not the mean square minus the squared mean"),
        2 => check_f(&v.std_axes(axs), &shr, |i| { let m = g(&s, i) / n; (g(&s2, i) / n - m * m).sqrt() }, "deviation has a wrong shape", "deviation is not the root of the variance"),
        _ => check_f(&v.l2_norm_axes(axs), &shr, |i| g(&s2, i).sqrt(), "norm has a wrong shape", "norm is not the root of the sum of squares"),
    }
}

/// bit for bit comparison
fn check_f(t: &Tensor<f64, Dev, IxD>, sh: &[usize], want: impl Fn(&[usize]) -> f64, m1: &'static str, m2: &'static str) {
    check(t.shape().as_slice() == sh, m1);
    for i in indices(sh) { check(t.raw()[crate::gen::pos(t.layout(), &i) as usize].to_bits() == want(&i).to_bits(), m2); }
}

//! P22: cdist: table of pairwise distances of rows (batched serial and parallel kernels, metrics, weights)
use crate::sym::*;
use crate::tgen::{pattern, Dev};
use num::Complex;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::DeviceBaseAPI;
use rstsr_sci_traits::distance::metric::*;
use rstsr_sci_traits::distance::native_impl::*;
use rstsr_sci_traits::distance::traits::{cdist_f, CDistAPI};
type S = DeviceCpuSerial;

/// metric whose value identifies how it was called
struct Probe;
/// a value that stands for a list of numbers
fn mark(v: &[i64]) -> i64 { let mut h = 0; for &x in v { h = uf(77, h, x as u64) } h as i64 }
impl<T> MetricDistAPI<Vec<T>> for Probe {
    type Out = i64;
    fn distance<const STRIDED: bool>(&self, _: (&Vec<T>, &Vec<T>), o: (usize, usize), i: (usize, usize), s: (isize, isize), k: usize) -> i64 {
        check(STRIDED || (s.0 == 1 && s.1 == 1), "strides are ignored although they are not one");
        mark(&[o.0 as i64, o.1 as i64, i.0 as i64, i.1 as i64, s.0 as i64, s.1 as i64, k as i64])
    }
}
fn table(r: Result<Vec<i64>>, m: usize, n: usize, la: &Layout<Ix2>, lb: &Layout<Ix2>, col: bool) {
    reach(1);
    let r = match r { Ok(r) => r, Err(_) => fail("valid input rejected") };
    check(r.len() == m * n, "wrong number of distances");
    let (sa, sb) = (la.stride(), lb.stride());
    for i in 0..m { for j in 0..n {
        let (oa, ob) = (la.offset() as isize + i as isize * sa[0], lb.offset() as isize + j as isize * sb[0]);
        let w = mark(&[oa as i64, ob as i64, i as i64, j as i64, sa[1] as i64, sb[1] as i64, la.shape()[1] as i64]);
        check(r[if col { i + j * m } else { i * n + j }] == w, "distance is not that of its rows");
    } }
}
fn lay(m: usize, k: usize, unit: bool) -> Layout<Ix2> {
    let s = |u: bool| if u { 1 } else { int(-5, 5) as isize };
    let (s0, s1, o) = (s(false), s(unit), uint(60, 100));
    unsafe { Layout::new_unchecked([m, k], [s0, s1], o) }
}
/// every stride and offset; sizes cross the batches of 8 rows
fn driver<T: Clone + Send + Sync>(z: T, sizes: &[usize], ks: i64) {
    let (m, n, k) = (sizes[upick(0, sizes.len() - 1)], sizes[upick(0, sizes.len() - 1)], pick(0, ks) as usize);
    let (la, lb) = (lay(m, k, pick(0, 1) == 0), lay(n, k, pick(0, 1) == 0));
    let (x, y) = (vec![z.clone()], vec![z]);
    let (par, col) = (pick(0, 1) == 1, pick(0, 1) == 1);
    let o = if col { ColMajor } else { RowMajor };
    let dev = DeviceFaer::default();
    let r = if par { cdist_rayon(&x, &y, &la, &lb, Probe, o, if pick(0, 1) == 0 { dev.get_current_pool() } else { None }) } else { cdist_serial(&x, &y, &la, &lb, Probe, o) };
    table(r, m, n, &la, &lb, col)
}
#[no_mangle]
pub extern "C" fn h_driver_sym() { driver(0i64, &[0, 1, 2, 3], 2) }
#[no_mangle]
pub extern "C" fn h_batch_sym() {
    static Z: [u8; 65536] = [0; 65536];
    driver(Z, if thorough() { &[1, 8, 9, 17] } else { &[1, 9] }, 1)
}

/// rows with float elements; stride pattern of the table
struct Rows<T> { d: Vec<T>, l: Layout<IxD>, m: usize, k: usize }
impl<T: Copy> Rows<T> {
    fn new(m: usize, k: usize, pat: i64, mut f: impl FnMut() -> T) -> Self { let (l, len) = pattern(&[m, k], pat); Rows { d: (0..len).map(|_| f()).collect(), l, m, k } }
    fn at(&self, i: usize, j: usize) -> T { self.d[crate::gen::pos(&self.l, &[i, j]) as usize] }
    fn row(&self, i: usize) -> Vec<T> { (0..self.k).map(|j| self.at(i, j)).collect() }
    fn two(&self) -> Layout<Ix2> { match self.l.to_dim::<Ix2>() { Ok(l) => l, Err(_) => fail("layout of rank two") } }
}
fn small() -> f64 { int(-20, 20) as f64 }
fn wt() -> f64 { int(0, 4) as f64 }
fn sizes() -> (usize, usize, usize) { let (a, b) = if thorough() { (2, 3) } else { (2, 2) }; (upick(1, a), upick(1, 2), upick(1, b)) }
/// run a metric with or without weights on one of the devices, serial or parallel, and compare with a formula
fn run<T, M>(a: &Rows<T>, b: &Rows<T>, mk: impl Fn() -> M, w: Option<&Vec<f64>>, f: impl Fn(&[T], &[T], Option<&[f64]>) -> f64)
where T: Copy + Send + Sync, M: MetricDistWeightedAPI<Vec<T>, Out = f64, Weight = Vec<f64>> + Send + Sync {
    reach(1);
    let dev = DeviceFaer::default();
    let par = pick(0, 1) == 1;
    let (la, lb) = (a.two(), b.two());
    let p = if par { dev.get_current_pool() } else { None };
    let r = match (w, par) {
        (Some(w), true) => cdist_weighted_rayon(&a.d, &b.d, &la, &lb, w, mk(), RowMajor, p),
        (Some(w), false) => cdist_weighted_serial(&a.d, &b.d, &la, &lb, w, mk(), RowMajor),
        (None, true) => cdist_rayon(&a.d, &b.d, &la, &lb, mk(), RowMajor, p),
        (None, false) => cdist_serial(&a.d, &b.d, &la, &lb, mk(), RowMajor),
    };
    let r = match r { Ok(r) => r, Err(_) => fail("valid input rejected") };
    for i in 0..a.m { for j in 0..b.m {
        let e = f(&a.row(i), &b.row(j), w.map(|w| &w[..]));
        let g = r[i * b.m + j];
        same(g, e);
    } }
}
fn same(g: f64, e: f64) {
    let b = g.to_bits() == e.to_bits();
    check(if b { true } else { g == e || (g != g && e != e) }, "distance differs from its definition")
}
fn sum(k: usize, mut f: impl FnMut(usize) -> f64) -> f64 { let mut s = 0.0; for i in 0..k { s += f(i) } s }
fn sq(x: f64) -> f64 { x.powi(2) }
fn g(w: Option<&[f64]>, i: usize) -> f64 { match w { Some(w) => w[i], None => 1.0 } }
fn gx(w: Option<&[f64]>, i: usize, x: f64) -> f64 { match w { Some(w) => w[i] * x, None => x } }
fn float(which: usize, weighted: bool) {
    let (m, n, k) = sizes();
    let (pa, pb) = (pick(0, 3), pick(0, 1));
    // comparing elements needs few values, and one row
    let (m, el): (usize, fn() -> f64) = if which == 5 { (1, || int(-1, 1) as f64) } else { (m, small) };
    let (a, b) = (Rows::new(m, k, pa, el), Rows::new(n, k, pb, el));
    // weights that are only added up are given numbers
    let wv: Vec<f64> = (0..k).map(|i| if which == 5 || which == 9 { [1.0, 2.0, 1.0][i] } else { wt() }).collect();
    let w = if weighted { Some(&wv) } else { None };
    match which {
        0 => run(&a, &b, || MetricEuclidean, w, |u, v, w| sum(k, |i| g(w, i) * sq(u[i] - v[i])).sqrt()),
        1 => run(&a, &b, || MetricSqEuclidean, w, |u, v, w| sum(k, |i| g(w, i) * sq(u[i] - v[i]))),
        2 => run(&a, &b, || MetricCityBlock, w, |u, v, w| sum(k, |i| g(w, i) * (u[i] - v[i]).abs())),
        3 => run(&a, &b, || MetricChebyshev, w, |u, v, w| { let mut d = 0.0f64; for i in 0..k { if g(w, i) != 0.0 { d = d.max((u[i] - v[i]).abs()) } } d }),
        4 => run(&a, &b, || MetricBrayCurtis, w, |u, v, w| sum(k, |i| g(w, i) * (u[i] - v[i]).abs()) / sum(k, |i| g(w, i) * (u[i] + v[i]).abs())),
        5 => run(&a, &b, || MetricHamming, w, |u, v, w| sum(k, |i| if u[i] != v[i] { g(w, i) } else { 0.0 }) / sum(k, |i| g(w, i))),
        6 => run(&a, &b, || MetricMinkowski::<f64>::new(3.0), w, |u, v, w| sum(k, |i| gx(w, i, (u[i] - v[i]).abs().powf(3.0))).powf(1.0 / 3.0)),
        7 => run(&a, &b, MetricCosine::<Vec<f64>>::new, w, |u, v, w| {
            let nn = |x: &[f64]| sum(k, |i| g(w, i) * x[i] * x[i]).sqrt();
            1.0 - sum(k, |i| g(w, i) * u[i] * v[i]) / (nn(u) * nn(v))
        }),
        8 => run(&a, &b, || MetricCanberra, w, |u, v, w| { let mut s = 0.0; for i in 0..k { let d = u[i].abs() + v[i].abs(); if d != 0.0 { s += gx(w, i, (u[i] - v[i]).abs()) / d } } s }),
        _ => run(&a, &b, MetricCorrelation::<Vec<f64>>::new, w, |u, v, w| {
            let mean = |x: &[f64]| sum(k, |i| g(w, i) * x[i]) / sum(k, |i| g(w, i));
            let (mu, mv) = (mean(u), mean(v));
            let nn = |x: &[f64], m: f64| sum(k, |i| g(w, i) * (x[i] - m) * (x[i] - m)).sqrt();
            1.0 - sum(k, |i| g(w, i) * (u[i] - mu) * (v[i] - mv)) / (nn(u, mu) * nn(v, mv))
        }),
    }
}
#[no_mangle]
pub extern "C" fn h_euclidean_sym() { float(0, false) }
#[no_mangle]
pub extern "C" fn h_euclidean_weighted_sym() { float(0, true) }
#[no_mangle]
pub extern "C" fn h_sqeuclidean_sym() { float(1, false) }
#[no_mangle]
pub extern "C" fn h_sqeuclidean_weighted_sym() { float(1, true) }
#[no_mangle]
pub extern "C" fn h_cityblock_sym() { float(2, false) }
#[no_mangle]
pub extern "C" fn h_cityblock_weighted_sym() { float(2, true) }
#[no_mangle]
pub extern "C" fn h_chebyshev_sym() { float(3, false) }
#[no_mangle]
pub extern "C" fn h_chebyshev_weighted_sym() { float(3, true) }
#[no_mangle]
pub extern "C" fn h_braycurtis_sym() { float(4, false) }
#[no_mangle]
pub extern "C" fn h_braycurtis_weighted_sym() { float(4, true) }
#[no_mangle]
pub extern "C" fn h_hamming_sym() { float(5, false) }
#[no_mangle]
pub extern "C" fn h_hamming_weighted_sym() { float(5, true) }
#[no_mangle]
pub extern "C" fn h_minkowski_sym() { float(6, false) }
#[no_mangle]
pub extern "C" fn h_minkowski_weighted_sym() { float(6, true) }
#[no_mangle]
pub extern "C" fn h_cosine_sym() { float(7, false) }
#[no_mangle]
pub extern "C" fn h_cosine_weighted_sym() { float(7, true) }
#[no_mangle]
pub extern "C" fn h_canberra_sym() { float(8, false) }
#[no_mangle]
pub extern "C" fn h_canberra_weighted_sym() { float(8, true) }
#[no_mangle]
pub extern "C" fn h_correlation_sym() { float(9, false) }
#[no_mangle]
pub extern "C" fn h_correlation_weighted_sym() { float(9, true) }
#[no_mangle]
pub extern "C" fn h_bool_sym() {
    let which = pick(0, 6);
    let (m, n, k) = [(1, 1, 1), (1, 1, 2), (1, 1, 3), (2, 1, 2)][upick(0, 3)];
    let (pa, pb) = (pick(0, 3), pick(0, 1));
    let (mut a, mut b) = (Rows::new(m, k, pa, any_bool), Rows::new(n, k, pb, any_bool));
    // the executor follows every combination of elements on its own path
    for t in [&mut a, &mut b] { for i in 0..t.m { for j in 0..k { let p = crate::gen::pos(&t.l, &[i, j]) as usize; t.d[p] = concretize(t.d[p] as usize) == 1; } } }
    let wv: Vec<f64> = (0..k).map(|i| [1.0, 2.0, 4.0][i]).collect();
    let w = if pick(0, 1) == 1 { Some(&wv) } else { None };
    // weights of the positions where both, one and none of the rows are true
    let c = |u: &[bool], v: &[bool], w: Option<&[f64]>, p: bool, q: bool| sum(u.len(), |i| if u[i] == p && v[i] == q { g(w, i) } else { 0.0 });
    type O<'a> = Option<&'a [f64]>;
    let tt = move |u: &[bool], v: &[bool], w: O| c(u, v, w, true, true);
    let ff = move |u: &[bool], v: &[bool], w: O| c(u, v, w, false, false);
    let df = move |u: &[bool], v: &[bool], w: O| c(u, v, w, true, false) + c(u, v, w, false, true);
    let all = move |w: O| sum(k, |i| g(w, i));
    match which {
        0 => run(&a, &b, || MetricJaccard, w, |u, v, w| df(u, v, w) / (df(u, v, w) + tt(u, v, w))),
        1 => run(&a, &b, || MetricYule, w, |u, v, w| { let r = c(u, v, w, true, false) * c(u, v, w, false, true); if r == 0.0 { 0.0 } else { 2.0 * r / (tt(u, v, w) * ff(u, v, w) + r) } }),
        2 => run(&a, &b, || MetricDice, w, |u, v, w| df(u, v, w) / (2.0 * tt(u, v, w) + df(u, v, w))),
        3 => run(&a, &b, || MetricRogersTanimoto, w, |u, v, w| 2.0 * df(u, v, w) / (all(w) + df(u, v, w))),
        4 => run(&a, &b, || MetricRussellRao, w, |u, v, w| (all(w) - tt(u, v, w)) / all(w)),
        5 => run(&a, &b, || MetricSokalSneath, w, |u, v, w| 2.0 * df(u, v, w) / (2.0 * df(u, v, w) + tt(u, v, w))),
        _ => run(&a, &b, || MetricHamming, w, |u, v, w| df(u, v, w) / all(w)),
    }
}
/// Jensen-Shannon has no weights
#[no_mangle]
pub extern "C" fn h_jensen_sym() {
    let (m, n, k) = (1, 1, upick(1, 2));
    let (pa, pb) = (pick(0, 3), pick(0, 1));
    let pos = || int(1, 3) as f64;
    let (mut a, mut b) = (Rows::new(m, k, pa, pos), Rows::new(n, k, pb, pos));
    // rows add up to four
    for t in [&mut a, &mut b] {
        let x = int(0, 4);
        for i in 0..t.k { let p = crate::gen::pos(&t.l, &[0, i]) as usize; t.d[p] = if t.k == 1 { 4.0 } else if i == 0 { x as f64 } else { (4 - x) as f64 }; }
    }
    let dev = DeviceFaer::default();
    let p = if pick(0, 1) == 1 { dev.get_current_pool() } else { None };
    let r = match cdist_rayon(&a.d, &b.d, &a.two(), &b.two(), MetricJensenShannon::<Vec<f64>>::new(), RowMajor, p) { Ok(r) => r, Err(_) => fail("valid input rejected") };
    reach(1);
    for i in 0..m { for j in 0..n {
        let (u, v) = (a.row(i), b.row(j));
        let (su, sv) = (sum(k, |t| u[t]), sum(k, |t| v[t]));
        let mut d = 0.0;
        for t in 0..k {
            let (p, q) = (u[t] / su, v[t] / sv);
            let h = (p + q) / 2.0;
            if p > 0.0 { d += p * (p / h).ln() }
            if q > 0.0 { d += q * (q / h).ln() }
        }
        same(r[i * n + j], (d / 2.0).sqrt());
    } }
}
/// moduli of complex numbers
#[no_mangle]
pub extern "C" fn h_complex_sym() {
    let (m, n, k) = sizes();
    let c = || Complex::new(small(), small());
    let (a, b) = (Rows::new(m, k, pick(0, 3), c), Rows::new(n, k, 0, c));
    let wv: Vec<f64> = (0..k).map(|i| [1.0, 2.0, 1.0][i]).collect();
    let w = if pick(0, 1) == 1 { Some(&wv) } else { None };
    match pick(0, 1) {
        0 => run(&a, &b, || MetricCityBlock, w, |u, v, w| sum(k, |i| gx(w, i, (u[i] - v[i]).norm()))),
        _ => run(&a, &b, || MetricBrayCurtis, w, |u, v, w| sum(k, |i| gx(w, i, (u[i] - v[i]).norm())) / sum(k, |i| gx(w, i, (u[i] + v[i]).norm()))),
    }
}
macro_rules! api { ($dev:ty, $col:expr) => {{
    let mut dev = <$dev>::default();
    if $col { dev.set_default_order(ColMajor) }
    let (m, n) = [(2, 2), (0, 1), (2, 0), (1, 2)][upick(0, if thorough() { 3 } else { 1 })];
    let ka = upick(0, 2);
    // everything fits, other number of columns, other number of weights
    let what = pick(0, 2);
    let kb = if what == 1 { upick(0, 3) } else { ka };
    let (a, b) = (Rows::new(m, ka, if what == 0 { pick(0, 4) } else { 0 }, small), Rows::new(n, kb, 0, small));
    let nw = if what == 2 { upick(0, 3) } else { ka };
    let weighted = what == 2 || pick(0, 1) == 1;
    let (wl, wn) = pattern(&[nw], if weighted { [0, 2, 3, 5][upick(0, 3)] } else { 0 });
    let wd: Vec<f64> = (0..wn).map(|_| wt()).collect();
    let view = |d: &'static Vec<f64>, l: &Layout<IxD>| match rt::asarray_f((d, l.clone(), &dev)) { Ok(t) => t, Err(_) => fail("valid layout rejected for a view") };
    let (ad, bd, wdd): (&'static Vec<f64>, &'static Vec<f64>, &'static Vec<f64>) = (Box::leak(Box::new(a.d.clone())), Box::leak(Box::new(b.d.clone())), Box::leak(Box::new(wd.clone())));
    let (ta, tb, tw): (TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>) = (view(ad, &a.l), view(bd, &b.l), view(wdd, &wl));
    let ok = ka == kb && (!weighted || nw == ka);
    let r: Result<Tensor<f64, $dev, IxD>> = if weighted { cdist_f::<_, $dev>((ta, tb, MetricCityBlock, tw)) } else { cdist_f::<_, $dev>((ta, tb, MetricCityBlock)) };
    reach(1);
    let r = match r { Ok(r) => r, Err(_) => { check(!ok, "valid input rejected"); return } };
    check(ok, "numbers of columns or weights differ but are accepted");
    check(r.shape().to_vec() == vec![m, n], "shape of the table");
    for i in 0..m { for j in 0..n {
        let e = sum(ka, |t| (if weighted { wd[crate::gen::pos(&wl, &[t]) as usize] } else { 1.0 }) * (a.at(i, t) - b.at(j, t)).abs());
        check(r.raw()[crate::gen::pos(r.layout(), &[i, j]) as usize] == e, "distance differs from its definition");
    } }
}} }
#[no_mangle]
pub extern "C" fn h_api_serial_sym() { api!(S, pick(0, 1) == 1) }
#[no_mangle]
pub extern "C" fn h_api_parallel_sym() { api!(Dev, pick(0, 1) == 1) }
/// tables of other ranks are rejected
#[no_mangle]
pub extern "C" fn h_rank_sym() {
    let sh: &[usize] = [&[2usize][..], &[1, 2], &[1, 1, 2], &[]][upick(0, 3)];
    let (la, na) = pattern(sh, 0);
    let (lb, nb) = pattern(&[2, 2], 0);
    let (lw, nw) = pattern(if pick(0, 1) == 0 { &[2] } else { &[1, 2] }, 0);
    let (a, b, w) = ((0..na).map(|_| small()).collect::<Vec<f64>>(), (0..nb).map(|_| small()).collect::<Vec<f64>>(), vec![1.0; nw]);
    let dev = Dev::default();
    let t = |d, l: &Layout<IxD>| -> TensorView<'_, f64, Dev, IxD> { match rt::asarray_f((d, l.clone(), &dev)) { Ok(t) => t, Err(_) => fail("valid layout rejected for a view") } };
    let sw = pick(0, 1) == 1;
    let (x, y) = (t(&a, &la), t(&b, &lb));
    let (x, y) = if sw { (y, x) } else { (x, y) };
    let ok = sh.len() == 2;
    reach(1);
    match pick(0, 2) {
        0 => check(CDistAPI::<Dev>::cdist_f((x, y)).is_ok() == ok, "rank two is required"),
        1 => check(CDistAPI::<Dev>::cdist_f((x, y, MetricHamming)).is_ok() == ok, "rank two is required"),
        _ => check(CDistAPI::<Dev>::cdist_f((x, y, MetricHamming, t(&w, &lw))).is_ok() == (ok && lw.ndim() == 1), "rank two is required"),
    }
}

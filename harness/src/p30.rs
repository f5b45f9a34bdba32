//! P30: BLAS builders and linear algebra of the BLAS devices: what reaches BLAS/LAPACK and what comes back
use crate::sym::*;
use crate::tgen::*;
use num::complex::Complex;
use rstsr_blas_traits::prelude::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::*;
use rstsr_linalg_traits::prelude::*;
type C64 = Complex<f64>;

fn known(n: usize) -> Vec<i64> { (0..n as i64).map(|x| [3, -2, 7, 5, -11, 13, 1, -4, 17, 6, -9, 19, 2, 23, -8][(x % 15) as usize] + 29 * (x / 15)).collect() }
fn src2(shape: &[usize], pat: i64) -> Src {
    let (lay, len) = pattern(shape, pat);
    Src { data: known(len), lay }
}
/// layouts that include submatrices with an offset and a leading dimension larger than needed
fn sub2(shape: &[usize; 2], pat: i64) -> Src {
    let (m, n) = (shape[0] as isize, shape[1] as isize);
    let (st, off) = match pat { 0 => ([n, 1], 0), 1 => ([1, m], 0), 2 => ([n + 2, 1], 3), 3 => ([1, m + 1], 2), 4 => ([2, 2 * m + 1], 1), 5 => ([-(n + 1), 1], (m - 1).max(0) as usize * (n + 1) as usize + 2), _ => ([0, 1], 1) };
    let len = (off as isize + st[0].max(0) * (m - 1).max(0) + st[1].max(0) * (n - 1).max(0) + 2) as usize;
    Src { data: known(len), lay: unsafe { Layout::new_unchecked(vec![shape[0], shape[1]], vec![st[0], st[1]], off) } }
}
fn f(s: &[i64]) -> Vec<f64> { s.iter().map(|&x| x as f64).collect() }
macro_rules! each_dev {
    ($go:ident, $d:expr) => {
        match $d {
            0 => { rstsr_openblas::threading::get_num_threads(); $go!(rstsr_openblas::DeviceOpenBLAS) }
            1 => $go!(rstsr_blis::DeviceBLIS),
            2 => $go!(rstsr_mkl::DeviceMKL),
            3 => $go!(rstsr_aocl::DeviceAOCL),
            _ => $go!(rstsr_kml::DeviceKML),
        }
    };
}
fn order() -> FlagOrder { if pick(0, 1) == 0 { RowMajor } else { ColMajor } }
fn check_mem(got: &[f64], want: &[i64], msg: &'static str) { for k in 0..want.len() { check(got[k] == want[k] as f64, msg); } }
fn result<B>(t: &TensorMutable<'_, f64, B, Ix2>, i: usize, j: usize) -> f64 where B: DeviceAPI<f64, Raw = Vec<f64>> {
    let v = t.view();
    v.raw()[crate::gen::pos(v.layout(), &[i, j]) as usize]
}

#[no_mangle]
pub extern "C" fn h_gemm() {
    let d = pick(0, 4);
    macro_rules! go { ($dev:ty) => {{
        let mut dev = <$dev>::new(1);
        dev.set_default_order(order());
        let (m, n, k) = [(2, 3, 2), (1, 2, 3), (3, 1, 2), (2, 2, 0)][upick(0, 3)];
        let vary = pick(0, 2);
        let pat = |v: i64| if v == vary && d == 0 { pick(0, 5) } else { pick(0, 1) };
        let (ta, tb) = ([FlagTrans::N, FlagTrans::T, FlagTrans::C][upick(0, 2)], [FlagTrans::N, FlagTrans::T][upick(0, 1)]);
        let (a, mut b) = (sub2(&if ta == FlagTrans::N { [m, k] } else { [k, m] }, pat(0)), sub2(&if tb == FlagTrans::N { [k, n] } else { [n, k] }, pat(1)));
        let mut c = sub2(&[m, n], pat(2));
        if d > 0 { for x in b.data.iter_mut().chain(c.data.iter_mut()) { *x = int(-50, 50); } }
        let (alpha, beta) = (2, [0, 1, -3][upick(0, 2)]);
        let (fa, fb, mut fc) = (f(&a.data), f(&b.data), f(&c.data));
        let (va, vb): (TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
        let ab = |i: usize, j: usize| (0..k).map(|p| if ta == FlagTrans::N { a.at(&[i, p]) } else { a.at(&[p, i]) } * if tb == FlagTrans::N { b.at(&[p, j]) } else { b.at(&[j, p]) }).sum::<i64>();
        let g = GEMM::default().a(va.into_dim::<Ix2>()).b(vb.into_dim::<Ix2>()).transa(ta).transb(tb).alpha(alpha as f64).beta(beta as f64);
        reach(1);
        if pick(0, 1) == 0 {
            let vc: TensorMut<f64, $dev, IxD> = rt::asarray((&mut fc, c.lay.clone(), &dev));
            let ok = g.c(vc.into_dim::<Ix2>()).build().unwrap().run().is_ok();
            check(ok, "valid matrices rejected");
            let mut want = c.data.clone();
            for i in 0..m { for j in 0..n { want[c.p(&[i, j])] = alpha * ab(i, j) + beta * c.at(&[i, j]); } }
            check_mem(&fc, &want, "product leaves a wrong value in the output's storage");
        } else {
            let r = match g.build().unwrap().run() { Ok(r) => r, Err(_) => fail("valid matrices rejected") };
            check(r.view().shape() == &[m, n], "product has a wrong shape");
            for i in 0..m { for j in 0..n { check(result(&r, i, j) == (alpha * ab(i, j)) as f64, "product has a wrong element"); } }
        }
    }} }
    each_dev!(go, d)
}
/// symmetric matrix given by one triangle, on either side; the other triangle is not read
#[no_mangle]
pub extern "C" fn h_symm() {
    let d = pick(0, 4);
    macro_rules! go { ($dev:ty) => {{
        let mut dev = <$dev>::new(1);
        dev.set_default_order(order());
        let (m, n) = [(2, 3), (3, 2), (2, 2), (1, 2), (2, 1)][upick(0, 4)];
        let (left, up) = (pick(0, 1) == 0, pick(0, 1) == 0);
        let vary = pick(0, 2);
        let pat = |v: i64| if v == vary && d == 0 { pick(0, 5) } else { pick(0, 1) };
        let q = if left { m } else { n };
        let (a, mut b, mut c) = (sub2(&[q, q], pat(0)), sub2(&[m, n], pat(1)), sub2(&[m, n], pat(2)));
        if d > 0 { for x in b.data.iter_mut().chain(c.data.iter_mut()) { *x = int(-50, 50); } }
        let e = |i: usize, j: usize| if (i <= j) == up || i == j { a.at(&[i, j]) } else { a.at(&[j, i]) };
        let ab = |i: usize, j: usize| (0..q).map(|p| if left { e(i, p) * b.at(&[p, j]) } else { b.at(&[i, p]) * e(p, j) }).sum::<i64>();
        let beta = [0, -3][upick(0, 1)];
        let (fa, fb, mut fc) = (f(&a.data), f(&b.data), f(&c.data));
        let (va, vb): (TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
        let g = SYHEMM::<_, _, false>::default().a(va.into_dim::<Ix2>()).b(vb.into_dim::<Ix2>()).side(if left { FlagSide::L } else { FlagSide::R }).uplo(if up { FlagUpLo::U } else { FlagUpLo::L }).alpha(2.0).beta(beta as f64);
        reach(1);
        if pick(0, 1) == 0 {
            let vc: TensorMut<f64, $dev, IxD> = rt::asarray((&mut fc, c.lay.clone(), &dev));
            let ok = g.c(vc.into_dim::<Ix2>()).build().unwrap().run().is_ok();
            check(ok, "valid matrices rejected");
            let mut want = c.data.clone();
            for i in 0..m { for j in 0..n { want[c.p(&[i, j])] = 2 * ab(i, j) + beta * c.at(&[i, j]); } }
            check_mem(&fc, &want, "product leaves a wrong value in the output's storage");
        } else {
            let r = match g.build().unwrap().run() { Ok(r) => r, Err(_) => fail("valid matrices rejected") };
            check(r.view().shape() == &[m, n], "product has a wrong shape");
            for i in 0..m { for j in 0..n { check(result(&r, i, j) == (2 * ab(i, j)) as f64, "product has a wrong element"); } }
        }
    }} }
    each_dev!(go, d)
}
/// Hermitian and complex symmetric matrices
#[no_mangle]
pub extern "C" fn h_hemm() {
    let d = pick(0, 4);
    macro_rules! go { ($dev:ty) => {{
        let mut dev = <$dev>::new(1);
        dev.set_default_order(order());
        let (m, n) = [(2, 3), (2, 1)][upick(0, 1)];
        let (left, up, herm) = (pick(0, 1) == 0, pick(0, 1) == 0, pick(0, 1) == 0);
        let q = if left { m } else { n };
        let (a, b) = (sub2(&[q, q], pick(0, 4)), sub2(&[m, n], pick(0, 2)));
        let z = |x: i64| C64::new(x as f64, (5 - 2 * x) as f64);
        let e = |i: usize, j: usize| {
            if i == j { let d = z(a.at(&[i, i])); return if herm { C64::new(d.re, 0.) } else { d } }
            if (i < j) == up { z(a.at(&[i, j])) } else { let v = z(a.at(&[j, i])); if herm { C64::new(v.re, -v.im) } else { v } }
        };
        let (fa, fb): (Vec<C64>, Vec<C64>) = (a.data.iter().map(|&x| z(x)).collect(), b.data.iter().map(|&x| z(x)).collect());
        let (va, vb): (TensorView<C64, $dev, IxD>, TensorView<C64, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
        macro_rules! run { ($h:expr) => { SYHEMM::<_, _, $h>::default().a(va.into_dim::<Ix2>()).b(vb.into_dim::<Ix2>()).side(if left { FlagSide::L } else { FlagSide::R }).uplo(if up { FlagUpLo::U } else { FlagUpLo::L }).build().unwrap().run() } }
        let r = match if herm { run!(true) } else { run!(false) } { Ok(r) => r, Err(_) => fail("valid matrices rejected") };
        reach(1);
        let r = r.view();
        check(r.shape() == &[m, n], "product has a wrong shape");
        for i in 0..m { for j in 0..n {
            let mut w = C64::new(0., 0.);
            for p in 0..q { w = w + if left { e(i, p) * z(b.at(&[p, j])) } else { z(b.at(&[i, p])) * e(p, j) }; }
            check(r.raw()[crate::gen::pos(r.layout(), &[i, j]) as usize] == w, "product has a wrong element");
        } }
    }} }
    each_dev!(go, d)
}
/// triangular matrix with a diagonal of 1 and -1; the other triangle holds other numbers
/// values: on the first device every layout with fixed numbers, on the others symbolic numbers with fewer layouts
fn tri_src(n: usize, pat: i64, unit: bool) -> Src {
    let mut a = sub2(&[n, n], pat);
    for i in 0..n { let p = a.p(&[i, i]); a.data[p] = if unit { 7 } else if i % 2 == 0 { -1 } else { 1 }; }
    a
}
#[no_mangle]
pub extern "C" fn h_trsm() {
    let d = pick(0, 4);
    macro_rules! go { ($dev:ty) => {{
        let mut dev = <$dev>::new(1);
        dev.set_default_order(order());
        let (m, n) = [(2, 3), (3, 2), (1, 2), (2, 1), (2, 2)][upick(0, if d == 0 { 4 } else { 0 })];
        let (left, unit) = (pick(0, 1) == 0, pick(0, 1) == 0);
        let ul = pick(0, 2);
        let up = match ul { 0 => true, 1 => false, _ => dev.default_order() == ColMajor };
        let q = if left { m } else { n };
        let vary = if d == 0 { pick(0, 1) } else { 2 };
        let a = tri_src(q, if vary == 0 { pick(0, 5) } else { pick(0, 1) }, unit);
        let mut b = sub2(&[m, n], if vary == 1 { pick(2, 5) } else { pick(0, 1) });
        if d > 0 { for x in b.data.iter_mut() { *x = int(-50, 50); } }
        let tr = [FlagTrans::N, FlagTrans::T, FlagTrans::C][upick(0, if m == 3 || d > 0 { 2 } else { 1 })];
        let e = |i: usize, j: usize| {
            let (i, j) = if tr == FlagTrans::N { (i, j) } else { (j, i) };
            if i == j { if unit { 1 } else { a.at(&[i, j]) } } else if (i < j) == up { a.at(&[i, j]) } else { 0 }
        };
        let (fa, mut fb) = (f(&a.data), f(&b.data));
        let va: TensorView<f64, $dev, IxD> = rt::asarray((&fa, a.lay.clone(), &dev));
        let mut g = TRSM::default().a(va.into_dim::<Ix2>()).side(if left { FlagSide::L } else { FlagSide::R }).transa(tr).diag(if unit { FlagDiag::U } else { FlagDiag::N }).alpha(2.0);
        if ul < 2 { g = g.uplo(if up { FlagUpLo::U } else { FlagUpLo::L }); }
        let mut x = vec![0.0; m * n];
        reach(1);
        if pick(0, 1) == 0 {
            let vb: TensorMut<f64, $dev, IxD> = rt::asarray((&mut fb, b.lay.clone(), &dev));
            let ok = g.b(vb.into_dim::<Ix2>()).build().unwrap().run().is_ok();
            check(ok, "valid matrices rejected");
            let mut other = vec![true; fb.len()];
            for i in 0..m { for j in 0..n { x[i * n + j] = fb[b.p(&[i, j])]; other[b.p(&[i, j])] = false; } }
            for k in 0..fb.len() { if other[k] { check(fb[k] == b.data[k] as f64, "triangular solve wrote outside its right-hand side"); } }
        } else {
            let vb: TensorView<f64, $dev, IxD> = rt::asarray((&fb, b.lay.clone(), &dev));
            let r = match g.b(vb.into_dim::<Ix2>()).build().unwrap().run() { Ok(r) => r, Err(_) => fail("valid matrices rejected") };
            check(r.view().shape() == &[m, n], "solution has a wrong shape");
            for i in 0..m { for j in 0..n { x[i * n + j] = result(&r, i, j); } }
        }
        for i in 0..m { for j in 0..n {
            let w: f64 = (0..q).map(|p| if left { e(i, p) as f64 * x[p * n + j] } else { x[i * n + p] * e(p, j) as f64 }).sum();
            check(w == 2.0 * b.at(&[i, j]) as f64, "solution does not solve the triangular system");
        } }
    }} }
    each_dev!(go, d)
}
/// the public triangular solve with views of larger matrices, vectors and matrices on the right
#[no_mangle]
pub extern "C" fn h_solve_triangular() {
    let d = pick(0, 4);
    macro_rules! go { ($dev:ty) => {{
        let mut dev = <$dev>::new(1);
        dev.set_default_order(order());
        let n = upick(1, 3);
        let vec = pick(0, 1) == 0;
        let up = pick(0, 1) == 0;
        let a = tri_src(n, pick(0, 5), false);
        let mut b = if vec { src2(&[n], pick(0, 4)) } else { sub2(&[n, 2], pick(0, 5)) };
        for x in b.data.iter_mut() { *x = int(-50, 50); }
        let (fa, fb) = (f(&a.data), f(&b.data));
        let (va, vb): (TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
        let x: Tensor<f64, $dev, IxD> = match rstsr_linalg_traits::prelude::rstsr_funcs::solve_triangular_f((&va, &vb, if up { FlagUpLo::U } else { FlagUpLo::L })) { Ok(x) => x, Err(_) => fail("valid matrices rejected") };
        reach(1);
        check(x.shape().as_slice() == b.lay.shape().as_slice(), "solution has a wrong shape");
        for i in 0..n { for j in 0..if vec { 1 } else { 2 } {
            let ix = |p: usize| if vec { vec![p] } else { vec![p, j] };
            let w: f64 = (0..n).map(|p| if p == i || (i < p) == up { a.at(&[i, p]) as f64 * x.raw()[crate::gen::pos(x.layout(), &ix(p)) as usize] } else { 0.0 }).sum();
            check(w == b.at(&ix(i)) as f64, "solution does not solve the triangular system");
        } }
    }} }
    each_dev!(go, d)
}
/// operands with symbolic strides (any sign, zero) and offset
#[no_mangle]
pub extern "C" fn h_gemm_sym() {
    let d = pick(0, 4);
    macro_rules! go { ($dev:ty) => {{
        let mut dev = <$dev>::new(1);
        dev.set_default_order(order());
        let which = pick(0, 2);
        let (m, n, k) = [(2, 2, 2), (1, 2, 2), (2, 1, 1)][upick(0, 2)];
        let g = |w: i64, sh: [usize; 2]| if w == which { src_sym(&sh, 4, false) } else { sub2(&sh, 3) };
        let (a, b, c) = (g(0, [m, k]), g(1, [k, n]), g(2, [m, n]));
        for q in 0..2 { assume(c.lay.shape()[q] == 1 || c.lay.stride()[q] != 0); }
        let (fa, fb, mut fc) = (f(&a.data), f(&b.data), f(&c.data));
        let (va, vb): (TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
        {
            let vc: TensorMut<f64, $dev, IxD> = rt::asarray((&mut fc, c.lay.clone(), &dev));
            check(GEMM::default().a(va.into_dim::<Ix2>()).b(vb.into_dim::<Ix2>()).c(vc.into_dim::<Ix2>()).alpha(2.0).beta(3.0).build().unwrap().run().is_ok(), "valid matrices rejected");
        }
        reach(1);
        let mut want = c.data.clone();
        for i in 0..m { for j in 0..n { want[c.p(&[i, j])] = 2 * (0..k).map(|p| a.at(&[i, p]) * b.at(&[p, j])).sum::<i64>() + 3 * c.at(&[i, j]); } }
        check_mem(&fc, &want, "product leaves a wrong value in the output's storage");
    }} }
    each_dev!(go, d)
}
#[no_mangle]
pub extern "C" fn h_trsm_sym() {
    let d = pick(0, 4);
    macro_rules! go { ($dev:ty) => {{
        let mut dev = <$dev>::new(1);
        dev.set_default_order(order());
        let (left, up, of_a) = (pick(0, 1) == 0, pick(0, 1) == 0, pick(0, 1) == 0);
        let (m, n) = (2, 2);
        let a = if of_a { src_sym(&[2, 2], 4, false) } else { sub2(&[2, 2], 4) };
        let b = if of_a { sub2(&[m, n], 4) } else { src_sym(&[m, n], 4, false) };
        for q in 0..2 { assume(b.lay.stride()[q] != 0); }
        let e = |i: usize, j: usize| if i == j { 1 } else if (i < j) == up { a.at(&[i, j]) } else { 0 };
        let (fa, mut fb) = (f(&a.data), f(&b.data));
        {
            let va: TensorView<f64, $dev, IxD> = rt::asarray((&fa, a.lay.clone(), &dev));
            let vb: TensorMut<f64, $dev, IxD> = rt::asarray((&mut fb, b.lay.clone(), &dev));
            let g = TRSM::default().a(va.into_dim::<Ix2>()).b(vb.into_dim::<Ix2>()).side(if left { FlagSide::L } else { FlagSide::R }).uplo(if up { FlagUpLo::U } else { FlagUpLo::L }).diag(FlagDiag::U);
            check(g.build().unwrap().run().is_ok(), "valid matrices rejected");
        }
        reach(1);
        // the solution by substitution
        let mut want = b.data.clone();
        let x = |i: usize, j: usize| b.at(&[i, j]);
        for j in 0..2 {
            // (first, second): the unknown that stands alone, the one that needs it
            let (s, t) = if left == up { (1, 0) } else { (0, 1) };
            if left { want[b.p(&[t, j])] = x(t, j) - e(t, s) * x(s, j); } else { want[b.p(&[j, t])] = x(j, t) - x(j, s) * e(s, t); }
        }
        check_mem(&fb, &want, "triangular solve leaves a wrong value in the storage of its right-hand side");
    }} }
    each_dev!(go, d)
}

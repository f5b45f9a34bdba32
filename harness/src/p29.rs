//! P29: matrix products on the BLAS devices: the BLAS calls of the device crates are executed against stand-ins written after the BLAS reference
//! (argument rules included), so the drivers' flags, leading dimensions, pointers and copies are what is decided here.
use crate::sym::*;
use crate::tgen::*;
use num::complex::Complex;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::*;

type C64 = Complex<f64>;
/// distinct small numbers
fn known(n: usize) -> Vec<i64> { (0..n as i64).map(|x| [3, -2, 7, 5, -11, 13, 1, -4, 17, 6, -9, 19, 2, 23, -8][(x % 15) as usize] + 29 * (x / 15)).collect() }
fn src2(shape: &[usize], pat: i64, sym: bool) -> Src {
    let (lay, len) = pattern(shape, pat);
    Src { data: if sym { (0..len).map(|_| int(-100, 100)).collect() } else { known(len) }, lay }
}
fn mm(a: &Src, b: &Src, i: usize, j: usize) -> i64 { (0..a.lay.shape()[1]).map(|p| a.at(&[i, p]) * b.at(&[p, j])).sum() }
fn f(s: &[i64]) -> Vec<f64> { s.iter().map(|&x| x as f64).collect() }
/// a device with a fixed number of threads, row-major
macro_rules! each_dev {
    ($go:ident) => {
        match pick(0, 4) {
            // (its mutex-guarded record of the library's threading model is filled here: footprints do not know mutexes)
            0 => { rstsr_openblas::threading::get_num_threads(); $go!(rstsr_openblas::DeviceOpenBLAS) }
            1 => $go!(rstsr_blis::DeviceBLIS),
            2 => $go!(rstsr_mkl::DeviceMKL),
            3 => $go!(rstsr_aocl::DeviceAOCL),
            _ => $go!(rstsr_kml::DeviceKML),
        }
    };
}
fn shapes2() -> (usize, usize, usize) { [(2, 3, 2), (1, 2, 3), (3, 2, 1), (2, 1, 2), (1, 1, 1), (2, 2, 0), (0, 2, 2), (2, 0, 2)][upick(0, 7)] }
fn check_mem(got: &[f64], want: &[i64]) { for k in 0..want.len() { check(got[k] == want[k] as f64, "product leaves a wrong value in the output's storage"); } }

/// c <- alpha a b + beta c for every combination of operand layouts (row-major, column-major, reversed, strided, broadcast)
#[no_mangle]
pub extern "C" fn h_gemm() {
    macro_rules! go {
        ($dev:ty) => {{
            let mut dev = <$dev>::new(1);
            dev.set_default_order(RowMajor);
            let (m, n, k) = shapes2();
            let vary = pick(0, 2);
            let pat = |v: i64| if v == vary { pick(0, 6) } else { pick(0, 1) };
            let s = pick(0, 1);
            let (a, b) = (src2(&[m, k], pat(0), s == 0), src2(&[k, n], pat(1), s == 1));
            let c = { let p = pat(2); src2(&[m, n], if p >= 5 { p - 5 + 3 } else { p }, false) };
            let (alpha, beta) = ([1, 2][upick(0, 1)], [0, 1, -3][upick(0, 2)]);
            let (fa, fb, mut fc) = (f(&a.data), f(&b.data), f(&c.data));
            let (va, vb): (TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
            let r = {
                let mut vc: TensorMut<f64, $dev, IxD> = rt::asarray((&mut fc, c.lay.clone(), &dev));
                vc.matmul_from_f(&va, &vb, alpha as f64, beta as f64)
            };
            check(r.is_ok(), "matching operands rejected");
            reach(1);
            let mut want = c.data.clone();
            for i in 0..m { for j in 0..n { want[c.p(&[i, j])] = alpha * mm(&a, &b, i, j) + beta * c.at(&[i, j]); } }
            check_mem(&fc, &want);
        }};
    }
    each_dev!(go)
}
/// a @ b with a new output, also where both are views of the same matrix (symmetric rank-k update), on a column-major device too
#[no_mangle]
pub extern "C" fn h_product() {
    macro_rules! go {
        ($dev:ty) => {{
            let mut dev = <$dev>::new(upick(1, 2));
            dev.set_default_order(if pick(0, 1) == 0 { RowMajor } else { ColMajor });
            let (m, k) = [(2, 2), (3, 2), (2, 3), (1, 2), (2, 1), (3, 3), (2, 0)][upick(0, 6)];
            let a = src2(&[m, k], pick(0, 6), false);
            let fa = f(&a.data);
            let va: TensorView<f64, $dev, IxD> = rt::asarray((&fa, a.lay.clone(), &dev));
            let kind = pick(0, 3);
            let at = va.view().into_reverse_axes();
            // a aT, aT a, a against a shifted view, a against a copy
            let (x, y, o) = match kind {
                0 => (va.view(), at.view(), 0),
                1 => (at.view(), va.view(), 1),
                2 => (va.view().into_slice((0..m.min(2), ..)), at.view().into_slice((.., m - m.min(2)..m)), 2),
                _ => (at.view(), va.view().into_flip(1), 3),
            };
            let c = match rt::matmul_f(&x, &y) { Ok(c) => c, Err(_) => fail("matching operands rejected") };
            reach(1);
            let mm2 = m.min(2);
            let (r, q) = match o { 0 => (m, m), 2 => (mm2, mm2), _ => (k, k) };
            check(c.shape().as_slice() == &[r, q][..], "product has a wrong shape");
            let raw = c.raw();
            for i in 0..r { for j in 0..q {
                let w: i64 = match o {
                    0 => (0..k).map(|p| a.at(&[i, p]) * a.at(&[j, p])).sum(),
                    1 => (0..m).map(|p| a.at(&[p, i]) * a.at(&[p, j])).sum(),
                    2 => (0..k).map(|p| a.at(&[i, p]) * a.at(&[j + m - mm2, p])).sum(),
                    _ => (0..m).map(|p| a.at(&[p, i]) * a.at(&[p, k - 1 - j])).sum(),
                };
                check(raw[crate::gen::pos(c.layout(), &[i, j]) as usize] == w as f64, "product has a wrong element");
            } }
        }};
    }
    each_dev!(go)
}
/// symmetric rank-k update into an output of any layout: nothing but the output is written
#[no_mangle]
pub extern "C" fn h_syrk() {
    macro_rules! go {
        ($dev:ty) => {{
            let mut dev = <$dev>::new(upick(1, 2));
            dev.set_default_order(RowMajor);
            let (m, k) = [(2, 2), (3, 2), (1, 2), (2, 1), (2, 0)][upick(0, 4)];
            let (a, c) = (src2(&[m, k], pick(0, 4), false), src2(&[m, m], pick(0, 4), false));
            let (fa, mut fc) = (f(&a.data), f(&c.data));
            let va: TensorView<f64, $dev, IxD> = rt::asarray((&fa, a.lay.clone(), &dev));
            let (alpha, beta) = ([1, -2][upick(0, 1)], [0, 2][upick(0, 1)]);
            let r = {
                let mut vc: TensorMut<f64, $dev, IxD> = rt::asarray((&mut fc, c.lay.clone(), &dev));
                vc.matmul_from_f(&va, &va.view().into_reverse_axes(), alpha as f64, beta as f64)
            };
            check(r.is_ok(), "matching operands rejected");
            reach(1);
            let mut want = c.data.clone();
            for i in 0..m { for j in 0..m { want[c.p(&[i, j])] = beta * c.at(&[i, j]) + alpha * (0..k).map(|p| a.at(&[i, p]) * a.at(&[j, p])).sum::<i64>(); } }
            check_mem(&fc, &want);
        }};
    }
    each_dev!(go)
}
/// every stride and offset of one operand or the output
#[no_mangle]
pub extern "C" fn h_gemm_sym() {
    macro_rules! go {
        ($dev:ty) => {{
            let mut dev = <$dev>::new(1);
            dev.set_default_order(RowMajor);
            let which = pick(0, 2);
            let (m, n, k) = [(2, 2, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1)][upick(0, 3)];
            let g = |w: i64, sh: [usize; 2]| if w == which { src_sym(&sh, 4, false) } else { src2(&sh, if w == 2 { 4 } else { 1 }, false) };
            let (a, b, c) = (g(0, [m, k]), g(1, [k, n]), g(2, [m, n]));
            for q in 0..2 { assume(c.lay.shape()[q] == 1 || c.lay.stride()[q] != 0); }
            let (fa, fb, mut fc) = (f(&a.data), f(&b.data), f(&c.data));
            let (va, vb): (TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
            let beta = [0, 3][upick(0, 1)];
            let r = {
                let mut vc: TensorMut<f64, $dev, IxD> = rt::asarray((&mut fc, c.lay.clone(), &dev));
                vc.matmul_from_f(&va, &vb, 2.0, beta as f64)
            };
            check(r.is_ok(), "matching operands rejected");
            reach(1);
            let mut want = c.data.clone();
            for i in 0..m { for j in 0..n { want[c.p(&[i, j])] = 2 * mm(&a, &b, i, j) + beta * c.at(&[i, j]); } }
            check_mem(&fc, &want);
        }};
    }
    each_dev!(go)
}
/// batches and vectors on both sides, few and many batches per thread
#[no_mangle]
pub extern "C" fn h_batch() {
    macro_rules! go {
        ($dev:ty) => {{
            let mut dev = <$dev>::new(upick(1, 2));
            dev.set_default_order(RowMajor);
            let l: &[(&[usize], &[usize], &[usize])] = &[
                (&[3], &[3], &[]), (&[2], &[2, 3], &[3]), (&[3, 2], &[2], &[3]), (&[2], &[2, 2, 3], &[2, 3]), (&[2, 3, 2], &[2], &[2, 3]), (&[2, 2, 1], &[1, 2], &[2, 2, 2]), (&[2, 1], &[2, 1, 2], &[2, 2, 2]),
                (&[1, 2, 1], &[2, 1, 2], &[2, 2, 2]), (&[4, 1, 2], &[4, 2, 1], &[4, 1, 1]), (&[2, 1, 2, 1], &[4, 1, 2], &[2, 4, 2, 2]),
            ];
            let (sa, sb, sc) = l[upick(0, l.len() - 1)];
            let vary = pick(0, 1);
            let (a, b) = (src2(sa, if vary == 0 { pick(0, 6) } else { 0 }, true), src2(sb, if vary == 1 { pick(0, 6) } else { 0 }, false));
            let (fa, fb) = (f(&a.data), f(&b.data));
            let (va, vb): (TensorView<f64, $dev, IxD>, TensorView<f64, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
            let c = match rt::matmul_f(&va, &vb) { Ok(c) => c, Err(_) => fail("matching operands rejected") };
            reach(1);
            check(c.shape().as_slice() == sc, "product has a wrong shape");
            let raw = c.raw();
            for i in indices(sc) {
                let (na, nb) = (sa.len(), sb.len());
                let mut t = i.len();
                let n = if nb > 1 { t -= 1; Some(i[t]) } else { None };
                let m = if na > 1 { t -= 1; Some(i[t]) } else { None };
                let rest = |s: &[usize], r: usize| -> Vec<usize> { (0..r).map(|q| if s[q] == 1 { 0 } else { i[t - r + q] }).collect() };
                let mut w = 0;
                for p in 0..sa[na - 1] {
                    let mut x = if na > 1 { rest(sa, na - 2) } else { vec![] };
                    let mut y = if nb > 1 { rest(sb, nb - 2) } else { vec![] };
                    if let Some(m) = m { x.push(m) }
                    x.push(p);
                    y.push(p);
                    if let Some(n) = n { y.push(n) }
                    w += a.at(&x) * b.at(&y);
                }
                check(raw[crate::gen::pos(c.layout(), &i) as usize] == w as f64, "product has a wrong element");
            }
        }};
    }
    each_dev!(go)
}
/// the other element types go to their own routine
#[no_mangle]
pub extern "C" fn h_types() {
    macro_rules! go {
        ($dev:ty) => {{
            let mut dev = <$dev>::new(1);
            dev.set_default_order(RowMajor);
            let same = pick(0, 1) == 1;
            let (m, k, n) = if same { (2, 3, 2) } else { (2, 2, 3) };
            let (a, b) = (src2(&[m, k], pick(0, 4), false), src2(&[k, n], pick(0, 4), false));
            macro_rules! ty {
                ($t:ty, $mk:expr) => {{
                    let mk = $mk;
                    let (fa, fb): (Vec<$t>, Vec<$t>) = (a.data.iter().map(|&x| mk(x)).collect(), b.data.iter().map(|&x| mk(x)).collect());
                    let (va, vb): (TensorView<$t, $dev, IxD>, TensorView<$t, $dev, IxD>) = (rt::asarray((&fa, a.lay.clone(), &dev)), rt::asarray((&fb, b.lay.clone(), &dev)));
                    let r = if same { rt::matmul_f(&va, &va.view().into_reverse_axes()) } else { rt::matmul_f(&va, &vb) };
                    let c = match r { Ok(c) => c, Err(_) => fail("matching operands rejected") };
                    reach(1);
                    for i in 0..m { for j in 0..n {
                        let mut w = mk(0) * mk(0);
                        w = w.clone() - w;
                        for p in 0..k { w = w + mk(a.at(&[i, p])) * if same { mk(a.at(&[j, p])) } else { mk(b.at(&[p, j])) }; }
                        check(c.raw()[crate::gen::pos(c.layout(), &[i, j]) as usize] == w, "product has a wrong element");
                    } }
                }};
            }
            match pick(0, 3) {
                0 => ty!(f32, |x: i64| x as f32),
                1 => ty!(C64, |x: i64| C64::new(x as f64, (2 - x) as f64)),
                2 => ty!(Complex<f32>, |x: i64| Complex::<f32>::new(x as f32, (2 - x) as f32)),
                _ => ty!(i64, |x: i64| x),
            }
        }};
    }
    each_dev!(go)
}

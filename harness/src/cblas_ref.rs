//! Stand-ins for the BLAS routines the device crates call, written after the reference BLAS: argument rules are asserted, only the
//! specified elements are read and written.
#![allow(clippy::too_many_arguments)]
use crate::sym::*;
use num::complex::Complex;
type I = i32;

/// position in a matrix that is stored column by column or row by row, transposed or not
fn at(col: bool, trans: bool, ld: I, i: usize, j: usize) -> usize {
    let (i, j) = if trans { (j, i) } else { (i, j) };
    if col { i + j * ld as usize } else { i * ld as usize + j }
}
fn flags(order: I, t: I) -> (bool, bool) {
    check(order == 101 || order == 102, "bad BLAS order");
    check(t >= 111 && t <= 113, "bad BLAS transposition");
    (order == 102, t != 111)
}
fn ld_ok(col: bool, trans: bool, r: I, c: I, ld: I) {
    let (r, c) = if trans { (c, r) } else { (r, c) };
    check(ld >= (if col { r } else { c }).max(1), "leading dimension too small for BLAS");
}
pub trait El: Copy + core::ops::Mul<Output = Self> + core::ops::Add<Output = Self> + PartialEq { fn zero() -> Self; fn conj(self) -> Self; fn re(self) -> Self; }
impl El for f32 { fn zero() -> Self { 0. } fn conj(self) -> Self { self } fn re(self) -> Self { self } }
impl El for f64 { fn zero() -> Self { 0. } fn conj(self) -> Self { self } fn re(self) -> Self { self } }
impl El for Complex<f32> { fn zero() -> Self { Complex::new(0., 0.) } fn conj(self) -> Self { Complex::new(self.re, -self.im) } fn re(self) -> Self { Complex::new(self.re, 0.) } }
impl El for Complex<f64> { fn zero() -> Self { Complex::new(0., 0.) } fn conj(self) -> Self { Complex::new(self.re, -self.im) } fn re(self) -> Self { Complex::new(self.re, 0.) } }

unsafe fn gemm<T: El>(order: I, ta: I, tb: I, m: I, n: I, k: I, alpha: T, a: *const T, lda: I, b: *const T, ldb: I, beta: T, c: *mut T, ldc: I) {
    let ((col, xa), (_, xb)) = (flags(order, ta), flags(order, tb));
    check(m >= 0 && n >= 0 && k >= 0, "negative extent given to BLAS");
    ld_ok(col, xa, m, k, lda);
    ld_ok(col, xb, k, n, ldb);
    ld_ok(col, false, m, n, ldc);
    for i in 0..m as usize { for j in 0..n as usize {
        let mut s = T::zero();
        for p in 0..k as usize {
            let (mut x, mut y) = (*a.add(at(col, xa, lda, i, p)), *b.add(at(col, xb, ldb, p, j)));
            if ta == 113 { x = x.conj() }
            if tb == 113 { y = y.conj() }
            s = s + x * y;
        }
        let q = c.add(at(col, false, ldc, i, j));
        *q = if beta == T::zero() { alpha * s } else { alpha * s + beta * *q };
    } }
}
unsafe fn syrk<T: El>(order: I, uplo: I, t: I, n: I, k: I, alpha: T, a: *const T, lda: I, beta: T, c: *mut T, ldc: I) {
    let (col, x) = flags(order, t);
    check(uplo == 121 || uplo == 122, "bad BLAS triangle");
    check(n >= 0 && k >= 0, "negative extent given to BLAS");
    ld_ok(col, x, n, k, lda);
    ld_ok(col, false, n, n, ldc);
    for i in 0..n as usize { for j in 0..n as usize {
        if (uplo == 121 && i > j) || (uplo == 122 && i < j) { continue }
        let mut s = T::zero();
        for p in 0..k as usize { s = s + *a.add(at(col, x, lda, i, p)) * *a.add(at(col, x, lda, j, p)); }
        let q = c.add(at(col, false, ldc, i, j));
        *q = if beta == T::zero() { alpha * s } else { alpha * s + beta * *q };
    } }
}
macro_rules! real {
    ($t:ty, $g:ident, $s:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $g(o: I, ta: I, tb: I, m: I, n: I, k: I, al: $t, a: *const $t, lda: I, b: *const $t, ldb: I, be: $t, c: *mut $t, ldc: I) { gemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc) }
        #[no_mangle]
        pub unsafe extern "C" fn $s(o: I, u: I, t: I, n: I, k: I, al: $t, a: *const $t, lda: I, be: $t, c: *mut $t, ldc: I) { syrk(o, u, t, n, k, al, a, lda, be, c, ldc) }
    };
}
macro_rules! cplx {
    ($t:ty, $g:ident, $s:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $g(o: I, ta: I, tb: I, m: I, n: I, k: I, al: *const $t, a: *const $t, lda: I, b: *const $t, ldb: I, be: *const $t, c: *mut $t, ldc: I) { gemm(o, ta, tb, m, n, k, *al, a, lda, b, ldb, *be, c, ldc) }
        #[no_mangle]
        pub unsafe extern "C" fn $s(o: I, u: I, t: I, n: I, k: I, al: *const $t, a: *const $t, lda: I, be: *const $t, c: *mut $t, ldc: I) { syrk(o, u, t, n, k, *al, a, lda, *be, c, ldc) }
    };
}
real!(f32, cblas_sgemm, cblas_ssyrk);
real!(f64, cblas_dgemm, cblas_dsyrk);
cplx!(Complex<f32>, cblas_cgemm, cblas_csyrk);
cplx!(Complex<f64>, cblas_zgemm, cblas_zsyrk);

// thread numbers of the libraries
#[no_mangle] pub extern "C" fn openblas_get_parallel() -> I { 0 }
#[no_mangle] pub extern "C" fn openblas_set_num_threads(_n: I) {}
#[no_mangle] pub extern "C" fn openblas_get_num_threads() -> I { 1 }
#[no_mangle] pub extern "C" fn bli_thread_set_num_threads(_n: i64) {}
#[no_mangle] pub extern "C" fn bli_thread_get_num_threads() -> i64 { 1 }
#[no_mangle] pub extern "C" fn MKL_Set_Num_Threads_Local(_n: I) -> I { 1 }
#[no_mangle] pub extern "C" fn MKL_Get_Max_Threads() -> I { 1 }
#[no_mangle] pub extern "C" fn BlasSetNumThreads(_n: I) {}
#[no_mangle] pub extern "C" fn BlasGetNumThreads() -> I { 1 }
#[no_mangle] pub extern "C" fn BlasSetNumThreadsLocal(_n: I) {}
#[no_mangle] pub extern "C" fn BlasGetNumThreadsLocal() -> I { 1 }
#[no_mangle] pub extern "C" fn KmlSetNumThreads(_n: I) {}

unsafe fn symm<T: El>(order: I, side: I, uplo: I, m: I, n: I, herm: bool, alpha: T, a: *const T, lda: I, b: *const T, ldb: I, beta: T, c: *mut T, ldc: I) {
    check(order == 101 || order == 102, "bad BLAS order");
    check((side == 141 || side == 142) && (uplo == 121 || uplo == 122), "bad BLAS flag");
    check(m >= 0 && n >= 0, "negative extent given to BLAS");
    let col = order == 102;
    let k = if side == 141 { m } else { n };
    ld_ok(col, false, k, k, lda);
    ld_ok(col, false, m, n, ldb);
    ld_ok(col, false, m, n, ldc);
    let e = |i: usize, j: usize| -> T {
        let sw = if uplo == 121 { i > j } else { i < j };
        let (p, q) = if sw { (j, i) } else { (i, j) };
        let v = *a.add(at(col, false, lda, p, q));
        if herm { if i == j { v.re() } else if sw { v.conj() } else { v } } else { v }
    };
    for i in 0..m as usize { for j in 0..n as usize {
        let mut s = T::zero();
        for p in 0..k as usize {
            s = s + if side == 141 { e(i, p) * *b.add(at(col, false, ldb, p, j)) } else { *b.add(at(col, false, ldb, i, p)) * e(p, j) };
        }
        let q = c.add(at(col, false, ldc, i, j));
        *q = if beta == T::zero() { alpha * s } else { alpha * s + beta * *q };
    } }
}
#[no_mangle]
pub unsafe extern "C" fn cblas_dsymm(o: I, s: I, u: I, m: I, n: I, al: f64, a: *const f64, lda: I, b: *const f64, ldb: I, be: f64, c: *mut f64, ldc: I) { symm(o, s, u, m, n, false, al, a, lda, b, ldb, be, c, ldc) }
#[no_mangle]
pub unsafe extern "C" fn cblas_zsymm(o: I, s: I, u: I, m: I, n: I, al: *const C64, a: *const C64, lda: I, b: *const C64, ldb: I, be: *const C64, c: *mut C64, ldc: I) { symm(o, s, u, m, n, false, *al, a, lda, b, ldb, *be, c, ldc) }
#[no_mangle]
pub unsafe extern "C" fn cblas_zhemm(o: I, s: I, u: I, m: I, n: I, al: *const C64, a: *const C64, lda: I, b: *const C64, ldb: I, be: *const C64, c: *mut C64, ldc: I) { symm(o, s, u, m, n, true, *al, a, lda, b, ldb, *be, c, ldc) }
type C64 = Complex<f64>;

/// triangular solve; diagonal elements that are used have to be one or minus one, so that the solution is exact
#[no_mangle]
pub unsafe extern "C" fn cblas_dtrsm(order: I, side: I, uplo: I, t: I, diag: I, m: I, n: I, al: f64, a: *const f64, lda: I, b: *mut f64, ldb: I) {
    let (col, x) = flags(order, t);
    check((side == 141 || side == 142) && (uplo == 121 || uplo == 122) && (diag == 131 || diag == 132), "bad BLAS flag");
    check(m >= 0 && n >= 0, "negative extent given to BLAS");
    let k = if side == 141 { m } else { n } as usize;
    ld_ok(col, false, k as I, k as I, lda);
    ld_ok(col, false, m, n, ldb);
    // op(A)
    let upper = (uplo == 121) != x;
    let e = |i: usize, j: usize| *a.add(at(col, x, lda, i, j));
    let d = |i: usize| if diag == 132 { 1.0 } else { let v = e(i, i); check(v == 1.0 || v == -1.0, "BLAS reads another diagonal"); v };
    let r = if side == 141 { n } else { m } as usize;
    for v in 0..r {
        let p = |i: usize| if side == 141 { at(col, false, ldb, i, v) } else { at(col, false, ldb, v, i) };
        for s in 0..k {
            // from the left: upper backwards, lower forwards; from the right the other way
            let i = if upper == (side == 141) { k - 1 - s } else { s };
            let mut w = al * *b.add(p(i));
            for q in 0..s {
                let j = if upper == (side == 141) { k - 1 - q } else { q };
                w = w - if side == 141 { e(i, j) } else { e(j, i) } * *b.add(p(j));
            }
            *b.add(p(i)) = w * d(i);
        }
    }
}

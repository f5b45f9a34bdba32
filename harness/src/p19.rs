//! P19: packed triangular storage
use crate::sym::*;
use crate::tgen::*;
use num::complex::Complex;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{DataRef, DeviceBaseAPI, Storage};

/// element type whose bits come from one symbolic integer; conj and neg are exact on bits
trait El: num::complex::ComplexFloat + Clone + 'static { fn mk(x: i64) -> Self; fn bits(self) -> (u64, u64); const CPLX: bool; }
const SIGN: u64 = 1 << 63;
impl El for f64 { fn mk(x: i64) -> Self { f64::from_bits(x as u64) } fn bits(self) -> (u64, u64) { (self.to_bits(), 0) } const CPLX: bool = false; }
impl El for Complex<f64> {
    fn mk(x: i64) -> Self { Complex::new(f64::from_bits(x as u64), f64::from_bits(x as u64 + 7)) }
    fn bits(self) -> (u64, u64) { (self.re.to_bits(), self.im.to_bits()) }
    const CPLX: bool = true;
}
fn dev(col: bool) -> Dev { let mut d = Dev::default(); if col { d.set_default_order(ColMajor) } else { d.set_default_order(RowMajor) } d }
/// position of element (i, j) in the packed vector. Row-major: rows of the triangle; column-major: its columns.
fn packed(n: usize, i: usize, j: usize, low: bool, col: bool) -> usize {
    let (i, j, low) = if col { (j, i, !low) } else { (i, j, low) };
    if low { i * (i + 1) / 2 + j } else { i * n - i * (i + 1) / 2 + j }
}
/// index of the full tensor: matrix axes last (row-major) or first (column-major)
fn full(i: usize, j: usize, r: &[usize], col: bool) -> Vec<usize> { let mut v = vec![]; if col { v.extend([i, j]); v.extend(r) } else { v.extend(r); v.extend([i, j]) } v }
fn pk(p: usize, r: &[usize], col: bool) -> Vec<usize> { full(p, 0, r, col).into_iter().enumerate().filter(|(k, _)| *k != if col { 1 } else { r.len() + 1 }).map(|x| x.1).collect() }
fn rest() -> &'static [usize] { let l: &[&[usize]] = &[&[], &[2], &[0], &[2, 3], &[3, 1]]; l[upick(0, l.len() - 1)] }
fn pack(a: Src, n: usize, r: &[usize], low: bool, col: bool) {
    let d = dev(col);
    let v = match rt::asarray_f((&a.data, a.lay.clone(), &d)) { Ok(t) => t, Err(_) => fail("valid layout rejected for a view") };
    let t = match v.pack_tri_f(if low { FlagUpLo::L } else { FlagUpLo::U }) { Ok(t) => t, Err(_) => fail("square matrices not packed") };
    reach(1);
    let np = n * (n + 1) / 2;
    check(t.layout().shape() == &pk(np, r, col), "packed tensor has a wrong shape");
    for x in indices(r) {
        for i in 0..n { for j in 0..n {
            if if low { j <= i } else { i <= j } {
                let p = crate::gen::pos(t.layout(), &pk(packed(n, i, j, low, col), &x, col)) as usize;
                check(p < t.raw().len() && t.raw()[p] == a.at(&full(i, j, &x, col)), "packed element is not the element of the triangle");
            }
        } }
    }
    for k in 0..t.raw().len() { observe(t.raw()[k]) }
}
#[no_mangle]
pub extern "C" fn h_pack() {
    let (n, r, col, low) = (upick(0, if thorough() { 4 } else { 3 }), rest(), pick(0, 1) == 1, pick(0, 1) == 1);
    pack(src(&full(n, n, r, col), pick(0, NPAT)), n, r, low, col)
}
#[no_mangle]
pub extern "C" fn h_pack_sym() {
    let l: &[(usize, &[usize])] = &[(2, &[]), (2, &[2]), (3, &[])];
    let (n, r) = l[upick(0, if thorough() { 2 } else { 1 })];
    let (col, low) = (pick(0, 1) == 1, pick(0, 1) == 1);
    pack(src_sym(&full(n, n, r, col), 3, true), n, r, low, col)
}
fn symm() -> FlagSymm { [FlagSymm::Sy, FlagSymm::He, FlagSymm::Ay, FlagSymm::Ah, FlagSymm::N][upick(0, 4)] }
fn unpack<E: El>(lay: Layout<IxD>, len: usize, n: usize, r: &[usize], low: bool, col: bool)
where Dev: DeviceRawAPI<E, Raw = Vec<E>> + DeviceRawAPI<std::mem::MaybeUninit<E>, Raw = Vec<std::mem::MaybeUninit<E>>> + DeviceAPI<E> + rstsr_core::prelude_dev::OpUnpackTriAPI<E> + rstsr_core::prelude_dev::DeviceCreationAnyAPI<E> {
    // finite numbers of either sign whose bits are a symbolic integer
    let data: Vec<E> = (0..len).map(|_| E::mk(int(0x3ff0_0000_0000_0000, 0x3ff0_0000_0000_ffff))).collect();
    let d = dev(col);
    let s = symm();
    let v: TensorView<'_, E, Dev, IxD> = unsafe { TensorView::new_unchecked(Storage::new(DataRef::from(&data), d), lay.clone()) };
    let t = match v.unpack_tri_f(if low { FlagUpLo::L } else { FlagUpLo::U }, s) { Ok(t) => t, Err(_) => fail("packed triangles not unpacked") };
    reach(1);
    check(t.layout().shape() == &full(n, n, r, col), "unpacked tensor has a wrong shape");
    let at = |i: usize, j: usize, x: &[usize]| data[crate::gen::pos(&lay, &pk(packed(n, i, j, low, col), x, col)) as usize].bits();
    let zero = E::zero().bits();
    for x in indices(r) {
        for i in 0..n { for j in 0..n {
            let own = if low { j <= i } else { i <= j };
            let p = crate::gen::pos(t.layout(), &full(i, j, &x, col)) as usize;
            if p >= t.raw().len() { fail("unpacked element outside its storage") }
            let g = t.raw()[p].bits();
            let y = if own { at(i, j, &x) } else { at(j, i, &x) };
            let conj = if E::CPLX { (y.0, y.1 ^ SIGN) } else { y };
            let anti = matches!(s, FlagSymm::Ay | FlagSymm::Ah);
            let w = if i == j {
                if anti { zero } else if matches!(s, FlagSymm::He) { check(g == y || g == conj, "diagonal of an unpacked matrix is wrong"); continue } else { y }
            } else if own { y } else {
                match s {
                    FlagSymm::Sy => y,
                    FlagSymm::He => conj,
                    FlagSymm::Ay => (y.0 ^ SIGN, if E::CPLX { y.1 ^ SIGN } else { y.1 }),
                    FlagSymm::Ah => (conj.0 ^ SIGN, if E::CPLX { conj.1 ^ SIGN } else { conj.1 }),
                    _ => zero,
                }
            };
            check(g == w, "unpacked element is wrong");
        } }
    }
}
#[no_mangle]
pub extern "C" fn h_unpack() {
    let (n, r, col, low) = (upick(0, if thorough() { 4 } else { 3 }), rest(), pick(0, 1) == 1, pick(0, 1) == 1);
    let (lay, len) = pattern(&pk(n * (n + 1) / 2, r, col), pick(0, NPAT));
    if pick(0, 1) == 0 { unpack::<f64>(lay, len, n, r, low, col) } else { unpack::<Complex<f64>>(lay, len, n, r, low, col) }
}
#[no_mangle]
pub extern "C" fn h_unpack_sym() {
    let l: &[(usize, &[usize])] = &[(2, &[]), (2, &[2])];
    let (n, r) = l[upick(0, 1)];
    let (col, low) = (pick(0, 1) == 1, pick(0, 1) == 1);
    let a = src_sym(&pk(n * (n + 1) / 2, r, col), 3, true);
    unpack::<f64>(a.lay.clone(), a.data.len(), n, r, low, col)
}
/// matrices that are not square, lengths that are not triangular numbers, too few axes
#[no_mangle]
pub extern "C" fn h_tri_err() {
    let col = pick(0, 1) == 1;
    let d = dev(col);
    if pick(0, 1) == 0 {
        let l: &[&[usize]] = &[&[], &[3], &[2, 3], &[3, 2, 2], &[2, 2, 3], &[2, 2]];
        let sh = l[upick(0, l.len() - 1)];
        let a = src(sh, 0);
        let r = rt::asarray_f((&a.data, a.lay.clone(), &d)).map(|v: TV| v.pack_tri_f(FlagUpLo::L).is_ok());
        let k = sh.len();
        let good = k >= 2 && if col { sh[0] == sh[1] } else { sh[k - 1] == sh[k - 2] };
        reach(if good { 1 } else { 2 });
        check(r.unwrap_or(true) == good, "packing accepted or rejected wrongly");
    } else {
        let n = upick(0, if thorough() { 40 } else { 16 });
        let lead = pick(0, 2);
        let sh: Vec<usize> = match lead { 0 => vec![n], 1 => pk(n, &[2], col), _ => vec![] };
        let data: Vec<f64> = vec![1.0; sh.iter().product::<usize>()];
        let lay = sh.c();
        let v: TensorView<'_, f64, Dev, IxD> = unsafe { TensorView::new_unchecked(Storage::new(DataRef::from(&data), d), lay) };
        let r = v.unpack_tri_f(FlagUpLo::L, FlagSymm::Sy);
        let good = lead < 2 && (0..=n).any(|m| m * (m + 1) / 2 == n);
        reach(if good { 3 } else { 4 });
        check(r.is_ok() == good, "unpacking accepted or rejected wrongly");
    }
}

//! Tensor-level generators: symbolic element values, picked shapes and layout patterns.
use crate::sym::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

#[cfg(not(feature = "par"))]
pub type Dev = DeviceCpuSerial;
#[cfg(feature = "par")]
pub type Dev = DeviceFaer;
pub type T<D = IxD> = Tensor<i64, Dev, D>;
pub type TV<'a, D = IxD> = TensorView<'a, i64, Dev, D>;

/// element buffer together with the layout the harness gave it: element at idx is data[position(idx)]
pub struct Src { pub data: Vec<i64>, pub lay: Layout<IxD> }
impl Src {
    pub fn at(&self, idx: &[usize]) -> i64 { self.data[self.p(idx)] }
    pub fn p(&self, idx: &[usize]) -> usize { crate::gen::pos(&self.lay, idx) as usize }
    pub fn shape(&self) -> Vec<usize> { self.lay.shape().to_vec() }
    pub fn view(&self) -> TV<'_> { match rt::asarray_f((&self.data, self.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected for a view") } }
    pub fn owned(&self) -> T { match rt::asarray_f((self.data.clone(), self.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected for a tensor") } }
    /// element with NumPy broadcasting: idx belongs to a shape of higher or equal rank
    pub fn at_bc(&self, idx: &[usize]) -> i64 {
        let r = self.lay.ndim();
        let sh = self.lay.shape();
        let v: Vec<usize> = (0..r).map(|k| if sh[k] == 1 { 0 } else { idx[idx.len() - r + k] }).collect();
        self.at(&v)
    }
}
pub fn val() -> i64 { int(-1000, 1000) }
pub fn vals(n: usize) -> Vec<i64> { (0..n).map(|_| val()).collect() }

/// number of stride patterns available for a rank
pub const NPAT: i64 = 6;
/// layout of a shape after a stride pattern: 0 row-major, 1 column-major, 2 first axis reversed, 3 all axes reversed and gaps,
/// 4 rotated axes with gap, 5 first axis broadcast, 6 last axis broadcast
pub fn pattern(shape: &[usize], pat: i64) -> (Layout<IxD>, usize) {
    let r = shape.len();
    let mut order: Vec<usize> = (0..r).rev().collect(); // fastest first
    if pat == 1 { order.reverse(); }
    if pat == 4 && r > 1 { order.rotate_left(1); }
    let mut bc = vec![false; r];
    if pat == 5 && r > 0 { bc[0] = true; }
    if pat == 6 && r > 0 { bc[r - 1] = true; }
    let mut st = vec![0isize; r];
    let mut acc = if pat == 3 || pat == 4 { 2 } else { 1 };
    for &k in &order {
        if bc[k] { continue; }
        st[k] = acc;
        acc *= if shape[k] == 0 { 1 } else { shape[k] as isize };
        if pat == 4 { acc += 1; }
    }
    for k in 0..r { if (pat == 2 && k == 0) || pat == 3 { st[k] = -st[k]; } }
    let (mut lo, mut hi) = (0isize, 0isize);
    for k in 0..r {
        let e = st[k] * (shape[k] as isize - 1).max(0);
        if e < 0 { lo += e } else { hi += e }
    }
    let pad = if pat == 0 || pat == 1 { 0 } else { 1 };
    let off = (pad - lo) as usize;
    let len = if shape.iter().any(|&x| x == 0) { off } else { off + hi as usize + 1 + pad as usize };
    (unsafe { Layout::new_unchecked(shape.to_vec(), st, off) }, len)
}
pub fn src(shape: &[usize], pat: i64) -> Src {
    let (lay, len) = pattern(shape, pat);
    Src { data: vals(len), lay }
}
/// all multi-indices of a shape in row-major order
pub fn indices(shape: &[usize]) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for &n in shape {
        let mut nx = Vec::new();
        for v in &out { for i in 0..n { let mut w = v.clone(); w.push(i); nx.push(w); } }
        out = nx;
    }
    out
}
/// NumPy common shape
pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let r = a.len().max(b.len());
    let g = |s: &[usize], k: usize| { let o = r - s.len(); if k < o { 1 } else { s[k - o] } };
    let mut v = vec![];
    for k in 0..r {
        let (x, y) = (g(a, k), g(b, k));
        v.push(if x == y { x } else if x == 1 { y } else if y == 1 { x } else { return None });
    }
    Some(v)
}
/// raw element of a tensor at an index, through its public layout and storage
pub fn get<S, D, X: Copy>(t: &TensorBase<S, D>, raw: &[X], idx: &[usize]) -> X where D: DimAPI {
    raw[crate::gen::pos(t.layout(), idx) as usize]
}
/// check that a tensor has a shape and elements
pub fn check_tensor<D, X: Copy + PartialEq>(t: &Tensor<X, Dev, D>, shape: &[usize], f: impl Fn(&[usize]) -> X, msg_shape: &'static str, msg: &'static str)
where D: DimAPI, Dev: DeviceRawAPI<X, Raw = Vec<X>> {
    check(t.ndim() == shape.len() && t.layout().shape().as_ref() == shape, msg_shape);
    let raw = t.raw();
    for i in indices(shape) {
        let p = crate::gen::pos(t.layout(), &i);
        if p < 0 || p as usize >= raw.len() { fail("tensor element outside its storage") }
        check(raw[p as usize] == f(&i), msg);
    }
}
/// shapes used by the element-level harnesses
pub fn shape_pair() -> (Vec<usize>, Vec<usize>) {
    let l: &[(&[usize], &[usize])] = &[
        (&[], &[]), (&[3], &[3]), (&[1], &[3]), (&[3], &[]), (&[2, 3], &[2, 3]), (&[2, 3], &[3]), (&[2, 1], &[3]), (&[2, 3], &[2, 1]),
        (&[0, 3], &[3]), (&[2, 0], &[2, 1]), (&[2, 3], &[2]), (&[2, 2, 2], &[2, 1, 2]), (&[1, 2], &[2, 1, 1]), (&[17], &[17]), (&[2, 16], &[16]), (&[16, 2], &[16, 1]), (&[2, 3, 2], &[3, 2]),
    ];
    let n = if thorough() { l.len() } else { l.len() - 1 };
    let (a, b) = l[upick(0, n - 1)];
    if pick(0, 1) == 0 { (a.to_vec(), b.to_vec()) } else { (b.to_vec(), a.to_vec()) }
}
/// source with symbolic strides in ±smax and symbolic offset over a buffer just large enough; whatever the layout constructor accepts
pub fn src_sym(shape: &[usize], smax: i64, free_off: bool) -> Src {
    let reach: i64 = shape.iter().map(|&n| (n as i64 - 1).max(0) * smax).sum();
    let len = 2 * reach as usize + 1 + 2;
    let st: Vec<isize> = shape.iter().map(|_| int(-smax, smax) as isize).collect();
    let off = if free_off { uint(reach as usize, reach as usize + 2) } else { reach as usize };
    let lay = match Layout::new(shape.to_vec(), st, off) { Ok(l) => l, Err(_) => { assume(false); unreachable!() } };
    Src { data: vals(len), lay }
}
/// element that owns memory
#[derive(PartialEq)]
pub struct Bx(pub Box<i64>);
impl Clone for Bx { fn clone(&self) -> Self { Bx(Box::new(*self.0)) } }
impl Default for Bx { fn default() -> Self { Bx(Box::new(0)) } }

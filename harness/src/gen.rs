//! Generators shared by the harnesses.
use crate::sym::*;
use rstsr_common::prelude_dev::*;

/// arbitrary valid layout of N dimensions; every extent, stride and the offset symbolic.
/// Validity is exactly what the public constructor accepts.
pub fn layout<const N: usize>(nmax: usize, smax: i64, omax: usize) -> Layout<Ix<N>>
where Ix<N>: DimAPI {
    let mut shape = [0usize; N];
    let mut stride = shape.new_stride();
    for i in 0..N {
        shape[i] = uint(0, nmax);
        stride[i] = int(-smax, smax) as isize;
    }
    let off = uint(0, omax);
    match Layout::new(shape, stride, off) {
        Ok(l) => l,
        Err(_) => { assume(false); unreachable!() }
    }
}
/// arbitrary layout of N dimensions of which only the lower bound is known to be non-negative (cheaper than `layout`)
pub fn layout_b<const N: usize>(nmax: usize, smax: i64) -> Layout<Ix<N>>
where Ix<N>: DimAPI {
    let mut shape = [0usize; N];
    let mut stride = shape.new_stride();
    for i in 0..N {
        shape[i] = uint(0, nmax);
        stride[i] = int(-smax, smax) as isize;
    }
    let off = uint(nmax * smax as usize * N, 2 * nmax * smax as usize * N);
    unsafe { Layout::new_unchecked(shape, stride, off) }
}
/// position of a multi-index: the definition of a strided layout
pub fn pos<D: DimAPI>(l: &Layout<D>, idx: &[usize]) -> isize {
    let mut p = l.offset() as isize;
    for k in 0..l.ndim() {
        p += l.stride()[k] * idx[k] as isize;
    }
    p
}
/// arbitrary multi-index inside shape (assumes the layout has elements)
pub fn any_index<D: DimAPI>(l: &Layout<D>, nmax: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..l.ndim() {
        let i = uint(0, nmax);
        assume(i < l.shape()[k]);
        v.push(i);
    }
    v
}
pub fn opt(lo: i64, hi: i64) -> Option<isize> {
    if pick(0, 1) == 1 { Some(int(lo, hi) as isize) } else { None }
}

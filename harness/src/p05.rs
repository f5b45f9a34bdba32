//! P05: reshaping without a copy keeps the element order; sizes are checked
use crate::gen::*;
use crate::sym::*;
use rstsr_common::prelude_dev::*;

/// shapes by number of elements
fn shapes(size: usize) -> &'static [&'static [usize]] {
    match size {
        0 => &[&[0], &[2, 0], &[0, 3]],
        1 => &[&[], &[1], &[1, 1]],
        4 => &[&[4], &[2, 2], &[1, 4], &[4, 1], &[2, 1, 2]],
        6 => &[&[6], &[2, 3], &[3, 2], &[6, 1], &[1, 2, 3], &[2, 1, 3], &[3, 2, 1]],
        8 => &[&[8], &[2, 4], &[4, 2], &[2, 2, 2]],
        12 => &[&[12], &[3, 4], &[4, 3], &[2, 6], &[6, 2], &[2, 2, 3], &[3, 2, 2], &[2, 3, 2]],
        _ => &[&[24], &[4, 6], &[6, 4], &[2, 3, 4], &[4, 3, 2], &[3, 2, 4], &[2, 2, 3, 2], &[2, 3, 2, 2]],
    }
}
fn linear(l: &Layout<IxD>, mut k: usize, order: FlagOrder) -> isize {
    let mut p = l.offset() as isize;
    let nd = l.ndim();
    for j in 0..nd {
        let ax = if order == RowMajor { nd - 1 - j } else { j };
        let n = l.shape()[ax];
        p += l.stride()[ax] * (k % n) as isize;
        k /= n;
    }
    p
}
fn reshape(sizes: &[usize], order: FlagOrder) {
    let size = sizes[upick(0, sizes.len() - 1)];
    let list = shapes(size);
    let sh = list[upick(0, list.len() - 1)].to_vec();
    let nh = list[upick(0, list.len() - 1)].to_vec();
    let stride: Vec<isize> = sh.iter().map(|_| int(-1000, 1000) as isize).collect();
    let l: Layout<IxD> = unsafe { Layout::new_unchecked(sh.clone(), stride, uint(50000, 100000)) };
    match layout_reshapeable(&l, &nh, order) {
        Err(_) => fail("reshape to a shape of equal size rejected"),
        Ok(None) => {
            reach(2);
            // a copy may only be demanded when there is no view: a contiguous layout always has one
            check(!(if order == RowMajor { l.c_contig() } else { l.f_contig() }), "contiguous layout not reshapeable");
            check(sh != nh, "layout not reshapeable to its own shape");
            // merging or splitting axes is possible whenever the elements advance evenly
            if nh.len() == 1 {
                let d = linear(&l, 1, order) - linear(&l, 0, order);
                let mut even = true;
                for k in 2..size { if linear(&l, k, order) - linear(&l, k - 1, order) != d { even = false } }
                check(!even, "evenly spaced elements not reshapeable to one axis");
            }
            if sh.len() == 1 { fail("splitting a single axis must not need a copy") }
        }
        Ok(Some(m)) => {
            reach(1);
            check(*m.shape() == nh, "reshape returns another shape");
            check(size == 0 || m.ndim() == m.stride().len(), "rank of strides differs");
            for k in 0..size {
                check(linear(&m, k, order) == linear(&l, k, order), "reshaped view enumerates different elements");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_reshape_row() {
    if thorough() { reshape(&[0, 1, 4, 6, 8, 12, 24], RowMajor) } else { reshape(&[0, 1, 4, 6, 8, 12], RowMajor) }
}
#[no_mangle]
pub extern "C" fn h_reshape_col() {
    if thorough() { reshape(&[0, 1, 4, 6, 8, 12, 24], ColMajor) } else { reshape(&[0, 1, 4, 6, 8, 12], ColMajor) }
}
/// shapes of any sizes: accepted exactly when the sizes agree (also when the product would overflow)
#[no_mangle]
pub extern "C" fn h_reshape_size() {
    let a = uint(0, 40);
    let b = [1, 2, 7][upick(0, 2)];
    let l = unsafe { Layout::<IxD>::new_unchecked(vec![a, b], vec![b as isize, 1], 3) };
    let c = uint(0, 100);
    let d = [1usize, 3, 14, 0, usize::MAX, 1 << 63, 1 << 62][upick(0, 6)];
    let e = [1usize, 4][upick(0, 1)];
    if d > 14 { assume(c > 0) }
    let r = layout_reshapeable(&l, &vec![d, c, e], RowMajor);
    if d <= 14 {
        let eq = a * b == c * d * e;
        match r { Ok(_) => { reach(1); check(eq, "reshape to a different size accepted") } Err(_) => { reach(2); check(!eq, "reshape to the same size rejected") } }
    } else {
        check(r.is_err(), "overflowing shape accepted");
        reach(3);
    }
}
/// -1 in a target shape: the missing extent, or an error; never a panic
#[no_mangle]
pub extern "C" fn h_reshape_neg() {
    let n = upick(0, 3);
    let size = [0usize, 1, 6, 7, 12][upick(0, 4)];
    let mut sh: Vec<isize> = vec![];
    for k in 0..n {
        sh.push(if k == 0 { int(-3, 13) as isize } else { [-1, 0, 1, 2, 3, isize::MAX][upick(0, 5)] });
    }
    let r = reshape_substitute_negatives(&sh, size);
    let neg: usize = sh.iter().filter(|&&v| v == -1).count();
    let bad = sh.iter().any(|&v| v < -1);
    match r {
        Ok(v) => {
            reach(1);
            check(!bad && neg <= 1, "invalid target shape accepted");
            check(v.len() == n, "target shape changes rank");
            let mut prod: u64 = 1;
            for k in 0..n {
                if sh[k] >= 0 { check(v[k] == sh[k] as usize, "given extent changed"); }
            }
            if neg == 1 {
                for k in 0..n { prod = prod.wrapping_mul(v[k] as u64); }
                check(prod == size as u64, "inferred extent does not give the size");
            }
        }
        Err(_) => {
            reach(2);
            if bad || neg > 1 { return; }
            check(neg == 1, "valid target shape rejected");
            let mut p: u64 = 1;
            let mut big = false;
            for &v in &sh { if v == isize::MAX { big = true } else if v != -1 { p *= v as u64 } }
            if !big {
                // p is 0 or does not divide the size
                let mut ok = false;
                let mut m = 0;
                while m <= size { if p != 0 && p.wrapping_mul(m as u64) == size as u64 { ok = true } m += 1; }
                check(!ok, "inferable target shape rejected");
            }
        }
    }
}

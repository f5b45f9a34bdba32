//! P01: basic slicing follows the Python rules
use crate::gen::*;
use crate::sym::*;
use rstsr_common::prelude_dev::*;

/// Python's slice(start, stop, step).indices(n), returning (start, count, step)
pub fn py_slice(n: i64, start: Option<isize>, stop: Option<isize>, step: Option<isize>) -> (i64, i64, i64) {
    let step = step.unwrap_or(1) as i64;
    let (lo, hi) = if step > 0 { (0, n) } else { (-1, n - 1) };
    let clip = |v: isize| -> i64 {
        let v = v as i64;
        let v = if v < 0 { v + n } else { v };
        if v < lo { lo } else if v > hi { hi } else { v }
    };
    let (ds, de) = if step > 0 { (lo, hi) } else { (hi, lo) };
    let a = match start { Some(v) => clip(v), None => ds };
    let b = match stop { Some(v) => clip(v), None => de };
    let cnt = if step > 0 {
        if a < b { (b - a - 1) / step + 1 } else { 0 }
    } else if b < a {
        // -(step) may not be representable; the count is then 1 anyway
        if step == i64::MIN { 1 } else { (a - b - 1) / (-step) + 1 }
    } else { 0 };
    (a, cnt, step)
}

fn check_slice(n: usize, stride: isize, off: usize, start: Option<isize>, stop: Option<isize>, step: Option<isize>) {
    let l: Layout<Ix1> = unsafe { Layout::new_unchecked([n], [stride], off) };
    match l.dim_narrow(0, SliceI::new(start, stop, step)) {
        Ok(m) => {
            reach(1);
            check(step != Some(0), "slice with step 0 must be rejected");
            let (a, cnt, st) = py_slice(n as i64, start, stop, step);
            observe(m.shape()[0] as i64);
            check(m.shape()[0] as i64 == cnt, "number of sliced elements differs from Python slicing");
            if cnt > 0 {
                check(m.offset() as i64 == off as i64 + stride as i64 * a, "first sliced element differs from Python slicing");
                observe(m.offset() as i64);
            }
            if cnt > 1 {
                check(m.stride()[0] as i64 == stride as i64 * st, "stride of slice differs from Python slicing");
            }
        }
        Err(_) => {
            reach(2);
            check(step == Some(0), "valid slice rejected");
        }
    }
}
/// large symbolic extent, start and stop anywhere in the 64-bit range, representative steps and strides
#[no_mangle]
pub extern "C" fn h_slice_range() {
    let n = uint(0, 1 << 20);
    let stride = [1, -3][upick(0, 1)];
    let step = [None, Some(1), Some(2), Some(3), Some(-1), Some(-2), Some(-5), Some(0), Some(isize::MAX), Some(isize::MIN)][upick(0, 9)];
    let (start, stop) = (opt(-(1 << 40), 1 << 40), opt(-(1 << 40), 1 << 40));
    check_slice(n, stride, 4 << 20, start, stop, step);
}
/// small extent, every other parameter symbolic (step over the 64-bit range)
#[no_mangle]
pub extern "C" fn h_slice_step() {
    let n = upick(0, if thorough() { 8 } else { 5 });
    let stride = int(-50, 50) as isize;
    let off = uint(500, 1000);
    let (start, stop, step) = (opt(-12, 12), opt(-12, 12), opt(-1000, 1000));
    check_slice(n, stride, off, start, stop, step);
}

/// mixed indexers: slices, integers, new axes and an ellipsis on a 1..3-dimensional layout
#[no_mangle]
pub extern "C" fn h_slice_mixed() {
    let nd = upick(1, 3);
    let nk = upick(0, if thorough() { 4 } else { 3 });
    let shape = [4usize, 3, 5][..nd].to_vec();
    let mut stride = vec![];
    for k in 0..nd { stride.push([20isize, -90, 3][k]); }
    let off = uint(300, 1000);
    let l: Layout<IxD> = unsafe { Layout::new_unchecked(shape.clone(), stride.clone(), off) };
    let mut ix: Vec<Indexer> = vec![];
    for _ in 0..nk {
        ix.push(match pick(0, 5) {
            0 => Indexer::Slice(SliceI::new(int(-7, 7) as isize, None, None)),
            1 => Indexer::Slice(SliceI::new(None, int(-7, 7) as isize, Some(-2))),
            2 | 3 => Indexer::Select(int(-7, 7) as isize),
            4 => Indexer::Insert,
            _ => Indexer::Ellipsis,
        });
    }
    // reference: walk the indexers left to right; result axis -> (source axis or none, start, step)
    let used = ix.iter().filter(|i| matches!(i, Indexer::Slice(_) | Indexer::Select(_))).count();
    let nell = ix.iter().filter(|i| matches!(i, Indexer::Ellipsis)).count();
    let mut ok = used <= nd && nell <= 1;
    let mut src = off as i64;
    let mut out: Vec<(i64, i64)> = vec![]; // (extent, stride)
    if ok {
        let mut ax = 0;
        let fill = nd - used;
        for i in &ix {
            match i {
                Indexer::Slice(s) => {
                    let (a, c, st) = py_slice(shape[ax] as i64, s.start(), s.stop(), s.step());
                    if c > 0 { src += a * stride[ax] as i64; }
                    out.push((c, st * stride[ax] as i64));
                    ax += 1;
                }
                Indexer::Select(k) => {
                    let n = shape[ax] as isize;
                    let j = if *k < 0 { *k + n } else { *k };
                    if j < 0 || j >= n { ok = false; } else { src += j as i64 * stride[ax] as i64; }
                    ax += 1;
                }
                Indexer::Insert => out.push((1, 0)),
                Indexer::Ellipsis => {
                    for _ in 0..fill { out.push((shape[ax] as i64, stride[ax] as i64)); ax += 1; }
                }
                _ => {}
            }
        }
        while ax < nd { out.push((shape[ax] as i64, stride[ax] as i64)); ax += 1; }
    }
    match l.dim_slice(&ix) {
        Ok(m) => {
            check(ok, "invalid index expression accepted");
            reach(1);
            check(m.ndim() == out.len(), "wrong number of dimensions after indexing");
            let mut empty = false;
            for k in 0..out.len() {
                check(m.shape()[k] as i64 == out[k].0, "wrong extent after indexing");
                if out[k].0 == 0 { empty = true; }
            }
            if !empty {
                check(m.offset() as i64 == src, "first element after indexing is wrong");
                for k in 0..out.len() {
                    if out[k].0 > 1 { check(m.stride()[k] as i64 == out[k].1, "wrong stride after indexing"); }
                }
            }
        }
        Err(_) => { reach(2); check(!ok, "valid index expression rejected"); }
    }
}

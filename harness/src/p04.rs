//! P04: broadcasting
use crate::gen::*;
use crate::sym::*;
use rstsr_common::prelude_dev::*;

fn lay(n: usize, nmax: usize) -> Layout<IxD> {
    let mut s = vec![];
    let mut t = vec![];
    for _ in 0..n { s.push(uint(0, nmax)); t.push(int(-1000, 1000) as isize); }
    let off = uint(1000 * nmax * 4, 2000 * nmax * 4);
    unsafe { Layout::new_unchecked(s, t, off) }
}
fn bc(order: FlagOrder, n1: usize, n2: usize) {
    let (a, b) = (lay(n1, 1000), lay(n2, 1000));
    let n = n1.max(n2);
    // axis k of the result corresponds to axis k - (n - n1) of a (row-major: right aligned), or axis k (col-major: left aligned)
    let map = |m: usize, k: usize| -> Option<usize> {
        match order { RowMajor => if k >= n - m { Some(k - (n - m)) } else { None }, ColMajor => if k < m { Some(k) } else { None } }
    };
    let mut ok = true;
    let mut shape = vec![];
    for k in 0..n {
        let d1 = map(n1, k).map(|i| a.shape()[i]).unwrap_or(1);
        let d2 = map(n2, k).map(|i| b.shape()[i]).unwrap_or(1);
        if d1 == d2 { shape.push(d1) } else if d1 == 1 { shape.push(d2) } else if d2 == 1 { shape.push(d1) } else { ok = false; break }
    }
    match broadcast_layout(&a, &b, order) {
        Err(_) => { reach(2); check(!ok, "compatible shapes rejected") }
        Ok((x, y)) => {
            reach(1);
            check(ok, "incompatible shapes accepted");
            for (src, m, out) in [(&a, n1, &x), (&b, n2, &y)] {
                check(out.ndim() == n && out.offset() == src.offset(), "broadcast changes dimension or origin");
                for k in 0..n {
                    check(out.shape()[k] == shape[k], "broadcast extent wrong");
                    let st = match map(m, k) {
                        Some(i) => if src.shape()[i] == shape[k] && shape[k] != 1 { Some(src.stride()[i]) } else if shape[k] == 1 { None } else { Some(0) },
                        None => if shape[k] == 1 { None } else { Some(0) },
                    };
                    if let Some(s) = st { check(out.stride()[k] == s, "broadcast reads the wrong element along an axis"); }
                }
            }
        }
    }
    if order == RowMajor {
        // predicates agree with the rule
        let mut fr = n1 >= n2;
        if fr { for k in 0..n1 { if let Some(i) = map(n2, k) { if b.shape()[i] != 1 && b.shape()[i] != a.shape()[k] { fr = false; break } } } }
        check(a.shape().broadcastable_from(b.shape()) == fr, "broadcastable_from wrong");
        check(b.shape().broadcastable_to(a.shape()) == fr, "broadcastable_to wrong");
    }
}
macro_rules! bcs { ($($f:ident $o:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { let (a, b) = (upick(0, if thorough() { 3 } else { 3 }), upick(0, 2 + thorough() as usize)); bc($o, a, b); })* } }
bcs! { h_bc_row RowMajor; h_bc_col ColMajor; }

/// static dimensions and in-place (to-first) variant
#[no_mangle]
pub extern "C" fn h_bc_first() {
    let a: Layout<Ix3> = layout_b::<3>(100, 100);
    let b: Layout<Ix2> = layout_b::<2>(100, 100);
    let swap = any_bool();
    if swap {
        // the first operand has fewer dimensions: conversion back to it must fail
        check(broadcast_layout_to_first(&b, &a, RowMajor).is_err(), "broadcast to a smaller left operand accepted");
        reach(2);
        return;
    }
    if let Ok((x, y)) = broadcast_layout_to_first(&a, &b, RowMajor) {
        reach(1);
        for k in 0..3 {
            let d1 = a.shape()[k];
            let d2 = if k == 0 { 1 } else { b.shape()[k - 1] };
            let d = if d1 == 1 { d2 } else { d1 };
            check(x.shape()[k] == d && y.shape()[k] == d, "extent wrong");
            if d > 1 {
                check(x.stride()[k] == if d1 == 1 { 0 } else { a.stride()[k] }, "left stride wrong");
                check(y.stride()[k] == if d2 == 1 { 0 } else { b.stride()[k - 1] }, "right stride wrong");
            }
        }
    }
}
/// mapping of elements under broadcasting, for all multi-indices
#[no_mangle]
pub extern "C" fn h_bc_elem() {
    let a: Layout<IxD> = lay(upick(0, 3), 50);
    let b: Layout<IxD> = lay(upick(0, 3), 50);
    if let Ok((x, _)) = broadcast_layout(&a, &b, RowMajor) {
        let n = x.ndim();
        let mut j = vec![];
        for k in 0..n { let i = uint(0, 49); assume(i < x.shape()[k]); j.push(i); }
        reach(1);
        let mut i = vec![];
        for k in 0..a.ndim() { let q = j[n - a.ndim() + k]; i.push(if a.shape()[k] == 1 { 0 } else { q }); }
        check(pos(&x, &j) == pos(&a, &i), "broadcast element does not come from the source element");
    }
}

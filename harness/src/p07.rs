//! P07: layout predicates mean what they say
use crate::gen::*;
use crate::sym::*;
use rstsr_common::prelude_dev::*;

fn dims<const N: usize>(m: usize) -> [usize; N] {
    let mut s = [0; N];
    for k in 0..N { s[k] = upick(0, m); }
    s
}
fn contig<const N: usize>(m: usize)
where Ix<N>: DimAPI {
    let sh = dims::<N>(m);
    let mut st = sh.new_stride();
    for k in 0..N { st[k] = int(-100, 100) as isize; }
    let l: Layout<Ix<N>> = unsafe { Layout::new_unchecked(sh, st.clone(), uint(0, 1000)) };
    let size: usize = sh.iter().product();
    check(l.size() == size, "size is the product of the extents");
    let (mut c, mut f) = (true, true);
    let (mut acc_c, mut acc_f) = (1isize, 1isize);
    let (mut nc, mut nf) = (0, 0);
    for k in 0..N {
        let j = N - 1 - k;
        if sh[j] != 1 && st[j] != acc_c { c = false }
        if c { nc += 1 }
        acc_c *= sh[j] as isize;
        if sh[k] != 1 && st[k] != acc_f { f = false }
        if f { nf += 1 }
        acc_f *= sh[k] as isize;
    }
    if size == 0 { c = true; f = true; nc = N; nf = N; }
    check(l.c_contig() == c, "row-major contiguity predicate wrong");
    check(l.f_contig() == f, "column-major contiguity predicate wrong");
    check(l.ndim_of_c_contig() == nc, "number of row-major contiguous axes wrong");
    check(l.ndim_of_f_contig() == nf, "number of column-major contiguous axes wrong");
    if l.c_contig() { reach(1) } else { reach(2) }
    if c && size > 0 { check(l.c_prefer(), "contiguous but not preferring row-major") }
    if f && size > 0 { check(l.f_prefer(), "contiguous but not preferring column-major") }
}
#[no_mangle]
pub extern "C" fn h_contig1() { contig::<1>(4) }
#[no_mangle]
pub extern "C" fn h_contig2() { contig::<2>(if thorough() { 4 } else { 3 }) }
#[no_mangle]
pub extern "C" fn h_contig3() { contig::<3>(if thorough() { 3 } else { 2 }) }

fn newc<D: DimDevAPI + DimLayoutContigAPI>(sh: D) {
    let off = uint(0, 1000);
    let n: usize = sh.as_ref().iter().product();
    let (c, f) = (sh.new_c_contig(Some(off)), sh.new_f_contig(Some(off)));
    check(c.offset() == off && f.offset() == off && sh.c().offset() == 0 && sh.f().offset() == 0, "offset of a new contiguous layout wrong");
    check(c.c_contig() && f.f_contig(), "new contiguous layout is not contiguous");
    for k in 0..n {
        let (mut r, mut pc) = (k, off as isize);
        for j in (0..sh.ndim()).rev() { pc += c.stride()[j] * (r % sh[j]) as isize; r /= sh[j]; }
        check(pc == off as isize + k as isize, "row-major layout is not in row-major order");
        let (mut r, mut pf) = (k, off as isize);
        for j in 0..sh.ndim() { pf += f.stride()[j] * (r % sh[j]) as isize; r /= sh[j]; }
        check(pf == off as isize + k as isize, "column-major layout is not in column-major order");
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_newcontig() {
    match upick(0, 5) {
        0 => newc([0usize; 0]),
        1 => newc(dims::<1>(4)),
        2 => newc(dims::<2>(3)),
        3 => newc(dims::<3>(3)),
        4 => newc(dims::<4>(2)),
        _ => newc(dims::<3>(3).to_vec()),
    }
}

/// bounds: every element lies in [min, max); both ends are attained; negative positions are rejected
fn bounds<const N: usize>()
where Ix<N>: DimAPI {
    let mut sh = [0usize; N];
    let mut st = sh.new_stride();
    for k in 0..N {
        sh[k] = uint(0, 1 << 20);
        st[k] = [1isize, -3, 1000, 0, -50000][upick(0, 4)];
    }
    let off = uint(0, 1 << 40);
    let l: Layout<Ix<N>> = unsafe { Layout::new_unchecked(sh, st.clone(), off) };
    let (mut lo, mut hi) = (off as isize, off as isize);
    let mut empty = false;
    for k in 0..N {
        if sh[k] == 0 { empty = true }
    }
    if !empty {
        for k in 0..N {
            let e = (sh[k] as isize - 1) * st[k];
            if st[k] > 0 { hi += e } else { lo += e }
        }
    }
    match l.bounds_index() {
        Ok((a, b)) => {
            if empty { reach(3); check(a == b, "empty layout with a non-empty memory range") } else {
                reach(1);
                check(lo >= 0, "layout reaching below zero accepted");
                check(a as isize == lo && b as isize == hi + 1, "memory range of the layout wrong");
            }
        }
        Err(_) => { reach(2); check(!empty && lo < 0, "valid layout rejected") }
    }
}
#[no_mangle]
pub extern "C" fn h_bounds1() { bounds::<1>() }
#[no_mangle]
pub extern "C" fn h_bounds2() { bounds::<2>() }
#[no_mangle]
pub extern "C" fn h_bounds3() { bounds::<3>() }

/// a layout accepted by the checked constructor without zero strides never maps two indices to one element
fn inject<const N: usize>(m: usize)
where Ix<N>: DimAPI {
    let sh = dims::<N>(m);
    let mut st = sh.new_stride();
    for k in 0..N { st[k] = int(-200, 200) as isize; }
    let skip = pick(0, 1) == 1;
    let l: Layout<Ix<N>> = unsafe { Layout::new_unchecked(sh, st.clone(), 100000) };
    let ok = l.check_strides(skip).is_ok();
    if !ok { reach(2); return }
    reach(1);
    // difference vectors
    let mut cnt = 1;
    for k in 0..N { if sh[k] == 0 { return } cnt *= 2 * sh[k] - 1; }
    for c in 0..cnt / 2 {
        let (mut r, mut d, mut zero) = (c, 0isize, true);
        for k in 0..N {
            let w = 2 * sh[k] - 1;
            let x = (r % w) as isize - (sh[k] as isize - 1);
            r /= w;
            // with zero strides allowed, moving along a broadcast axis repeats elements
            if skip && x != 0 && st[k] == 0 { continue }
            if x != 0 { zero = false }
            d += x * st[k];
        }
        if !zero { check(d != 0, "accepted layout maps two indices to one element") }
    }
}
#[no_mangle]
pub extern "C" fn h_inject1() { inject::<1>(4) }
#[no_mangle]
pub extern "C" fn h_inject2() { inject::<2>(3) }
#[no_mangle]
pub extern "C" fn h_inject3() { inject::<3>(if thorough() { 3 } else { 2 }) }

/// layouts that compare equal address the same elements
#[no_mangle]
pub extern "C" fn h_layout_eq() {
    let a = layout_b::<2>(5, 50);
    let b = layout_b::<2>(5, 50);
    if a == b {
        reach(1);
        check(a.shape() == b.shape(), "equal layouts differ in shape");
        let (i, j) = (upick(0, 4), upick(0, 4));
        if i < a.shape()[0] && j < a.shape()[1] { check(pos(&a, &[i, j]) == pos(&b, &[i, j]), "equal layouts address different elements"); }
    } else {
        reach(2);
        check(!(a.shape() == b.shape() && a.stride() == b.stride() && a.offset() == b.offset()), "identical layouts compare unequal");
    }
}

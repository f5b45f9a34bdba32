//! P08: expanding, squeezing and diagonals
use crate::gen::*;
use crate::sym::*;
use rstsr_common::prelude_dev::*;

/// diagonal: element i is A[i + max(-k,0), i + max(k,0)], length per the overlap
fn diag<const N: usize>(a1: usize, a2: usize)
where Ix<N>: DimAPI + DimSmallerOneAPI, <Ix<N> as DimSmallerOneAPI>::SmallerOne: DimDevAPI {
    let mut sh = [0usize; N];
    let mut st = sh.new_stride();
    let base: [isize; 3] = [[1, 5000, 20000000], [-20000000, 5000, 1], [5000, -1, 20000000], [0, 1, 5000]][upick(0, 3)];
    for k in 0..N { sh[k] = uint(0, 1000); st[k] = base[k]; }
    let off = uint(1 << 36, 1 << 40);
    let l: Layout<Ix<N>> = unsafe { Layout::new_unchecked(sh, st.clone(), off) };
    let k = int(-(1 << 30), 1 << 30);
    let r = l.diagonal(Some(k as isize), Some(a1 as isize), Some(a2 as isize - if pick(0, 1) == 1 { N as isize } else { 0 }));
    let m = match r { Ok(m) => m, Err(_) => fail("valid diagonal rejected") };
    let (d1, d2) = (sh[a1] as i64, sh[a2] as i64);
    let (i0, j0) = if k < 0 { (-k, 0) } else { (0, k) };
    let (r1, r2) = (d1 - i0, d2 - j0);
    let mut len = if r1 < r2 { r1 } else { r2 };
    if len < 0 { len = 0 }
    check(m.ndim() == N - 1, "diagonal has a wrong rank");
    check(m.shape()[N - 2] as i64 == len, "diagonal has a wrong length");
    let mut q = 0;
    for x in 0..N { if x != a1 && x != a2 { check(m.shape()[q] == sh[x] && m.stride()[q] == st[x], "diagonal changes another axis"); q += 1; } }
    if len > 0 {
        reach(1);
        check(m.offset() as i64 == off as i64 + st[a1] as i64 * i0 + st[a2] as i64 * j0, "diagonal starts at the wrong element");
        if len > 1 { check(m.stride()[N - 2] == st[a1] + st[a2], "diagonal advances wrongly"); }
    } else { reach(2) }
}
#[no_mangle]
pub extern "C" fn h_diag2() { if pick(0, 1) == 0 { diag::<2>(0, 1) } else { diag::<2>(1, 0) } }
#[no_mangle]
pub extern "C" fn h_diag3() { match pick(0, 2) { 0 => diag::<3>(0, 1), 1 => diag::<3>(2, 0), _ => diag::<3>(1, 2) } }
/// axes of a diagonal: wrong or equal axes are rejected
#[no_mangle]
pub extern "C" fn h_diag_axes() {
    let l: Layout<IxD> = unsafe { Layout::new_unchecked(vec![4, 3, 5], vec![15, 5, 1], uint(0, 100)) };
    let (a, b) = (int(-6, 6), int(-6, 6));
    let nrm = |x: i64| if x < 0 { x + 3 } else { x };
    let ok = nrm(a) >= 0 && nrm(a) < 3 && nrm(b) >= 0 && nrm(b) < 3 && nrm(a) != nrm(b);
    match l.diagonal(None, Some(a as isize), Some(b as isize)) {
        Ok(m) => { reach(1); check(ok, "invalid diagonal axes accepted"); check(m.ndim() == 2, "diagonal has a wrong rank") }
        Err(_) => { reach(2); check(!ok, "valid diagonal axes rejected") }
    }
}
/// inserting an axis of extent one
#[no_mangle]
pub extern "C" fn h_insert() {
    let l = layout_b::<2>(1000, 1000);
    let st = *l.stride();
    let sh = *l.shape();
    let axis = pick(-5, 5) as isize;
    let a = if axis < 0 { axis + 3 } else { axis };
    match l.dim_insert(axis) {
        Ok(m) => {
            reach(1);
            check(a >= 0 && a <= 2, "axis out of range accepted");
            check(m.ndim() == 3 && m.offset() == l.offset(), "inserting an axis changes the base");
            let mut q = 0;
            for k in 0..3 {
                if k as isize == a { check(m.shape()[k] == 1, "inserted axis has extent other than one") }
                else { check(m.shape()[k] == sh[q] && m.stride()[k] == st[q], "inserting an axis changes another"); q += 1; }
            }
        }
        Err(_) => {
            reach(2);
            check(a < 0 || a > 2 || Layout::new(sh, st.clone(), l.offset()).is_err(), "valid axis rejected");
        }
    }
}
/// removing an axis of extent one
#[no_mangle]
pub extern "C" fn h_eliminate() {
    let mut sh = [0usize; 3];
    let mut st = [0isize; 3];
    for k in 0..3 { sh[k] = uint(0, 1000); st[k] = int(-1000, 1000) as isize; }
    let l: Layout<Ix3> = unsafe { Layout::new_unchecked(sh, st.clone(), uint(4000000, 1 << 40)) };
    let axis = pick(-5, 5) as isize;
    let a = if axis < 0 { axis + 3 } else { axis };
    match l.dim_eliminate(axis) {
        Ok(m) => {
            reach(1);
            check(a >= 0 && a < 3, "axis out of range accepted");
            check(sh[a as usize] == 1, "axis with several elements removed");
            check(m.ndim() == 2 && m.offset() == l.offset(), "removing an axis changes the base");
            let mut q = 0;
            for k in 0..3 { if k as isize != a { check(m.shape()[q] == sh[k] && m.stride()[q] == st[k], "removing an axis changes another"); q += 1; } }
        }
        Err(_) => {
            reach(2);
            check(a < 0 || a > 2 || sh[a as usize] != 1 || Layout::new(sh, st.clone(), l.offset()).is_err(), "valid squeeze rejected");
        }
    }
}

//! P27: ownership conversions and packing into arrays keep the elements and the memory
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use std::alloc::{GlobalAlloc, Layout as AL, System};

/// allocator that remembers the size of each block, and refuses large requests
struct Sized_;
const HDR: usize = 64;
const MAX: usize = 1 << 14;
unsafe impl GlobalAlloc for Sized_ {
    unsafe fn alloc(&self, l: AL) -> *mut u8 {
        if l.size() > MAX { return std::ptr::null_mut() }
        let p = System.alloc(AL::from_size_align_unchecked(l.size() + HDR, 16));
        if p.is_null() { return p }
        *(p as *mut usize) = l.size();
        p.add(HDR)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: AL) {
        let b = p.sub(HDR);
        check(*(b as *mut usize) == l.size(), "memory is released with another size than it was allocated with");
        System.dealloc(b, AL::from_size_align_unchecked(l.size() + HDR, 16));
    }
}
#[global_allocator]
static GA: Sized_ = Sized_;
fn block_size(p: *const u8) -> usize { unsafe { *(p.sub(HDR) as *const usize) } }

fn vec_of(n: usize, extra: usize) -> Vec<i64> { let mut v = Vec::with_capacity(n + extra); for _ in 0..n { v.push(val()) } v }
fn pack_n<const N: usize>(n: usize, extra: usize) {
    let v = vec_of(n, extra);
    let old = v.clone();
    let r = v.pack_array_f::<N>();
    reach(1);
    let a = match r { Ok(a) => a, Err(_) => { check(N == 0 || n % N != 0, "vector of a fitting length rejected"); return } };
    check(N != 0 && n % N == 0 && a.len() == n / N, "packed vector has a wrong length");
    for i in 0..a.len() { for j in 0..N { check(a[i][j] == old[i * N + j], "packing moves elements") } }
    let mut a2 = Vec::with_capacity(a.len() + pick(0, 2) as usize);
    for x in &a { a2.push(*x) }
    let u = match pick(0, 2) {
        0 => a.unpack_array(),
        1 => a2.unpack_array(),
        _ => { let s: &[[i64; N]] = &a; let f: &[i64] = s.unpack_array(); let g: &[[i64; N]] = match f.pack_array_f::<N>() { Ok(g) => g, Err(_) => fail("slice of a fitting length rejected") }; check(g == s, "packing a slice moves elements"); f.to_vec() }
    };
    check(u == old, "unpacking moves elements");
    let mut w = u;
    w.push(7);
    check(w.len() == n + 1 && w[n] == 7, "vector cannot be used after unpacking");
}
/// vectors packed into arrays of N elements and back; spare capacity
#[no_mangle]
pub extern "C" fn h_pack_vec() {
    let (n, e) = (upick(0, 6), upick(0, 3));
    match pick(0, 3) { 0 => pack_n::<1>(n, e), 1 => pack_n::<2>(n, e), 2 => pack_n::<3>(n, e), _ => pack_n::<0>(n, e) }
}
fn packed_eq<R, const N: usize>(b: &TensorAny<R, [i64; N], Dev, IxD>, s: &Src, ax: usize) where R: DataAPI<Data = Vec<[i64; N]>> {
    let sh = s.shape();
    let out: Vec<usize> = (0..sh.len()).filter(|&k| k != ax).map(|k| sh[k]).collect();
    check(b.shape().to_vec() == out, "packed tensor has a wrong shape");
    for i in indices(&out) {
        let p = crate::gen::pos(b.layout(), &i);
        if p < 0 || p as usize >= b.raw().len() { fail("packed element outside the storage") }
        for j in 0..N {
            let mut f = i.clone();
            f.insert(ax, j);
            check(b.raw()[p as usize][j] == s.at(&f), "packing a tensor moves elements");
        }
    }
}
fn unpacked_eq<R>(u: &TensorAny<R, i64, Dev, IxD>, s: &Src, ax: usize, to: usize) where R: DataAPI<Data = Vec<i64>> {
    let sh = s.shape();
    let mut out: Vec<usize> = (0..sh.len()).filter(|&k| k != ax).map(|k| sh[k]).collect();
    out.insert(to, sh[ax]);
    check(u.shape().to_vec() == out, "unpacked tensor has a wrong shape");
    for i in indices(&out) {
        let p = crate::gen::pos(u.layout(), &i);
        if p < 0 || p as usize >= u.raw().len() { fail("unpacked element outside the storage") }
        let mut f = i.clone();
        let j = f.remove(to);
        f.insert(ax, j);
        check(u.raw()[p as usize] == s.at(&f), "unpacking a tensor moves elements");
    }
}
fn pack_t<const N: usize>(s: &Src, must: bool) {
    let n = s.lay.ndim();
    let ax = upick(0, n - 1);
    let a = if pick(0, 1) == 0 { ax as isize } else { ax as isize - n as isize };
    let to = upick(0, n - 1);
    let bad = |ok: bool| check(!(must && ok), "a contiguous axis of the right length was rejected");
    let good = !s.shape().contains(&0) && s.shape()[ax] == N && s.lay.stride()[ax] == 1;
    reach(1);
    match pick(0, 2) {
        0 => match s.view().into_pack_array_f::<N>(a) { Ok(b) => { packed_eq(&b, s, ax); unpacked_eq(&b.into_unpack_array(to as isize), s, ax, to) } Err(_) => bad(good) },
        1 => match s.owned().into_pack_array_f::<N>(a) { Ok(b) => { packed_eq(&b, s, ax); unpacked_eq(&b.into_unpack_array(to as isize), s, ax, to) } Err(_) => bad(good) },
        _ => {
            let mut d = s.data.clone();
            let m: TensorMut<i64, Dev, IxD> = match rt::asarray_f((&mut d, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected") };
            match m.into_pack_array_f::<N>(a) { Ok(b) => { packed_eq(&b, s, ax); unpacked_eq(&b.into_unpack_array(to as isize), s, ax, to) } Err(_) => bad(good) }
        }
    }
}
/// tensors packed along an axis
#[no_mangle]
pub extern "C" fn h_pack_tensor() {
    let l: &[&[usize]] = &[&[2], &[3], &[2, 2], &[3, 2], &[2, 3], &[0, 2], &[2, 2, 3]];
    let s = src(l[upick(0, l.len() - 1)], pick(0, 1));
    if pick(0, 1) == 0 { pack_t::<2>(&s, true) } else { pack_t::<3>(&s, true) }
}
#[no_mangle]
pub extern "C" fn h_pack_sym() {
    let l: &[&[usize]] = &[&[2], &[2, 2], &[3, 2], &[2, 2, 2]];
    let sh = l[upick(0, l.len() - if thorough() { 1 } else { 2 })];
    let r = sh.len();
    // symbolic strides of the other axes, offset, over a buffer of even length
    let ax = upick(0, r - 1);
    let st: Vec<isize> = (0..r).map(|k| if k == ax { 1 } else { int(-4, 4) as isize }).collect();
    let lay = match Layout::new(sh.to_vec(), st, uint(8, 10)) { Ok(l) => l, Err(_) => return };
    pack_t::<2>(&Src { data: vals(20), lay }, false);
}
/// owned, shared, copy-on-write and raw forms of a tensor
fn own_run(s: Src) {
    let sh = s.shape();
    let eq = |l: &Layout<IxD>, raw: &Vec<i64>| {
        check(l.shape().to_vec() == sh, "conversion changes the shape");
        for i in indices(&sh) {
            let p = crate::gen::pos(l, &i);
            if p < 0 || p as usize >= raw.len() { fail("element outside the storage") }
            check(raw[p as usize] == s.at(&i), "conversion changes an element");
        }
    };
    // elements of an owned tensor are distinct places
    let own = |t: Tensor<i64, Dev, IxD>| { eq(t.layout(), t.raw()); check((0..sh.len()).all(|k| sh[k] <= 1 || t.layout().stride()[k] != 0) || sh.contains(&0), "owned tensor repeats elements"); };
    let is1 = sh.len() == 1;
    let flat: Vec<i64> = if is1 { (0..sh[0]).map(|i| s.at(&[i])).collect() } else { vec![] };
    let mut d = s.data.clone();
    let m = |d| -> TensorMut<i64, Dev, IxD> { match rt::asarray_f((d, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected") } };
    reach(1);
    match pick(0, 14) {
        0 => own(s.view().into_owned()),
        1 => own(s.view().to_owned()),
        2 => own(m(&mut d).into_owned()),
        3 => { let t = s.owned().into_owned(); own(t) }
        4 => own(s.owned().clone()),
        5 => { let t = s.view().into_shared(); eq(t.layout(), t.raw()); own(t.into_owned()) }
        6 => { let t = s.owned().into_shared(); let u = t.into_shared(); eq(u.layout(), u.raw()); own(u.into_owned()) }
        7 => { let t = s.owned().into_shared(); own(t.view().into_owned()); eq(t.layout(), t.raw()) }
        8 => { let t = s.view().into_cow(); eq(t.layout(), t.raw()); own(t.clone().into_owned()); own(t.into_owned()) }
        9 => { let t = s.owned().into_cow(); eq(t.layout(), t.raw()); own(t.clone().into_owned()); own(t.into_owned()) }
        10 => { let t = m(&mut d).into_cow(); eq(t.layout(), t.raw()); own(t.into_owned()) }
        11 => { let t = s.view().into_owned_keep_layout(); eq(t.layout(), t.raw()); let u = s.owned().into_shared_keep_layout(); eq(u.layout(), u.raw()) }
        12 => match s.view().to_raw_f() { Ok(v) => check(is1 && v == flat, "raw vector has wrong elements"), Err(_) => check(!is1, "vector rejected") },
        13 => match s.owned().into_raw_f() { Ok(v) => check(is1 && v == flat, "raw vector has wrong elements"), Err(_) => check(!is1, "vector rejected") },
        _ => match s.owned().into_vec_f() { Ok(v) => check(is1 && v == flat, "vector has wrong elements"), Err(_) => check(!is1, "vector rejected") },
    }
}
#[no_mangle]
pub extern "C" fn h_own() {
    let l: &[&[usize]] = &[&[], &[3], &[1], &[0], &[2, 3], &[3, 1], &[2, 0], &[2, 2, 2], &[4]];
    own_run(src(l[upick(0, l.len() - 1)], pick(0, 6)))
}
/// any strides and offset over a buffer of any length that holds the layout
#[no_mangle]
pub extern "C" fn h_own_sym() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[2, 2, 2]];
    let sh = l[upick(0, l.len() - if thorough() { 1 } else { 2 })];
    let st: Vec<isize> = sh.iter().map(|_| int(-3, 3) as isize).collect();
    let lay = match Layout::new(sh.to_vec(), st, uint(0, 9)) { Ok(l) => l, Err(_) => return };
    let n = upick(1, 7);
    let (mut lo, mut hi) = (lay.offset() as i64, lay.offset() as i64);
    for k in 0..sh.len() { let e = lay.stride()[k] as i64 * (sh[k] as i64 - 1); if e < 0 { lo += e } else { hi += e } }
    assume(lo >= 0 && hi < n as i64);
    own_run(Src { data: vals(n), lay })
}
/// elements that own memory
#[no_mangle]
pub extern "C" fn h_own_box() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[0], &[1]];
    let sh = l[upick(0, l.len() - 1)];
    let (lay, len) = pattern(sh, pick(0, 6));
    let mk = || -> Vec<Bx> { (0..len).map(|k| Bx(Box::new(k as i64))).collect() };
    let t: Tensor<Bx, Dev, IxD> = match rt::asarray_f((mk(), lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("valid layout rejected") };
    let eq = |l: &Layout<IxD>, raw: &Vec<Bx>| for i in indices(sh) { check(*raw[crate::gen::pos(l, &i) as usize].0 == crate::gen::pos(&lay, &i) as i64, "conversion changes an element that owns memory") };
    reach(1);
    match pick(0, 5) {
        0 => { let u = t.clone(); drop(t); eq(u.layout(), u.raw()) }
        1 => { let u = t.into_owned(); eq(u.layout(), u.raw()) }
        2 => { let u = t.into_shared(); let x = u.into_owned(); eq(x.layout(), x.raw()) }
        3 => { let u = t.view().into_cow().into_owned(); eq(u.layout(), u.raw()); eq(t.layout(), t.raw()) }
        4 => { if let Ok(v) = t.into_vec_f() { check(v.len() == sh[0], "vector has a wrong length"); for i in 0..v.len() { check(*v[i].0 == crate::gen::pos(&lay, &[i]) as i64, "vector has wrong elements") } } }
        _ => { let u = t.view().to_owned(); eq(t.layout(), t.raw()); drop(t); eq(u.layout(), u.raw()) }
    }
}
fn uninit<T>(n: usize) {
    match unsafe { uninitialized_vec::<T>(n) } {
        Ok(mut v) => {
            check(v.len() == n, "uninitialized vector has a wrong length");
            let sz = std::mem::size_of::<T>();
            if n > 0 && sz > 0 {
                let b = block_size(v.as_ptr() as *const u8);
                check(n <= b / sz && v.capacity() <= b / sz, "vector is longer than its memory");
            }
            unsafe { v.set_len(0) }
        }
        Err(_) => check(n > 100, "small vector could not be allocated"),
    }
    reach(1);
}
/// uninitialized vectors of any length
#[no_mangle]
pub extern "C" fn h_uninit() {
    let n = match pick(0, 3) { 0 => [0usize, 1, 3, 127, 128, 129, 200][upick(0, 6)], 1 => (1usize << 61) + uint(0, 1 << 20), 2 => usize::MAX - uint(0, 1 << 20), _ => (1usize << 40) + int(0, 1 << 60) as usize };
    match pick(0, 2) { 0 => uninit::<u64>(n), 1 => uninit::<u8>(n), _ => uninit::<[u64; 3]>(n) }
}

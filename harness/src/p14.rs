//! P14: copies and layout conversions keep shape and content, copies are independent of their source
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

fn shapes() -> Vec<usize> {
    let l: &[&[usize]] = &[&[], &[1], &[3], &[0], &[2, 3], &[3, 1], &[2, 0], &[1, 2, 2], &[2, 2, 2], &[17], &[2, 17], &[2, 1, 3, 2]];
    l[upick(0, if thorough() { l.len() - 1 } else { l.len() - 1 })].to_vec()
}
fn rm(shape: &[usize], f: bool) -> Vec<isize> {
    let r = shape.len();
    let mut st = vec![0; r];
    let mut acc = 1;
    for q in 0..r {
        let k = if f { q } else { r - 1 - q };
        st[k] = acc;
        acc *= shape[k].max(1) as isize;
    }
    st
}
/// contiguous in an order: strides of the axes longer than one are those of the packed layout
fn packed<D: DimAPI>(l: &Layout<D>, f: bool) -> bool {
    let sh = l.shape().as_ref().to_vec();
    if sh.iter().any(|&n| n == 0) { return true; }
    let st = rm(&sh, f);
    (0..sh.len()).all(|k| sh[k] == 1 || l.stride().as_ref()[k] == st[k])
}
fn same<D: DimAPI>(lay: &Layout<D>, raw: &[i64], s: &Src) {
    let sh = s.shape();
    check(lay.shape().as_ref() == &sh[..], "copy has a wrong shape");
    for i in indices(&sh) {
        let p = crate::gen::pos(lay, &i);
        if p < 0 || p as usize >= raw.len() { fail("copy addresses outside its storage") }
        check(raw[p as usize] == s.at(&i), "copy has a wrong element");
    }
}
fn injective<D: DimAPI>(lay: &Layout<D>) -> bool {
    let mut seen = vec![];
    for i in indices(lay.shape().as_ref()) {
        let p = crate::gen::pos(lay, &i);
        if seen.contains(&p) { return false; }
        seen.push(p);
    }
    true
}
/// owned copies, shared copies, copy-on-write handles
#[no_mangle]
pub extern "C" fn h_owned() {
    let s = src(&shapes(), pick(0, NPAT));
    let before = s.data.clone();
    match pick(0, 7) {
        0 => { let t = s.view().into_owned(); same(t.layout(), t.raw(), &s); check(injective(t.layout()), "owned copy of a view has aliased elements"); }
        1 => { let t = s.view().to_owned(); same(t.layout(), t.raw(), &s); }
        2 => { let t = s.owned().into_owned(); same(t.layout(), t.raw(), &s); }
        3 => { let t = s.owned(); let c = t.clone(); same(c.layout(), c.raw(), &s); same(t.layout(), t.raw(), &s); }
        4 => { let t = s.view().into_shared(); same(t.layout(), t.raw(), &s); let o = t.into_owned(); same(o.layout(), o.raw(), &s); }
        5 => { let t = s.owned().into_shared(); same(t.layout(), t.raw(), &s); let mut o = t.to_owned(); o.fill(7777); same(t.layout(), t.raw(), &s); }
        6 => { let t = s.view().into_cow(); same(t.layout(), t.raw(), &s); let c = t.clone(); same(c.layout(), c.raw(), &s); let o = c.into_owned(); same(o.layout(), o.raw(), &s); }
        _ => {
            // a copy is written without touching its source
            let mut t = s.view().into_owned();
            t.fill(7777);
            for i in indices(&s.shape()) { check(t.raw()[crate::gen::pos(t.layout(), &i) as usize] == 7777, "fill missed an element"); }
        }
    }
    reach(1);
    check(s.data == before, "the source of a copy changed");
}
/// copies into an order; packed conversions
#[no_mangle]
pub extern "C" fn h_contig() {
    let s = src(&shapes(), pick(0, NPAT));
    let f = pick(0, 1) == 1;
    let o = if f { FlagOrder::F } else { FlagOrder::C };
    macro_rules! r { ($e:expr) => { match $e { Ok(t) => t, Err(_) => fail("conversion rejected") } } }
    macro_rules! ok { ($t:expr) => {{ let t = $t; same(t.layout(), t.raw(), &s); check(packed(t.layout(), f), "converted tensor is not contiguous in the requested order"); }} }
    match pick(0, 4) {
        0 => { let v = s.view(); ok!(r!(v.to_contig_f(o))); }
        1 => ok!(r!(s.view().into_contig_f(o))),
        2 => ok!(r!(s.view().change_contig_f(o))),
        3 => ok!(r!(s.owned().change_contig_f(o))),
        _ => ok!(r!(s.owned().into_contig_f(o))),
    }
    reach(1);
}
/// conversion into a layout a BLAS-like driver accepts: innermost stride one, strides ordered and non-overlapping
#[no_mangle]
pub extern "C" fn h_prefer() {
    let s = src(&shapes(), pick(0, NPAT));
    let f = pick(0, 1) == 1;
    let o = if f { FlagOrder::F } else { FlagOrder::C };
    macro_rules! r { ($e:expr) => { match $e { Ok(t) => t, Err(_) => fail("conversion rejected") } } }
    macro_rules! ok { ($t:expr) => {{
        let t = $t;
        same(t.layout(), t.raw(), &s);
        let sh = s.shape();
        if !sh.contains(&0) {
            let lt: Layout<IxD> = t.layout().clone(); let st = lt.stride().to_vec();
            let mut last = 0;
            for q in 0..sh.len() {
                let k = if f { q } else { sh.len() - 1 - q };
                if sh[k] == 1 { if last == 0 { last = 1; } continue; }
                check(if last == 0 { st[k] == 1 } else { st[k] >= last }, "preferred layout has wrong strides");
                last = st[k];
            }
        }
    }} }
    match pick(0, 3) {
        0 => { let v = s.view(); ok!(r!(v.to_prefer_f(o))); }
        1 => ok!(r!(s.view().into_prefer_f(o))),
        2 => ok!(r!(s.view().change_prefer_f(o))),
        _ => ok!(r!(s.owned().change_prefer_f(o))),
    }
    reach(1);
}
/// copies with an iteration order
#[no_mangle]
pub extern "C" fn h_asarray() {
    let s = src(&shapes(), pick(0, NPAT));
    let w = pick(0, 3);
    let o = [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::A, TensorIterOrder::K][w as usize];
    macro_rules! r { ($e:expr) => { match $e { Ok(t) => t, Err(_) => fail("copy rejected") } } }
    let t = match pick(0, 2) {
        0 => { let v = s.view(); r!(rt::asarray_f((&v, o))) }
        1 => r!(rt::asarray_f((s.view(), o))),
        _ => r!(rt::asarray_f((s.owned(), o))),
    };
    same(t.layout(), t.raw(), &s);
    if w == 0 { check(packed(t.layout(), false), "row-major copy is not row-major"); }
    if w == 1 { check(packed(t.layout(), true), "column-major copy is not column-major"); }
    reach(1);
}
/// conversion to any layout: elements are taken in row-major order
#[no_mangle]
pub extern "C" fn h_layout() {
    let pairs: &[(&[usize], &[usize])] = &[(&[2, 3], &[3, 2]), (&[2, 3], &[2, 3]), (&[6], &[3, 1, 2]), (&[], &[1]), (&[2, 0], &[0]), (&[2, 2], &[3]), (&[2, 2, 2], &[4, 2]), (&[17], &[17])];
    let (a, b) = pairs[upick(0, pairs.len() - 1)];
    let s = src(a, pick(0, NPAT));
    let (lay, _) = pattern(b, pick(0, 4));
    let fits = a.iter().product::<usize>() == b.iter().product::<usize>();
    macro_rules! go { ($r:expr) => { match $r {
        Ok(t) => {
            check(fits, "layout of another size accepted");
            reach(1);
            check(*t.layout() == lay, "tensor does not have the requested layout");
            for (i, j) in indices(a).iter().zip(indices(b).iter()) {
                let p = crate::gen::pos(t.layout(), j) as usize;
                if p >= t.raw().len() { fail("copy addresses outside its storage") }
                check(t.raw()[p] == s.at(i), "converted tensor has a wrong element");
            }
        }
        // an offset into no elements cannot be honoured
        Err(_) => { check(!fits || (b.contains(&0) && lay.offset() > 0), "layout of the same size rejected"); reach(2); }
    } } }
    match pick(0, 2) {
        0 => { let v = s.view(); go!(v.to_layout_f(lay.clone())) }
        1 => go!(s.view().change_layout_f(lay.clone())),
        _ => go!(s.owned().into_layout_f(lay.clone())),
    }
}
/// the same conversions with elements that own memory: gaps of the target layout must not hold garbage
#[no_mangle]
pub extern "C" fn h_layout_boxed() {
    let sh: Vec<usize> = if pick(0, 1) == 0 { vec![3] } else { vec![2, 2] };
    let n: usize = sh.iter().product();
    let v: Vec<i64> = vals(n);
    let a = match rt::asarray_f((v.iter().map(|&x| Bx(Box::new(x))).collect::<Vec<_>>(), sh.clone(), &Dev::default())) { Ok(t) => t, Err(_) => fail("rejected") };
    let (lay, _) = pattern(&sh, pick(0, 4));
    let t = match pick(0, 1) {
        0 => a.to_layout_f(lay.clone()).map(|t| t.into_owned()),
        _ => a.into_layout_f(lay.clone()),
    };
    let t = match t { Ok(t) => t, Err(_) => fail("layout rejected") };
    reach(1);
    for (k, i) in indices(&sh).iter().enumerate() { check(*t.raw()[crate::gen::pos(t.layout(), i) as usize].0 == v[k], "converted tensor has a wrong element"); }
}
/// static and dynamic dimension conversion
#[no_mangle]
pub extern "C" fn h_dim() {
    let sh = shapes();
    let s = src(&sh, pick(0, NPAT));
    macro_rules! go { ($d:ty, $n:expr) => {{
        let v = s.view();
        match v.to_dim_f::<$d>() {
            Ok(t) => { reach(1); check(sh.len() == $n, "tensor converted to a wrong rank"); same(t.layout(), t.raw(), &s); let u = t.into_dyn(); same(u.layout(), u.raw(), &s); }
            Err(_) => { reach(2); check(sh.len() != $n, "tensor of the right rank rejected"); }
        }
    }} }
    match pick(0, 3) { 0 => go!(Ix0, 0), 1 => go!(Ix1, 1), 2 => go!(Ix2, 2), _ => go!(Ix3, 3) }
}
/// extraction of the raw data of vectors and scalars
#[no_mangle]
pub extern "C" fn h_raw() {
    let sh = shapes();
    let s = src(&sh, pick(0, NPAT));
    let n: usize = sh.iter().product();
    macro_rules! go { ($r:expr) => { match $r {
        Ok(v) => { check(sh.len() == 1, "raw vector of a tensor that is not a vector"); reach(1); check(v.len() == n, "raw vector has a wrong length"); for i in 0..n { check(v[i] == s.at(&[i]), "raw vector has a wrong element"); } }
        Err(_) => { reach(2); check(sh.len() != 1, "raw vector of a vector rejected"); }
    } } }
    match pick(0, 4) {
        0 => go!(s.view().to_raw_f()),
        1 => go!(s.owned().into_raw_f()),
        2 => go!(s.owned().into_vec_f()),
        3 => go!(s.owned().to_raw_f()),
        _ => match s.view().to_scalar_f() {
            Ok(x) => { check(n == 1, "scalar of a tensor with several elements"); check(x == s.at(&vec![0; sh.len()]), "scalar has a wrong value"); reach(3) }
            Err(_) => check(n != 1, "scalar of a one-element tensor rejected"),
        },
    }
}
/// reshape without copy
#[no_mangle]
pub extern "C" fn h_compat() {
    let pairs: &[(&[usize], &[isize])] = &[(&[2, 3], &[3, 2]), (&[2, 3], &[6]), (&[2, 3], &[-1]), (&[6], &[2, -1]), (&[], &[1, 1]), (&[2, 0], &[0, 5]), (&[2, 2], &[3]), (&[2, 2, 2], &[4, 2]), (&[2, 1, 2], &[2, 2]), (&[2, 2], &[-1, -1])];
    let (a, b) = pairs[upick(0, pairs.len() - 1)];
    let s = src(a, pick(0, NPAT));
    let f = pick(0, 1) == 1;
    let o = if f { FlagOrder::F } else { FlagOrder::C };
    let n: isize = a.iter().product::<usize>() as isize;
    let neg = b.iter().filter(|&&x| x < 0).count();
    let known: isize = b.iter().filter(|&&x| x >= 0).product();
    let fits = if neg == 0 { known == n } else { neg == 1 && known > 0 && n % known == 0 };
    let sh: Vec<usize> = b.iter().map(|&x| if x < 0 { if known > 0 { (n / known) as usize } else { 0 } } else { x as usize }).collect();
    let v = s.view();
    match v.to_compatible_shape_f(b.to_vec(), o) {
        Ok(t) => {
            check(fits, "shape of another size accepted");
            reach(1);
            check(t.layout().shape() == &sh, "wrong shape");
            // same elements in the given order, in the same memory
            let (mut ia, mut ib) = (indices(a), indices(&sh));
            if f {
                let rev = |x: &[usize]| -> Vec<Vec<usize>> { let r: Vec<usize> = x.iter().rev().cloned().collect(); indices(&r).into_iter().map(|mut v| { v.reverse(); v }).collect() };
                ia = rev(a);
                ib = rev(&sh);
            }
            for (i, j) in ia.iter().zip(ib.iter()) { check(crate::gen::pos(t.layout(), j) == s.p(i) as isize, "reshaped view addresses a wrong element"); }
        }
        // a contiguous tensor can always be viewed in another shape
        Err(_) => { reach(2); check(!fits || !packed(&s.lay, f), "contiguous tensor cannot be viewed in a shape of the same size"); }
    }
}
/// any layout, symbolic strides and offset
#[no_mangle]
pub extern "C" fn h_copy_sym() {
    let shs: &[&[usize]] = &[&[3], &[2, 2], &[1, 3], &[2, 3]];
    let s = src_sym(shs[upick(0, if thorough() { 3 } else { 2 })], 3, true);
    let before = s.data.clone();
    match pick(0, 4) {
        0 => { let t = s.view().into_owned(); same(t.layout(), t.raw(), &s); }
        1 => { let t = s.owned().into_owned(); same(t.layout(), t.raw(), &s); }
        2 => { let t = s.view().change_contig(FlagOrder::C); same(t.layout(), t.raw(), &s); check(packed(t.layout(), false), "not contiguous"); }
        3 => { let t = s.view().change_contig(FlagOrder::F); same(t.layout(), t.raw(), &s); check(packed(t.layout(), true), "not contiguous"); }
        _ => { let t = s.owned().into_prefer(FlagOrder::C); same(t.layout(), t.raw(), &s); }
    }
    reach(1);
    check(s.data == before, "the source of a copy changed");
}
/// vectors of any stride and offset
#[no_mangle]
pub extern "C" fn h_raw_sym() {
    let n = upick(1, if thorough() { 4 } else { 3 });
    let s = src_sym(&[n], 3, true);
    let v = match pick(0, 2) { 0 => s.view().to_raw_f(), 1 => s.owned().into_raw_f(), _ => s.owned().into_vec_f() };
    let v = match v { Ok(v) => v, Err(_) => fail("rejected") };
    reach(1);
    check(v.len() == n, "raw vector has a wrong length");
    for i in 0..n { check(v[i] == s.at(&[i]), "raw vector has a wrong element"); }
}

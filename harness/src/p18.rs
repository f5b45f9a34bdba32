//! P18: fallible functions report errors, they do not panic
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

const SH: &[&[usize]] = &[&[], &[3], &[0], &[2, 3], &[1, 2], &[1, 2, 1]];
fn some_src() -> Src { src(SH[upick(0, SH.len() - 1)], pick(0, 1) * 5) }
/// one axis: any number, or near the valid range
fn ax() -> isize { if pick(0, 1) == 0 { int(i64::MIN, i64::MAX) as isize } else { int(-4, 4) as isize } }
fn axes() -> AxesIndex<isize> {
    match pick(0, 4) {
        0 => AxesIndex::None,
        1 => AxesIndex::Val(ax()),
        2 => AxesIndex::Vec(vec![]),
        3 => AxesIndex::Vec(vec![ax()]),
        _ => AxesIndex::Vec(vec![ax(), int(-4, 4) as isize]),
    }
}
/// the list names distinct existing axes of a tensor with n axes
fn valid(a: &AxesIndex<isize>, n: usize) -> bool {
    let one = |x: isize| x >= -(n as isize) && x < n as isize;
    match a {
        AxesIndex::None => true,
        AxesIndex::Val(x) => one(*x),
        AxesIndex::Vec(v) => {
            if !v.iter().all(|&x| one(x)) { return false }
            let m: Vec<isize> = v.iter().map(|&x| if x < 0 { x + n as isize } else { x }).collect();
            !(m.len() == 2 && m[0] == m[1])
        }
    }
}
fn count(a: &AxesIndex<isize>) -> usize { match a { AxesIndex::None => 0, AxesIndex::Val(_) => 1, AxesIndex::Vec(v) => v.len() } }
fn rej<X>(r: Result<X>, bad: bool, msg: &'static str) { if bad { check(r.is_err(), msg) } }

/// axis arguments out of range, repeated, missing
#[no_mangle]
pub extern "C" fn h_axes() {
    let s = some_src();
    let v = s.view();
    let n = v.ndim();
    let a = axes();
    let bad = !valid(&a, n);
    let one = |x: isize| x >= -(n as isize) && x < n as isize;
    reach(1);
    match pick(0, 12) {
        0 => { let none = a == AxesIndex::None; let big = !none && !valid(&a, n + count(&a)); let r = v.expand_dims_f(a); check(r.is_err() == (none || big), "expand_dims accepts exactly the valid axes") }
        1 => { let r = v.squeeze_f(a); rej(r, bad, "squeeze accepted an invalid axis") }
        2 => { let k = count(&a); let perm = a == AxesIndex::None || (!bad && k == n); let r = v.transpose_f(a); check(r.is_err() != perm, "transpose accepts exactly the permutations") }
        3 => { let (x, y) = (ax(), ax()); let r = v.swapaxes_f(x, y); check(r.is_err() == !(one(x) && one(y)), "swapaxes accepts exactly the valid axes") }
        4 => { let b = axes(); let none = a == AxesIndex::None || b == AxesIndex::None; let good = !none && !bad && valid(&b, n) && count(&a) == count(&b); let r = v.moveaxis_f(a, b); check(r.is_err() != good, "moveaxis accepts exactly matching valid axes") }
        5 => { let r = v.flip_f(a); check(r.is_err() == bad, "flip accepts exactly the valid axes") }
        6 => { let r = v.sum_axes_f(a); check(r.is_err() == bad, "sum accepts exactly the valid axes") }
        7 => { let r = v.max_axes_f(a); rej(r, bad, "max accepted an invalid axis") }
        8 => { let r = v.argmin_axes_f(a); rej(r, bad, "argmin accepted an invalid axis") }
        9 => { let r = v.axes_iter_f(a); rej(r, bad, "axes_iter accepted an invalid axis") }
        10 => { let r = v.indexed_axes_iter_f(a); rej(r, bad, "indexed_axes_iter accepted an invalid axis") }
        11 => { let (k, x, y) = (ax(), ax(), ax()); let r = v.diagonal_f((k, x, y)); let same = one(x) && one(y) && (if x < 0 { x + n as isize } else { x }) == (if y < 0 { y + n as isize } else { y }); rej(r, !one(x) || !one(y) || same, "diagonal accepted invalid axes") }
        _ => { let mut d = s.data.clone(); let mut m: TensorMut<i64, Dev, IxD> = match rt::asarray_f((&mut d, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => return }; let r = m.axes_iter_mut_f(a); rej(r, bad, "axes_iter_mut accepted an invalid axis") }
    }
}
/// axis lists given as tuples and in other integer types
#[no_mangle]
pub extern "C" fn h_axes_from() {
    let u = |x: u64| x <= i64::MAX as u64;
    reach(1);
    match pick(0, 5) {
        0 => { let (a, b) = (int(i64::MIN, i64::MAX) as u64, int(i64::MIN, i64::MAX) as u64); let r: Result<AxesIndex<isize>> = (a, b).try_into(); match r { Ok(v) => check(u(a) && u(b) && v == AxesIndex::Vec(vec![a as isize, b as isize]), "tuple of axes converted wrongly"), Err(_) => check(!(u(a) && u(b)), "valid tuple of axes rejected") } }
        1 => { let (a, b, c) = (int(i64::MIN, i64::MAX), int(-3, 3) as i32, int(0, 9) as u32); let r: Result<AxesIndex<usize>> = (a, b, c).try_into(); match r { Ok(v) => check(a >= 0 && b >= 0 && v == AxesIndex::Vec(vec![a as usize, b as usize, c as usize]), "tuple of axes converted wrongly"), Err(_) => check(!(a >= 0 && b >= 0), "valid tuple of axes rejected") } }
        2 => { let a = int(i64::MIN, i64::MAX) as u64; let r: Result<AxesIndex<isize>> = vec![0u64, a].try_into(); match r { Ok(v) => check(u(a) && v == AxesIndex::Vec(vec![0, a as isize]), "list of axes converted wrongly"), Err(_) => check(!u(a), "valid list of axes rejected") } }
        3 => { let a = int(i64::MIN, i64::MAX) as u64; let r: Result<AxesIndex<isize>> = match a.try_into() { Ok(x) => Ok(x), Err(e) => Err(e) }; match r { Ok(v) => check(u(a) && v == AxesIndex::Val(a as isize), "axis converted wrongly"), Err(_) => check(!u(a), "valid axis rejected") } }
        4 => { let s = src(&[2, 3], 0); let (a, b) = (int(i64::MIN, i64::MAX) as u64, int(-2, 1)); let v = s.view(); let r = v.sum_axes_f((a, b)); rej(r, a > 1, "sum accepted an invalid axis in a tuple") }
        _ => { let s = src(&[2, 3], 0); let (a, b) = (int(i64::MIN, i64::MAX) as u64, int(i64::MIN, i64::MAX) as u64); let v = s.view(); let r = v.transpose_f((a, b)); check(r.is_err() != (a < 2 && b < 2 && a != b), "transpose accepts exactly the permutations in a tuple") }
    }
}
/// indexing and slicing with too many, repeated or meaningless indexers
#[no_mangle]
pub extern "C" fn h_index() {
    let s = some_src();
    let v = s.view();
    let m = upick(0, if thorough() { 4 } else { 3 });
    let mut ix: Vec<Indexer> = vec![];
    let mut zero = false;
    for k in 0..m {
        ix.push(match if k < 1 { pick(0, 4) } else { pick(2, 5) } {
            0 => Indexer::Select(ax()),
            1 => {
                let st = if pick(0, 1) == 0 { None } else { Some(int(-2, 2) as isize) };
                if let Some(x) = st { zero |= x == 0 }
                Indexer::Slice(SliceI::new(if pick(0, 1) == 0 { None } else { Some(ax()) }, None, st))
            }
            2 => Indexer::Insert,
            3 => Indexer::Ellipsis,
            4 => Indexer::Select(0),
            _ => Indexer::Slice(SliceI::new(None, None, None)),
        });
    }
    let used = ix.iter().filter(|x| matches!(x, Indexer::Select(_) | Indexer::Slice(_))).count();
    let ell = ix.iter().filter(|x| matches!(x, Indexer::Ellipsis)).count();
    reach(1);
    let r = v.slice_f(ix);
    rej(r, used > v.ndim() || ell > 1, "too many indexers accepted");
    let _ = zero;
}
fn small() -> Vec<usize> { let l: &[&[usize]] = &[&[], &[2], &[3], &[0], &[2, 3], &[3, 2], &[2, 0], &[2, 2, 3]]; l[upick(0, l.len() - 1)].to_vec() }
/// operands of unrelated shapes
#[no_mangle]
pub extern "C" fn h_shapes() { shapes(&[0, 1, 2, 3, 6, 7, 10]); }
#[no_mangle]
pub extern "C" fn h_shapes_join() { shapes(&[8, 9]); }
#[no_mangle]
pub extern "C" fn h_shapes_mul() { shapes(&[4, 5, 11]); }
fn shapes(ops: &[i32]) {
    let (x, y) = (small(), small());
    let (mut a, mut b) = (src(&x, pick(0, 1)), src(&y, pick(0, 1)));
    a.data.iter_mut().for_each(|v| *v = 1);
    b.data.iter_mut().for_each(|v| *v = 2);
    let (va, vb) = (a.view(), b.view());
    let fits = bshape(&x, &y).is_some();
    reach(1);
    match ops[upick(0, ops.len() - 1)] {
        0 => { let r = rt::add_f(&va, &vb); check(r.is_err() != fits, "add accepts exactly shapes that broadcast") }
        1 => { let r = rt::maximum_f(&va, &vb); check(r.is_err() != fits, "maximum accepts exactly shapes that broadcast") }
        2 => { let mut t = a.owned(); let r = t.assign_f(&vb); let into = bshape(&x, &y).map_or(false, |s| s == x); check(r.is_err() != into, "assign accepts exactly sources that broadcast to the target") }
        3 => { let mut t = a.owned(); let into = bshape(&x, &y).map_or(false, |s| s == x); let r = rt::sub_assign_f(&mut t, &vb); check(r.is_err() != into, "sub_assign accepts exactly operands that broadcast to the target") }
        4 => { let r = rt::matmul_f(&va, &vb); rej(r, x.is_empty() || y.is_empty() || x[x.len() - 1] != y[if y.len() == 1 { 0 } else { y.len() - 2 }], "matmul accepted incompatible shapes") }
        5 => { let r = rt::vecdot_f(&va, &vb, -1); rej(r, x.is_empty() || y.is_empty() || bshape(&x, &y).is_none(), "vecdot accepted incompatible shapes") }
        6 => { let r = va.to_broadcast_f(y.clone()); let ok = bshape(&x, &y).map_or(false, |s| s == y); check(r.is_err() != ok, "broadcast_to accepts exactly targets the shape broadcasts to") }
        7 => { let r = rt::broadcast_arrays_f(vec![va, vb]); check(r.is_err() != fits, "broadcast_arrays accepts exactly shapes that broadcast") }
        8 => { let same = x == y; let r = rt::stack_f((vec![va, vb], pick(-5, 5) as isize)); rej(r, !same, "stack accepted different shapes") }
        9 => { let k = pick(-5, 5) as isize; let r = rt::concat_f((vec![va, vb], k)); rej(r, x.len() != y.len() || x.is_empty() || k < -(x.len() as isize) || k >= x.len() as isize, "concat accepted different ranks or an invalid axis") }
        10 => { let r = va.mapb_f(&vb, |p: &i64, q: &i64| p + q); check(r.is_err() != fits, "mapb accepts exactly shapes that broadcast") }
        _ => { let mut t = a.owned(); let _ = t.matmul_from_f(&va, &vb, 1i64, 0i64); }
    }
}
/// reshape arguments
#[no_mangle]
pub extern "C" fn h_reshape() {
    let s = some_src();
    let m = upick(0, 3);
    let sh: Vec<isize> = (0..m).map(|_| match pick(0, 3) { 0 => int(-1 << 20, 1 << 20) as isize, 1 => int(-2, 7) as isize, 2 => -1, _ => 1 }).collect();
    reach(1);
    let bad = sh.iter().any(|&x| x < -1) || sh.iter().filter(|&&x| x == -1).count() > 1;
    match pick(0, 1) {
        0 => { let v = s.view(); let r = v.reshape_f(sh); rej(r, bad, "reshape accepted a meaningless shape") }
        _ => { let r = s.owned().into_shape_f(sh); rej(r, bad, "into_shape accepted a meaningless shape") }
    }
}
/// indices, masks, conversions, empty inputs
#[no_mangle]
pub extern "C" fn h_misc() {
    let s = some_src();
    let v = s.view();
    let n = v.ndim();
    let size: usize = v.shape().iter().product();
    reach(1);
    match pick(0, 22) {
        0 => { let k = ax(); let _ = v.index_select_f(k, vec![ax(), 0]); }
        1 => { let _ = v.bool_select_f(ax(), vec![any_bool(), any_bool()]); }
        2 => { let _ = v.take_f(vec![ax()], ax()); }
        3 => { let r = v.to_scalar_f(); check(r.is_err() != (size == 1), "to_scalar accepts exactly one element") }
        4 => { let r = v.max_all_f(); check(r.is_err() == (size == 0), "max rejects exactly empty tensors") }
        5 => { let r = v.argmin_all_f(); check(r.is_err() == (size == 0), "argmin rejects exactly empty tensors") }
        6 => { let r = v.unraveled_argmax_all_f(); check(r.is_err() == (size == 0), "argmax rejects exactly empty tensors") }
        7 => { let r = rt::tril_f((&v, ax())); rej(r, n < 2, "tril accepted fewer than two axes") }
        8 => { let r = rt::diag_f((&v, int(-3, 3) as isize)); rej(r, n == 0 || n > 2, "diag accepted a wrong rank") }
        9 => { let r = v.pack_tril_f(); rej(r, n < 2 || v.shape()[n - 1] != v.shape()[n - 2], "pack accepted a matrix that is not square") }
        10 => { let d: Vec<f64> = s.data.iter().map(|&x| x as f64).collect(); let t: TensorView<f64, Dev, IxD> = match rt::asarray_f((&d, s.lay.clone(), &Dev::default())) { Ok(t) => t, Err(_) => return }; let r = t.unpack_triu_f(FlagSymm::Sy); rej(r, n < 1 || ![0usize, 1, 3, 6].contains(&v.shape()[n - 1]), "unpack accepted a length that is not triangular") }
        11 => { let r = v.to_dim_f::<Ix2>(); check(r.is_err() != (n == 2), "conversion of the rank accepts exactly the rank") }
        12 => { let r = rt::unstack_f((v, ax())); let _ = r; }
        13 => { let e: Vec<TensorView<i64, Dev, IxD>> = vec![]; let r = rt::concat_f((e, ax())); check(r.is_err(), "concat accepted nothing") }
        14 => { let e: Vec<TensorView<i64, Dev, IxD>> = vec![]; let r = rt::stack_f((e, ax())); check(r.is_err(), "stack accepted nothing") }
        15 => { let e: Vec<TensorView<i64, Dev, IxD>> = vec![]; let _ = rt::meshgrid_f((e, "ij", true)); }
        16 => { let r = rt::meshgrid_f((vec![&v, &v], "zz", true)); check(r.is_err(), "meshgrid accepted an unknown indexing") }
        17 => { let r = v.matrix_transpose_f(); rej(r, n < 2, "matrix_transpose accepted fewer than two axes") }
        18 => { let r = s.owned().into_vec_f(); rej(r, n > 1, "to_vec accepted more than one axis") }
        19 => { let _ = v.iter_with_order_f(TensorIterOrder::B).map(|_| ()); let _ = v.indexed_iter_with_order_f(TensorIterOrder::K).map(|_| ()); }
        20 => { let _ = v.to_compatible_shape_f(vec![ax()], RowMajor); }
        21 => { let e: Vec<TensorView<i64, Dev, IxD>> = vec![]; let _ = rt::broadcast_arrays_f(e); let _ = rt::hstack_f(vec![s.view(), s.view()]); let _ = rt::vstack_f(vec![s.view(), s.view()]); }
        _ => { let _ = v.to_layout_f(Layout::<IxD>::new(vec![2, 3], vec![3, 1], 0).unwrap()); }
    }
}
/// layouts that do not fit the data
#[no_mangle]
pub extern "C" fn h_asarray() {
    let dev = Dev::default();
    let r = upick(0, 2);
    let sh: Vec<usize> = (0..r).map(|_| upick(0, 3)).collect();
    let st: Vec<isize> = (0..r).map(|_| if pick(0, 1) == 0 { int(-6, 6) as isize } else { int(-1 << 40, 1 << 40) as isize }).collect();
    let off = if pick(0, 1) == 0 { uint(0, 9) } else { int(0, 1 << 40) as usize };
    let data = vec![1i64; 6];
    let (mut lo, mut hi) = (off as i64, off as i64);
    for k in 0..r { let e = st[k] as i64 * (sh[k] as i64 - 1).max(0); if e < 0 { lo += e } else { hi += e } }
    let empty = sh.iter().any(|&x| x == 0);
    let lay = match Layout::<IxD>::new(sh.clone(), st, off) { Ok(l) => l, Err(_) => return };
    reach(1);
    let r = rt::asarray_f((&data, lay, &dev));
    if !empty { check(r.is_ok() == (lo >= 0 && hi < 6), "a view exists exactly when the layout fits the data") }
}

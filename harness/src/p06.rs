//! P06: iteration visits each element exactly once, in order, from both ends and across splits
use crate::sym::*;
use rstsr_common::prelude_dev::*;

fn unravel(mut k: usize, sh: &[usize], row: bool) -> Vec<usize> {
    let n = sh.len();
    let mut v = vec![0; n];
    for j in 0..n {
        let ax = if row { n - 1 - j } else { j };
        v[ax] = k % sh[ax];
        k /= sh[ax];
    }
    v
}
fn at<D: DimDevAPI>(l: &Layout<D>, ix: &[usize]) -> isize {
    let mut p = l.offset() as isize;
    for k in 0..l.ndim() { p += l.stride()[k] * ix[k] as isize; }
    p
}
/// consume `it`, which must produce want[..]: f from the front, b from the back, then the rest, alternating
fn drain<I, T>(mut it: I, want: &[T], eq: &dyn Fn(&T, &I::Item))
where I: Iterator + DoubleEndedIterator + ExactSizeIterator {
    let n = want.len();
    check(it.len() == n, "iterator reports a wrong length");
    let (mut i, mut j) = (0, n);
    let f = upick(0, n);
    for _ in 0..f { match it.next() { Some(x) => eq(&want[i], &x), None => fail("iterator ends early") } i += 1; }
    let b = upick(0, n - f);
    for _ in 0..b { j -= 1; match it.next_back() { Some(x) => eq(&want[j], &x), None => fail("iterator ends early from the back") } }
    check(it.len() == j - i, "iterator reports a wrong remaining length");
    let mut flip = false;
    while i < j {
        if flip { j -= 1; match it.next_back() { Some(x) => eq(&want[j], &x), None => fail("iterator ends early from the back") } }
        else { match it.next() { Some(x) => eq(&want[i], &x), None => fail("iterator ends early") } i += 1; }
        flip = !flip;
    }
    check(it.next().is_none(), "iterator yields too many elements");
    check(it.next_back().is_none(), "iterator yields too many elements from the back");
    reach(1);
}
fn mk<D: DimDevAPI>(shape: D) -> Layout<D> {
    let mut st = shape.new_stride();
    for k in 0..shape.ndim() { st[k] = int(-1000, 1000) as isize; }
    unsafe { Layout::new_unchecked(shape, st, uint(50000, 100000)) }
}
fn go<D: DimDevAPI>(shape: D) {
    let l = mk(shape);
    let sh = l.shape().as_ref().to_vec();
    let n: usize = sh.iter().product();
    let kind = upick(0, 3);
    let row = kind == 1 || kind == 3;
    let want: Vec<isize> = (0..n).map(|k| at(&l, &unravel(k, &sh, row))).collect();
    let eq = |a: &isize, b: &usize| check(*a == *b as isize, "iteration visits the wrong element");
    let eqi = |a: &(isize, Vec<usize>), b: &(D, usize)| {
        check(a.0 == b.1 as isize, "indexed iteration visits the wrong element");
        for k in 0..a.1.len() { check(a.1[k] == b.0[k], "indexed iteration reports the wrong index") }
    };
    let split = pick(0, 1) == 1;
    macro_rules! run { ($it:expr, $want:expr, $eq:expr) => {{
        let it = match $it { Ok(v) => v, Err(_) => fail("iterator refused") };
        if split {
            let m = upick(0, n);
            let (a, b) = IterSplitAtAPI::split_at(it, m);
            if pick(0, 1) == 0 { drain(a, &$want[..m], $eq) } else { drain(b, &$want[m..], $eq) }
        } else { drain(it, &$want, $eq) }
    }}; }
    match kind {
        0 => run!(IterLayoutColMajor::new(&l), want, &eq),
        1 => run!(IterLayoutRowMajor::new(&l), want, &eq),
        k => {
            let w: Vec<(isize, Vec<usize>)> = (0..n).map(|k| { let u = unravel(k, &sh, row); (at(&l, &u), u) }).collect();
            run!(IndexedIterLayout::new(&l, if k == 2 { ColMajor } else { RowMajor }), w, &eqi)
        }
    }
}
#[no_mangle]
pub extern "C" fn h_iter0() { go([0usize; 0]); }
#[no_mangle]
pub extern "C" fn h_iter1() { go([upick(0, if thorough() { 8 } else { 5 })]); }
#[no_mangle]
pub extern "C" fn h_iter2() { let m = if thorough() { 4 } else { 3 }; go([upick(0, m), upick(0, m)]); }
#[no_mangle]
pub extern "C" fn h_iter3() { let s = [[2, 2, 2], [3, 1, 2], [1, 2, 3], [2, 3, 1], [2, 0, 1], [3, 2, 2]]; go(s[upick(0, if thorough() { 5 } else { 4 })]); }
#[no_mangle]
pub extern "C" fn h_iter4() { let s = [[2, 1, 2, 2], [1, 2, 1, 3], [2, 2, 1, 2], [1, 3, 2, 1], [2, 2, 2, 2]]; go(s[upick(0, if thorough() { 4 } else { 3 })]); }
#[no_mangle]
pub extern "C" fn h_iter5() { let s = [[2, 1, 2, 1, 2], [1, 2, 2, 2, 1], [2, 1, 1, 3, 1], [2, 2, 1, 2, 2]]; go(s[upick(0, if thorough() { 3 } else { 2 })]); }
#[no_mangle]
pub extern "C" fn h_iterd() { let s = [vec![], vec![3], vec![0], vec![2, 3], vec![2, 0], vec![2, 1, 3], vec![1, 2, 2, 2], vec![2, 1, 2, 1, 2]]; go(s[upick(0, 7)].clone()); }

/// layout with symbolic strides (either sign, gaps, optionally one broadcast axis), valid for the public constructor
fn arb(sh: &[usize], bc: bool) -> Layout<IxD> {
    let nd = sh.len();
    let lim = if nd >= 3 && !thorough() { 20 } else { 60 };
    let b = if bc && nd > 0 { upick(0, nd) } else { nd };
    let st: Vec<isize> = (0..nd).map(|k| if k == b { 0 } else { int(-lim, lim) as isize }).collect();
    for k in 0..nd { if k != b { assume(st[k] != 0) } }
    match Layout::new(sh.to_vec(), st, 1000) { Ok(l) => l, Err(_) => { assume(false); unreachable!() } }
}
/// multiset as a sum of values of an arbitrary function: equal for every function exactly when the multisets are equal
fn bag(v: &[(isize, isize)]) -> u64 {
    let mut s = 0u64;
    for x in v { s = s.wrapping_add(uf(1, x.0 as u64, x.1 as u64)); }
    s
}
/// iteration with an order policy: the same multiset of elements; C and F orders are exact
fn order(sh: &[usize]) {
    let l = arb(sh, true);
    let n: usize = sh.iter().product();
    let order = [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::A, TensorIterOrder::K, TensorIterOrder::B, TensorIterOrder::G][upick(0, 5)];
    let translated = pick(0, 1) == 1;
    if !translated && order == TensorIterOrder::B { return }
    let r = if translated { translate_to_col_major_unary(&l, order).and_then(|m| IterLayoutColMajor::new(&m).map(IterLayout::ColMajor)) } else { IterLayout::new(&l, order) };
    let it = match r {
        Ok(i) => i,
        Err(_) => {
            reach(2);
            check(order == TensorIterOrder::B, "order policy refused");
            // sequential memory: refused only when the elements do not fill a memory range exactly once
            let (mut ext, mut bc) = (1isize, false);
            for k in 0..sh.len() {
                let s = l.stride()[k];
                ext += (if s < 0 { -s } else { s }) * (sh[k] as isize - 1);
                if s == 0 && sh[k] > 1 { bc = true }
            }
            check(bc || ext != n as isize, "sequential layout refused");
            return;
        }
    };
    let got: Vec<(isize, isize)> = { let len = it.len(); let v: Vec<_> = it.map(|p| (p as isize, 0)).collect(); check(len == v.len(), "iterator length differs from the number of elements"); v };
    reach(1);
    let row = order == TensorIterOrder::C;
    let dedup = translated && order == TensorIterOrder::G;
    let want: Vec<(isize, isize)> = if dedup {
        // repeats along broadcast axes are dropped
        let m: Vec<usize> = (0..sh.len()).map(|k| if l.stride()[k] == 0 { 1 } else { sh[k] }).collect();
        (0..m.iter().product()).map(|k| (at(&l, &unravel(k, &m, row)), 0)).collect()
    } else { (0..n).map(|k| (at(&l, &unravel(k, sh, row)), 0)).collect() };
    check(got.len() == want.len(), "iteration visits a wrong number of elements");
    if matches!(order, TensorIterOrder::C | TensorIterOrder::F) && !translated {
        for k in 0..n { check(want[k].0 == got[k].0, "iteration visits the wrong element"); }
    } else { check(bag(&want) == bag(&got), "iteration does not visit each element exactly once"); }
}
#[no_mangle]
pub extern "C" fn h_iter_order1() { order(&[[1usize, 3, 4][upick(0, 2)]][..upick(0, 1)]) }
#[no_mangle]
pub extern "C" fn h_iter_order2() { order(&[[3, 2], [1, 3], [3, 1], [2, 2]][upick(0, 3)]) }
#[no_mangle]
pub extern "C" fn h_iter_order3() { order(&[[2, 3, 2], [2, 1, 2], [1, 2, 2]][upick(0, if thorough() { 2 } else { 1 })]) }

/// several layouts iterated together stay aligned: the k-th positions belong to the same multi-index
fn zip(sh: &[usize]) {
    let (a, b) = (arb(sh, true), arb(sh, true));
    let order = [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::A, TensorIterOrder::K][upick(0, 3)];
    let v = match translate_to_col_major(&[&a, &b], order) { Ok(v) => v, Err(_) => fail("common iteration order refused") };
    let n: usize = sh.iter().product();
    let want: Vec<(isize, isize)> = (0..n).map(|k| { let u = unravel(k, sh, true); (at(&a, &u), at(&b, &u)) }).collect();
    let mut got = vec![];
    if pick(0, 1) == 1 {
        let (w, size) = translate_to_col_major_with_contig(&[&v[0], &v[1]]);
        let (ia, ib) = (IterLayoutColMajor::new(&w[0]).unwrap(), IterLayoutColMajor::new(&w[1]).unwrap());
        let size1 = if size == 0 { 1 } else { size };
        for (p, q) in ia.zip(ib) { for t in 0..size1 as isize { got.push((p as isize + t, q as isize + t)); } }
    } else {
        let (ia, ib) = (IterLayoutColMajor::new(&v[0]).unwrap(), IterLayoutColMajor::new(&v[1]).unwrap());
        for (p, q) in ia.zip(ib) { got.push((p as isize, q as isize)); }
    }
    reach(1);
    check(got.len() == n, "common iteration has a wrong number of steps");
    check(bag(&want) == bag(&got), "common iteration pairs elements of different indices");
}
#[no_mangle]
pub extern "C" fn h_iter_zip1() { zip(&[[1usize, 3, 4][upick(0, 2)]][..upick(0, 1)]) }
#[no_mangle]
pub extern "C" fn h_iter_zip2() { zip(&[[3, 2], [1, 3], [2, 2]][upick(0, if thorough() { 2 } else { 1 })]) }
#[no_mangle]
pub extern "C" fn h_iter_zip3() { zip(&[[2, 2, 2], [2, 1, 3]][upick(0, 1)]) }

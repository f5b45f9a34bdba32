//! P13: parallel execution (par configuration only): every work split gives the serial result and no two tasks conflict
use crate::sym::*;
use crate::tgen::*;
use rayon::prelude::*;
use rayon_core::{shim_config, shim_joins};
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::DeviceRayonAPI;
use rstsr_native_impl::prelude_dev::*;

fn ok<X>(r: Result<X>) -> X { match r { Ok(x) => x, Err(_) => fail("valid call rejected") } }
/// number of threads and work-stealing schedule, all explored
fn schedule() -> usize {
    let n = upick(1, 4);
    shim_config(n, [0, 5, 2, 1, 4, 6][upick(0, if thorough() { 5 } else { 2 })]);
    n
}
fn pool(n: usize) -> rayon::ThreadPool { match rayon::ThreadPoolBuilder::new().num_threads(n).build() { Ok(p) => p, Err(_) => fail("pool") } }
fn ishape() -> Vec<usize> {
    let l: &[&[usize]] = &[&[], &[1], &[5], &[0], &[2, 3], &[3, 1], &[2, 0], &[2, 2, 2], &[1, 3, 2]];
    l[upick(0, l.len() - 1)].to_vec()
}
fn order() -> TensorIterOrder { [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::K][upick(0, 2)] }

/// parallel iterators over elements yield what the serial iterator yields, in its order, under adaptors that split or reverse
#[no_mangle]
pub extern "C" fn h_par_iter() {
    schedule();
    let sh = ishape();
    let a = src(&sh, pick(0, NPAT));
    let v = a.view();
    let o = order();
    let want: Vec<i64> = ok(v.iter_with_order_f(o)).copied().collect();
    let n = want.len();
    let p = ok(v.iter_with_order_f(o)).into_par_iter();
    reach(1);
    let same = |g: &[i64]| {
        check(g.len() == n, "parallel iteration visits a wrong number of elements");
        for k in 0..n { check(g[k] == want[k], "parallel iteration visits the wrong element") }
    };
    match pick(0, 5) {
        0 => same(&p.copied().collect::<Vec<_>>()),
        1 => { let mut g = p.rev().copied().collect::<Vec<_>>(); g.reverse(); same(&g) }
        2 => { let g = p.enumerate().map(|(k, x)| (k, *x)).collect::<Vec<_>>(); for (k, x) in g.iter().enumerate() { check(x.0 == k, "parallel enumeration is wrong") } same(&g.iter().map(|x| x.1).collect::<Vec<_>>()) }
        3 => check(p.map(|x| *x).sum::<i64>() == want.iter().sum::<i64>(), "parallel sum differs"),
        4 => { let s = upick(0, n); let mut g = ok(v.iter_with_order_f(o)).into_par_iter().skip(s).copied().collect::<Vec<_>>(); let mut h = p.take(s).copied().collect::<Vec<_>>(); h.append(&mut g); same(&h) }
        _ => same(&p.with_max_len(1).filter(|_| true).copied().collect::<Vec<_>>()),
    }
}
/// indexed parallel iteration reports the multi-index of each element
#[no_mangle]
pub extern "C" fn h_par_indexed() {
    schedule();
    let sh = ishape();
    let a = src(&sh, pick(0, NPAT));
    let v = a.view();
    let row = pick(0, 1) == 0;
    let o = if row { TensorIterOrder::C } else { TensorIterOrder::F };
    let want: Vec<(Vec<usize>, i64)> = ok(v.indexed_iter_with_order_f(o)).map(|(i, x)| (i, *x)).collect();
    let got: Vec<(Vec<usize>, i64)> = ok(v.indexed_iter_with_order_f(o)).into_par_iter().map(|(i, x)| (i, *x)).collect();
    reach(1);
    check(got.len() == want.len(), "indexed parallel iteration visits a wrong number of elements");
    for k in 0..want.len() {
        check(got[k].0 == want[k].0, "indexed parallel iteration reports the wrong index");
        check(got[k].1 == want[k].1 && got[k].1 == a.at(&got[k].0), "indexed parallel iteration visits the wrong element");
    }
}
/// mutable parallel iteration writes each element once and nothing else
#[no_mangle]
pub extern "C" fn h_par_iter_mut() {
    schedule();
    let sh = ishape();
    let a = src(&sh, pick(0, 4));
    let mut t = a.owned();
    let idx = pick(0, 1) == 1;
    let o = if pick(0, 1) == 0 { TensorIterOrder::C } else { TensorIterOrder::F };
    let n: usize = sh.iter().product();
    let vs = vals(n);
    reach(1);
    if idx {
        let shc = sh.clone();
        let lin = move |i: &[usize]| i.iter().zip(&shc).fold(0, |k, (x, d)| k * d + x);
        ok(t.indexed_iter_mut_with_order_f(o)).into_par_iter().for_each(|(i, x)| *x = vs[lin(&i)]);
    } else {
        ok(t.iter_mut_with_order_f(TensorIterOrder::C)).into_par_iter().enumerate().for_each(|(k, x)| *x = vs[k]);
    }
    let mut hit = vec![false; a.data.len()];
    for (k, i) in indices(&sh).iter().enumerate() { check(t.raw()[a.p(i)] == vs[k], "parallel mutable iteration wrote the wrong element"); hit[a.p(i)] = true; }
    for k in 0..hit.len() { if !hit[k] { check(t.raw()[k] == a.data[k], "parallel mutable iteration wrote outside the tensor") } }
}
/// iterators over sub-tensors
#[no_mangle]
pub extern "C" fn h_par_axes() {
    schedule();
    let l: &[(&[usize], &[isize])] = &[(&[3], &[0]), (&[2, 3], &[0]), (&[2, 3], &[1]), (&[2, 3], &[0, 1]), (&[2, 2, 2], &[1]), (&[2, 2, 3], &[2, 0]), (&[0, 2], &[0])];
    let (sh, ax) = l[upick(0, l.len() - 1)];
    let a = src(sh, pick(0, 4));
    let kind = pick(0, 3);
    reach(1);
    match kind {
        0 | 1 => {
            let v = a.view();
            let want: Vec<Vec<i64>> = ok(v.axes_iter_with_order_f(ax, TensorIterOrder::C)).map(|s| s.iter().copied().collect()).collect();
            let got: Vec<Vec<i64>> = if kind == 0 { ok(v.axes_iter_with_order_f(ax, TensorIterOrder::C)).into_par_iter().map(|s| s.iter().copied().collect()).collect() }
                else { ok(v.indexed_axes_iter_with_order_f(ax, TensorIterOrder::C)).into_par_iter().map(|(i, s)| { (i.to_vec(), s.iter().copied().collect()) }).map(|(i, s): (Vec<usize>, Vec<i64>)| { check(i.len() == ax.len() && i.iter().zip(ax).all(|(x, &q)| *x < sh[q as usize]), "sub-tensor index out of range"); s }).collect() };
            check(got.len() == want.len(), "parallel axes iteration yields a wrong number of sub-tensors");
            for k in 0..want.len() { check(got[k].len() == want[k].len(), "sub-tensor has a wrong size"); for j in 0..want[k].len() { check(got[k][j] == want[k][j], "sub-tensor has a wrong element") } }
        }
        _ => {
            let mut t = a.owned();
            if kind == 2 { ok(t.axes_iter_mut_f(ax)).into_par_iter().for_each(|mut s| s.iter_mut().for_each(|x| *x += 7)); }
            else { ok(t.indexed_axes_iter_mut_f(ax)).into_par_iter().for_each(|(_, mut s)| s.iter_mut().for_each(|x| *x += 7)); }
            let mut hit = vec![false; a.data.len()];
            for i in indices(sh) { hit[a.p(&i)] = true; }
            for k in 0..hit.len() { check(t.raw()[k] == a.data[k] + if hit[k] { 7 } else { 0 }, "parallel mutable axes iteration wrote the wrong elements") }
        }
    }
}
/// blocked transposition between row-major and column-major
fn orderchange(n: usize, m: usize) {
    let nt = schedule();
    let pd = [0usize, 1, 3][upick(0, 1)];
    let (ga, gc) = (pick(0, 1) as usize, pick(0, 1) as usize);
    let r2c = pick(0, 1) == 0;
    // `a` row-major (or column-major), `c` the other order, with gaps between rows
    let (la, lc, na, nc);
    if r2c {
        la = ok(Layout::new([n, m], [(m + ga) as isize, 1], pd)); lc = ok(Layout::new([n, m], [1, (n + gc) as isize], pd));
        na = pd + n * (m + ga); nc = pd + m * (n + gc);
    } else {
        la = ok(Layout::new([n, m], [1, (n + ga) as isize], pd)); lc = ok(Layout::new([n, m], [(m + gc) as isize, 1], pd));
        na = pd + m * (n + ga); nc = pd + n * (m + gc);
    }
    let a = vals(na);
    let c0 = vals(nc);
    let mut c = c0.clone();
    let p = pool(nt);
    let use_pool = pick(0, 1) == 1;
    let po = if use_pool { Some(&p) } else { None };
    ok(if r2c { orderchange_out_r2c_ix2_cpu_rayon(&mut c, &lc, &a, &la, po) } else { orderchange_out_c2r_ix2_cpu_rayon(&mut c, &lc, &a, &la, po) });
    reach(1);
    if use_pool && nt > 1 && n * m >= 64 { reach(2); check(shim_joins() > 0, "parallel path not taken"); }
    let mut hit = vec![false; nc];
    for i in 0..n { for j in 0..m {
        let k = crate::gen::pos(&lc, &[i, j]) as usize;
        hit[k] = true;
        check(c[k] == a[crate::gen::pos(&la, &[i, j]) as usize], "order change writes a wrong element");
    } }
    for k in 0..nc { if !hit[k] { check(c[k] == c0[k], "order change wrote outside the matrix") } }
}
#[no_mangle]
pub extern "C" fn h_orderchange() {
    let l = [(8, 8), (9, 8), (3, 22), (22, 3), (7, 10), (2, 3), (1, 65)];
    let (n, m) = l[upick(0, l.len() - 1)];
    orderchange(n, m);
}
/// matrix product of a type without a fast path, any strides, values and schedule
fn gemm(sym: bool) {
    let nt = schedule();
    let l = [(2, 3, 2), (1, 1, 1), (3, 0, 2), (0, 2, 2), (2, 2, 3), (3, 2, 1)];
    let (m, k, n) = l[upick(0, if sym { 0 } else { l.len() - 1 })];
    let (a, b, c) = if sym { (src_sym(&[m, k], 3, true), src(&[k, n], 0), src(&[m, n], 1)) } else { (src(&[m, k], pick(0, 4)), src(&[k, n], pick(0, 2)), src(&[m, n], pick(0, 2))) };
    let (al, be) = [(1, 0), (2, 0), (1, 1), (-3, 2)][upick(0, 3)];
    let mut o = c.data.clone();
    let d = |l: &Layout<IxD>| ok(l.to_dim::<Ix2>());
    let p = pool(nt);
    let po = if pick(0, 1) == 1 { Some(&p) } else { None };
    ok(gemm_ix2_naive_cpu_rayon(&mut o, &d(&c.lay), &a.data, &d(&a.lay), &b.data, &d(&b.lay), al, be, po));
    reach(1);
    let mut hit = vec![false; o.len()];
    for i in 0..m { for j in 0..n {
        let mut s = 0;
        for q in 0..k { s += a.at(&[i, q]) * b.at(&[q, j]); }
        let w = c.p(&[i, j]);
        hit[w] = true;
        check(o[w] == al * s + be * c.data[w], "matrix product has a wrong element");
    } }
    for w in 0..o.len() { if !hit[w] { check(o[w] == c.data[w], "matrix product wrote outside its output") } }
}
#[no_mangle]
pub extern "C" fn h_gemm() { gemm(false) }
#[no_mangle]
pub extern "C" fn h_gemm_sym() { gemm(true) }
#[no_mangle]
pub extern "C" fn h_dot() {
    let nt = schedule();
    let n = [0, 1, 2, 3, 7][upick(0, 4)];
    let (a, b) = (src(&[n], pick(0, 3)), src(&[n], pick(0, 3)));
    let (al, be) = [(1, 0), (2, 0), (1, 1), (-3, 2)][upick(0, 3)];
    let c0 = val();
    let mut c = c0;
    let p = pool(nt);
    let po = if pick(0, 1) == 1 { Some(&p) } else { None };
    ok(inner_dot_naive_cpu_rayon(&mut c, &a.data, &ok(a.lay.to_dim::<Ix1>()), &b.data, &ok(b.lay.to_dim::<Ix1>()), al, be, po));
    reach(1);
    let s: i64 = (0..n).map(|k| a.at(&[k]) * b.at(&[k])).sum();
    check(c == al * s + be * c0, "inner product is wrong");
}
/// tensor operations give the same result with every number of threads, inside or outside another parallel region
fn op(t: &TV, u: &TV, w: &mut T, k: i64) -> Vec<i64> {
    match k {
        0 => (t + u).iter_with_order(TensorIterOrder::C).copied().collect(),
        1 => t.sum_axes(0).iter_with_order(TensorIterOrder::C).copied().collect(),
        2 => vec![t.sum()],
        3 => { w.assign(t); w.iter_with_order(TensorIterOrder::C).copied().collect() }
        4 => { *w += u; w.iter_with_order(TensorIterOrder::C).copied().collect() }
        5 => t.t().to_contig(RowMajor).iter_with_order(TensorIterOrder::C).copied().collect(),
        6 => t.t().matmul(u).iter_with_order(TensorIterOrder::C).copied().collect(),
        7 => vec![t.max()],
        8 => t.index_select(1, [2, 0, 2]).iter_with_order(TensorIterOrder::C).copied().collect(),
        _ => t.mapv(|x| x + 5).iter_with_order(TensorIterOrder::C).copied().collect(),
    }
}
fn op_want(a: &Src, b: &Src, w: &Src, k: i64) -> Vec<i64> {
    let sh = a.shape();
    let ix = indices(&sh);
    match k {
        0 => ix.iter().map(|i| a.at(i) + b.at(i)).collect(),
        1 => (0..sh[1]).map(|j| (0..sh[0]).map(|i| a.at(&[i, j])).sum()).collect(),
        2 => vec![ix.iter().map(|i| a.at(i)).sum()],
        3 => ix.iter().map(|i| a.at(i)).collect(),
        4 => ix.iter().map(|i| w.at(i) + b.at(i)).collect(),
        5 => indices(&[sh[1], sh[0]]).iter().map(|i| a.at(&[i[1], i[0]])).collect(),
        6 => indices(&[sh[1], sh[1]]).iter().map(|i| (0..sh[0]).map(|q| a.at(&[q, i[0]]) * b.at(&[q, i[1]])).sum()).collect(),
        7 => { let mut m = a.at(&ix[0]); for i in &ix { let x = a.at(i); m = if x > m { x } else { m } } vec![m] }
        8 => indices(&[sh[0], 3]).iter().map(|i| a.at(&[i[0], [2, 0, 2][i[1]]])).collect(),
        _ => ix.iter().map(|i| a.at(i) + 5).collect(),
    }
}
#[no_mangle]
pub extern "C" fn h_threads() {
    schedule();
    let k = pick(0, 9);
    let sh: &[usize] = if k == 7 || k == 6 { &[2, 3] } else { &[4, 5] };
    threads(k, src(sh, pick(0, 4)), src(sh, 1), src(sh, 0))
}
/// the same with every stride and offset of the first operand
#[no_mangle]
pub extern "C" fn h_threads_sym() {
    schedule();
    let k = pick(0, 9);
    let sh: &[usize] = if thorough() { &[3, 3] } else { &[2, 3] };
    threads(k, src_sym(sh, 4, true), src(sh, 1), src(sh, 0))
}
fn threads(k: i64, a: Src, b: Src, c: Src) {
    let sh = a.shape();
    let sh: &[usize] = &sh;
    // (a device made inside another pool would take that pool's size, and be a different device)
    let mut w = c.owned();
    let _ = sh;
    let (av, bv) = (a.view(), b.view());
    let nest = pick(0, 2);
    let got = match nest {
        0 => op(&av, &bv, &mut w, k),
        1 => { let mut r = vec![]; pool(2).install(|| r = op(&av, &bv, &mut w, k)); r }
        _ => {
            // two operations at the same time on shared inputs
            let mut w2 = c.owned();
            let (x, y) = rayon::join(|| op(&av, &bv, &mut w, k), || op(&av, &bv, &mut w2, k));
            check(x == y, "concurrent operations on shared inputs disagree");
            x
        }
    };
    reach(1);
    let want = op_want(&a, &b, &c, k);
    check(got.len() == want.len(), "parallel operation has a wrong size");
    for q in 0..want.len() { check(got[q] == want[q], "parallel operation has a wrong element") }
}
/// thread-count setting of a device
#[no_mangle]
pub extern "C" fn h_device() {
    let n = upick(1, 4);
    shim_config(n, 0);
    let mut d = Dev::new(upick(0, 3));
    let k = upick(0, 3);
    d.set_num_threads(k);
    reach(1);
    check(d.get_num_threads() == if k == 0 { n } else { k }, "device reports a wrong number of threads");
    check(d.get_pool().current_num_threads() == if k == 0 { n } else { k }, "the pool has a wrong number of threads");
    check(d.get_current_pool().is_some(), "no pool outside a parallel region");
    let d2 = d.clone();
    check(d2.same_device(&d), "a clone is a different device");
    d.get_pool().install(|| check(d2.get_current_pool().is_none(), "a worker does not reuse the pool it runs in"));
}

//! P12: matrix multiplication
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

/// shape of the product after the documented rules, None if the operands do not match
fn mm_shape(sa: &[usize], sb: &[usize]) -> Option<Vec<usize>> {
    let (na, nb) = (sa.len(), sb.len());
    if na == 0 || nb == 0 { return None; }
    let (ka, kb) = (sa[na - 1], if nb == 1 { sb[0] } else { sb[nb - 2] });
    if ka != kb { return None; }
    let ra: &[usize] = if na >= 2 { &sa[..na - 2] } else { &[] };
    let rb: &[usize] = if nb >= 2 { &sb[..nb - 2] } else { &[] };
    let mut s = bshape(ra, rb)?;
    if na >= 2 { s.push(sa[na - 2]) }
    if nb >= 2 { s.push(sb[nb - 1]) }
    Some(s)
}
/// element of the product at an index of the result
fn mm_at(a: &Src, b: &Src, i: &[usize]) -> i64 {
    let (sa, sb) = (a.shape(), b.shape());
    let (na, nb) = (sa.len(), sb.len());
    let k = sa[na - 1];
    let mut tail = i.len();
    let mut n = None;
    let mut m = None;
    if nb >= 2 { tail -= 1; n = Some(i[tail]) }
    if na >= 2 { tail -= 1; m = Some(i[tail]) }
    let rest = &i[..tail];
    let pick_rest = |s: &[usize], r: usize| -> Vec<usize> { (0..r).map(|q| if s[q] == 1 { 0 } else { rest[rest.len() - r + q] }).collect() };
    let mut acc = 0;
    for p in 0..k {
        let mut ia = if na >= 2 { pick_rest(&sa, na - 2) } else { vec![] };
        let mut ib = if nb >= 2 { pick_rest(&sb, nb - 2) } else { vec![] };
        if let Some(m) = m { ia.push(m) }
        ia.push(p);
        ib.push(p);
        if let Some(n) = n { ib.push(n) }
        acc += a.at(&ia) * b.at(&ib);
    }
    acc
}
fn shapes() -> (&'static [usize], &'static [usize]) {
    let l: &[(&[usize], &[usize])] = &[
        (&[3], &[3]), (&[2], &[3]), (&[0], &[0]), (&[2, 3], &[3, 2]), (&[2, 3], &[2, 3]), (&[2, 0], &[0, 3]), (&[0, 2], &[2, 2]), (&[1, 3], &[3, 1]), (&[1, 1], &[1, 2]),
        (&[3], &[3, 2]), (&[2], &[2, 2, 3]), (&[2], &[3, 2]), (&[2, 3], &[3]), (&[2, 2, 3], &[3]), (&[2, 3], &[2]), (&[], &[2]), (&[2], &[]),
        (&[2, 2], &[2, 2, 3]), (&[2, 3], &[3, 2, 2]), (&[2, 2, 3], &[3, 2]), (&[2, 2, 3], &[2, 3]), (&[2, 2, 1], &[2, 1, 2]), (&[1, 2, 2], &[3, 2, 1]), (&[3, 1, 2], &[1, 2, 2]),
        (&[2, 2, 2], &[3, 2, 2]), (&[0, 2, 2], &[1, 2, 2]), (&[2, 2, 2], &[2, 3, 2]), (&[2, 1, 1, 2], &[1, 2, 2, 1]), (&[2, 1, 2], &[2, 1, 2, 1]), (&[2, 2, 1, 2], &[2, 2, 1]),
    ];
    l[upick(0, l.len() - 1)]
}
/// a @ b with dynamic ranks
#[no_mangle]
pub extern "C" fn h_matmul() {
    let (sa, sb) = shapes();
    let (a, b) = (src(sa, pick(0, NPAT)), src(sb, pick(0, NPAT)));
    let r = if pick(0, 1) == 0 { rt::matmul_f(&a.view(), &b.view()) } else { a.owned().matmul_f(&b.view()) };
    match (mm_shape(sa, sb), r) {
        (Some(sc), Ok(c)) => {
            reach(1);
            check_tensor(&c, &sc, |i| mm_at(&a, &b, i), "product has a wrong shape", "product has a wrong element");
        }
        (None, Err(_)) => reach(2),
        (Some(_), Err(_)) => fail("matching operands rejected"),
        (None, Ok(_)) => fail("operands that do not match accepted"),
    }
}
/// operands of fixed rank
#[no_mangle]
pub extern "C" fn h_matmul_fixed() {
    macro_rules! go {
        ($da:ty, $db:ty, $sa:expr, $sb:expr) => {{
            let (sa, sb): (&[usize], &[usize]) = ($sa, $sb);
            let (a, b) = (src(sa, pick(0, NPAT)), src(sb, pick(0, NPAT)));
            let (va, vb) = (a.view().into_dim::<$da>(), b.view().into_dim::<$db>());
            match (mm_shape(sa, sb), rt::matmul_f(&va, &vb)) {
                (Some(sc), Ok(c)) => {
                    reach(1);
                    check_tensor(&c, &sc, |i| mm_at(&a, &b, i), "product has a wrong shape", "product has a wrong element");
                }
                (None, Err(_)) => reach(2),
                (Some(_), Err(_)) => fail("matching operands rejected"),
                (None, Ok(_)) => fail("operands that do not match accepted"),
            }
        }};
    }
    match pick(0, 9) {
        0 => go!(Ix1, Ix1, &[3], &[3]),
        1 => go!(Ix1, Ix1, &[2], &[3]),
        2 => go!(Ix2, Ix2, &[2, 3], &[3, 2]),
        3 => go!(Ix2, Ix2, &[2, 3], &[2, 3]),
        4 => go!(Ix1, Ix2, &[2], &[2, 3]),
        5 => go!(Ix2, Ix1, &[3, 2], &[2]),
        6 => go!(Ix1, Ix3, &[2], &[2, 2, 3]),
        7 => go!(Ix3, Ix2, &[2, 1, 2], &[2, 3]),
        8 => go!(Ix2, Ix3, &[3, 2], &[2, 2, 1]),
        _ => go!(Ix3, Ix3, &[1, 2, 2], &[2, 2, 1]),
    }
}
/// c <- alpha a @ b + beta c: right elements, nothing else touched, wrong outputs rejected
#[no_mangle]
pub extern "C" fn h_matmul_from() {
    let l: &[(&[usize], &[usize], &[usize])] = &[
        (&[3], &[3], &[]), (&[2, 3], &[3, 2], &[2, 2]), (&[2, 2], &[2, 1], &[2, 2]), (&[1, 2], &[2, 2], &[2, 2]), (&[2], &[2, 3], &[3]), (&[2, 2], &[2], &[2]), (&[2], &[2, 2, 2], &[2, 2]), (&[2], &[2, 2, 2], &[3, 2]),
        (&[2], &[2, 2, 2], &[1, 2]), (&[2, 2, 2], &[2], &[2, 2]), (&[2, 2, 2], &[2], &[3, 2]), (&[2, 1], &[2, 1, 2], &[2, 2, 2]), (&[2, 1], &[2, 1, 2], &[3, 2, 2]), (&[2, 2, 1], &[1, 2], &[2, 2, 2]), (&[2, 2, 1], &[1, 2], &[1, 2, 2]),
        (&[2, 2, 1], &[2, 1, 2], &[2, 2, 2]), (&[1, 2, 1], &[2, 1, 2], &[2, 2, 2]), (&[1, 2, 1], &[1, 1, 2], &[2, 2, 2]), (&[2, 2, 1], &[2, 1, 2], &[1, 2, 2]), (&[2, 2, 1], &[2, 1, 2], &[2, 1, 2]), (&[2, 0], &[0, 2], &[2, 2]),
        (&[2], &[2], &[1]), (&[2, 1], &[1, 2], &[4]), (&[2, 1, 2], &[2, 1, 2, 1], &[2, 2, 1, 1]),
    ];
    let (sa, sb, sc) = l[upick(0, l.len() - 1)];
    let two = pick(0, 2);
    let (a, b) = (src(sa, if two == 0 { pick(0, 4) } else { 0 }), src(sb, if two == 1 { pick(0, 4) } else { 0 }));
    let c = src(sc, if two == 2 { pick(0, NPAT) } else { 4 });
    let bc = (0..sc.len()).any(|k| sc[k] > 1 && c.lay.stride()[k] == 0);
    let (alpha, beta) = (val(), match pick(0, 2) { 0 => 0, 1 => 1, _ => val() });
    let dev = Dev::default();
    let mut data = c.data.clone();
    let r = {
        let mut t = match rt::asarray_f((&mut data, c.lay.clone(), &dev)) { Ok(t) => t, Err(_) => fail("valid layout rejected for a mutable view") };
        t.matmul_from_f(&a.view(), &b.view(), alpha, beta)
    };
    if mm_shape(sa, sb) != Some(sc.to_vec()) {
        reach(2);
        check(r.is_err(), "output of another shape accepted");
    }
    if r.is_err() {
        check(bc || mm_shape(sa, sb) != Some(sc.to_vec()), "matching output rejected");
        for k in 0..data.len() { check(data[k] == c.data[k], "rejected product changed the output"); }
        return;
    }
    check(!bc, "broadcast output accepted");
    reach(1);
    let mut want = c.data.clone();
    for i in indices(sc) { want[c.p(&i)] = alpha * mm_at(&a, &b, &i) + beta * c.at(&i); }
    for k in 0..data.len() { check(data[k] == want[k], "product update leaves a wrong value in the storage"); }
}
/// floating point: a product with no addend does not depend on what the output memory held before
#[no_mangle]
pub extern "C" fn h_matmul_f64() {
    let l: &[(&[usize], &[usize])] = &[(&[2], &[2]), (&[0], &[0]), (&[2, 2], &[2, 2]), (&[2, 0], &[0, 2]), (&[2], &[2, 2]), (&[2, 2], &[2]), (&[2, 1, 2], &[2, 2, 1]), (&[2, 2], &[2, 2, 1])];
    let (sa, sb) = l[upick(0, l.len() - 1)];
    let (a, b) = (src(sa, 0), src(sb, 1));
    let f = |s: &Src| -> Vec<f64> { s.data.iter().map(|&x| x as f64).collect() };
    let (fa, fb) = (f(&a), f(&b));
    let dev = Dev::default();
    let va: TensorView<f64, Dev, IxD> = rt::asarray((&fa, a.lay.clone(), &dev));
    let vb: TensorView<f64, Dev, IxD> = rt::asarray((&fb, b.lay.clone(), &dev));
    let sc = mm_shape(sa, sb).unwrap();
    reach(1);
    let c = if pick(0, 1) == 0 { rt::matmul(&va, &vb) } else {
        let mut c: Tensor<f64, Dev, IxD> = rt::full((sc.clone(), f64::NAN, &dev));
        rt::matmul_with_output(&va, &vb, &mut c);
        c
    };
    check_tensor(&c, &sc, |i| mm_at(&a, &b, i) as f64, "product has a wrong shape", "product depends on the previous content of the output");
}
/// every stride and offset of both operands
#[no_mangle]
pub extern "C" fn h_matmul_sym() {
    let l: &[(&[usize], &[usize])] = &[(&[3], &[3]), (&[2, 2], &[2, 2]), (&[2], &[2, 2]), (&[2, 2], &[2])];
    let (sa, sb) = l[upick(0, l.len() - 1)];
    let one = pick(0, 1);
    let (a, b) = if one == 0 { (src_sym(sa, 3, true), src(sb, 4)) } else { (src(sa, 4), src_sym(sb, 3, true)) };
    let c = match rt::matmul_f(&a.view(), &b.view()) { Ok(c) => c, Err(_) => fail("matching operands rejected") };
    reach(1);
    check_tensor(&c, &mm_shape(sa, sb).unwrap(), |i| mm_at(&a, &b, i), "product has a wrong shape", "product has a wrong element");
}

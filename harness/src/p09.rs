//! P09: elementwise operations and broadcasting assignment
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

fn order() {
    match pick(0, 2) { 0 => {} 1 => unsafe { TensorIterOrder::change_default(TensorIterOrder::C) }, _ => unsafe { TensorIterOrder::change_default(TensorIterOrder::F) } }
}
/// a - b on views, owned operands and mixtures
#[no_mangle]
pub extern "C" fn h_binop() {
    let (sa, sb) = shape_pair();
    let (pa, pb) = (pick(0, NPAT), pick(0, NPAT));
    let (a, b) = (src(&sa, pa), src(&sb, pb));
    order();
    let how = pick(0, 3);
    let r = match how {
        0 => a.view().sub_f(&b.view()),
        1 => rt::sub_f(a.owned(), &b.view()),
        2 => rt::sub_f(a.view(), b.owned()),
        _ => rt::sub_f(a.owned(), b.owned()),
    };
    match (bshape(&sa, &sb), r) {
        (Some(sc), Ok(c)) => {
            reach(1);
            check_tensor(&c, &sc, |i| a.at_bc(i) - b.at_bc(i), "difference has a wrong shape", "difference has a wrong element");
        }
        (None, Err(_)) => reach(2),
        (Some(_), Err(_)) => fail("broadcastable operands rejected"),
        (None, Ok(_)) => fail("operands that do not broadcast accepted"),
    }
}
/// every stride and offset of both operands
#[no_mangle]
pub extern "C" fn h_binop_sym() {
    let l: &[(&[usize], &[usize])] = &[(&[3], &[3]), (&[3], &[1]), (&[2, 2], &[2, 2]), (&[2, 3], &[3]), (&[2, 1], &[2])];
    let (sa, sb) = l[upick(0, l.len() - 1)];
    let (a, b) = (src_sym(sa, 4, true), src_sym(sb, 4, false));
    let c = match a.view().sub_f(&b.view()) { Ok(c) => c, Err(_) => fail("broadcastable operands rejected") };
    let sc = bshape(sa, sb).unwrap();
    reach(1);
    check_tensor(&c, &sc, |i| a.at_bc(i) - b.at_bc(i), "difference has a wrong shape", "difference has a wrong element");
}
/// tensor with scalar, both sides, borrowed and owned
#[no_mangle]
pub extern "C" fn h_scalar() {
    let l: &[&[usize]] = &[&[], &[3], &[0, 2], &[2, 3], &[17], &[2, 16], &[2, 1, 3]];
    let sh = l[upick(0, l.len() - 1)];
    let a = src(sh, pick(0, NPAT));
    let s = val();
    order();
    reach(1);
    let (m1, m2) = ("scalar operation has a wrong shape", "scalar operation has a wrong element");
    let ok = |r: Result<T>| match r { Ok(t) => t, Err(_) => fail("scalar operation rejected") };
    match pick(0, 4) {
        0 => check_tensor(&ok(rt::sub_f(a.view(), s)), sh, |i| a.at(i) - s, m1, m2),
        1 => check_tensor(&ok(rt::sub_f(a.owned(), s)), sh, |i| a.at(i) - s, m1, m2),
        2 => check_tensor(&ok(rt::sub_f(s, a.view())), sh, |i| s - a.at(i), m1, m2),
        3 => check_tensor(&ok(rt::sub_f(s, a.owned())), sh, |i| s - a.at(i), m1, m2),
        _ => check_tensor(&(-&a.view()), sh, |i| -a.at(i), m1, m2),
    }
}
/// the remaining operators compute their own function, operands in order
#[no_mangle]
pub extern "C" fn h_ops() {
    let sh: &[usize] = &[2];
    let a = Src { data: (0..2).map(|_| int(-30, 30)).collect(), lay: pattern(sh, 0).0 };
    let b = Src { data: (0..2).map(|_| int(1, 5)).collect(), lay: pattern(sh, 1).0 };
    let (va, vb) = (a.view(), b.view());
    let how = pick(0, 3);
    reach(1);
    macro_rules! op {
        ($opf:ident, $f:expr) => {{
            let f: fn(i64, i64) -> i64 = $f;
            let c = match how {
                0 => rt::$opf(&va, &vb), 1 => rt::$opf(a.owned(), &vb), 2 => rt::$opf(&va, b.owned()), _ => rt::$opf(a.owned(), b.owned()),
            };
            let c = match c { Ok(c) => c, Err(_) => fail("operation rejected") };
            check_tensor(&c, sh, |i| f(a.at(i), b.at(i)), "operation has a wrong shape", "operation computes a wrong element");
        }};
    }
    match pick(0, 8) {
        0 => op!(add_f, |x, y| x + y),
        1 => op!(mul_f, |x, y| x * y),
        2 => op!(div_f, |x, y| x / y),
        3 => op!(rem_f, |x, y| x % y),
        4 => op!(bitand_f, |x, y| x & y),
        5 => op!(bitor_f, |x, y| x | y),
        6 => op!(bitxor_f, |x, y| x ^ y),
        7 => op!(shl_f, |x, y| x << y),
        _ => op!(shr_f, |x, y| x >> y),
    }
}
/// comparisons and selections
#[no_mangle]
pub extern "C" fn h_cmp() {
    let (sa, sb) = shape_pair();
    let sc = match bshape(&sa, &sb) { Some(s) => s, None => { assume(false); return } };
    if sc.iter().product::<usize>() > 12 { assume(false) }
    let (pa, pb) = (pick(0, NPAT), if thorough() { pick(0, NPAT) } else { 1 });
    let (a, b) = (src(&sa, pa), src(&sb, pb));
    let (va, vb) = (a.view(), b.view());
    reach(1);
    macro_rules! op {
        ($opf:ident, $ty:ty, $f:expr) => {{
            let f: fn(i64, i64) -> $ty = $f;
            let c = match rt::$opf(&va, &vb) { Ok(c) => c, Err(_) => fail("comparison rejected") };
            check_tensor(&c, &sc, |i| f(a.at_bc(i), b.at_bc(i)), "comparison has a wrong shape", "comparison computes a wrong element");
        }};
    }
    match pick(0, 7) {
        0 => op!(less_f, bool, |x, y| x < y),
        1 => op!(less_equal_f, bool, |x, y| x <= y),
        2 => op!(greater_f, bool, |x, y| x > y),
        3 => op!(greater_equal_f, bool, |x, y| x >= y),
        4 => op!(equal_f, bool, |x, y| x == y),
        5 => op!(not_equal_f, bool, |x, y| x != y),
        6 => op!(maximum_f, i64, |x, y| if x > y { x } else { y }),
        _ => op!(minimum_f, i64, |x, y| if x < y { x } else { y }),
    }
}

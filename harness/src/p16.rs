//! P16: elementwise functions and closures
use crate::gen::pos;
use crate::sym::*;
use crate::tgen::*;
use num::complex::Complex;
use num::Float;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

type TX<X> = Tensor<X, Dev, IxD>;
fn shapes() -> Vec<usize> {
    let l: &[&[usize]] = &[&[2, 2], &[3], &[], &[0, 2], &[2, 1, 2], &[17]];
    l[upick(0, if thorough() { 5 } else { 4 })].to_vec()
}
fn ok<X>(r: Result<X>) -> X { match r { Ok(t) => t, Err(_) => fail("elementwise function rejected") } }
/// finite numbers of both signs with fractions
fn fval() -> f64 { int(-4000, 4000) as f64 * 0.0625 }
fn chk<X: Copy, Y: Copy>(t: &TX<Y>, sh: &[usize], data: &[X], lay: &Layout<IxD>, same: impl Fn(Y, X) -> bool)
where Dev: DeviceRawAPI<Y, Raw = Vec<Y>> {
    check(t.ndim() == sh.len() && t.shape() == &sh.to_vec(), "elementwise function has a wrong shape");
    let raw = t.raw();
    for i in indices(sh) {
        let p = pos(t.layout(), &i);
        if p < 0 || p as usize >= raw.len() { fail("element outside the storage") }
        check(same(raw[p as usize], data[pos(lay, &i) as usize]), "elementwise function computes a wrong element");
    }
}
fn eqf(x: f64, y: f64) -> bool { x.to_bits() == y.to_bits() }
macro_rules! un {
    ($op:ident, $how:expr, $data:expr, $lay:expr, $sh:expr, $same:expr) => {{
        let dev = Dev::default();
        let v: TensorView<_, Dev, IxD> = ok(rt::asarray_f((&$data, $lay.clone(), &dev)));
        let t = match $how { 0 => ok(rt::$op(&v)), 1 => ok(rt::$op(v)), _ => { let o: Tensor<_, Dev, IxD> = ok(rt::asarray_f(($data.clone(), $lay.clone(), &dev))); ok(rt::$op(o)) } };
        chk(&t, &$sh, &$data, &$lay, $same)
    }};
}
macro_rules! unref {
    ($op:ident, $data:expr, $lay:expr, $sh:expr, $same:expr) => {{
        let v: TensorView<_, Dev, IxD> = ok(rt::asarray_f((&$data, $lay.clone(), &Dev::default())));
        let t = if pick(0, 1) == 0 { ok(rt::$op(&v)) } else { ok(rt::$op(v)) };
        chk(&t, &$sh, &$data, &$lay, $same)
    }};
}
/// functions with floating-point results, applied to a reference, a view and an owned tensor
#[no_mangle]
pub extern "C" fn h_float() {
    let f = pick(0, 25);
    let sh = if f == 0 || thorough() { shapes() } else { vec![2] };
    let (lay, len) = pattern(&sh, if f == 0 || thorough() { pick(0, NPAT) } else { 2 });
    let d: Vec<f64> = (0..len).map(|_| fval()).collect();
    let how = pick(0, 2);
    reach(1);
    match f {
        0 => un!(ceil_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.ceil())),
        1 => un!(acos_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.acos())),
        2 => un!(acosh_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.acosh())),
        3 => un!(asin_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.asin())),
        4 => un!(asinh_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.asinh())),
        5 => un!(atan_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.atan())),
        6 => un!(atanh_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.atanh())),
        7 => un!(conj_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x)),
        8 => un!(cos_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.cos())),
        9 => un!(cosh_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.cosh())),
        10 => un!(exp_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.exp())),
        11 => un!(expm1_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.exp_m1())),
        12 => un!(floor_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.floor())),
        13 => un!(inv_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, 1.0 / x)),
        14 => un!(log_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.ln())),
        15 => un!(log2_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.log2())),
        16 => un!(log10_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.log10())),
        17 => un!(reciprocal_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, 1.0 / x)),
        18 => un!(round_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.round())),
        19 => un!(sin_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.sin())),
        20 => un!(sinh_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.sinh())),
        21 => un!(sqrt_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.sqrt())),
        22 => un!(tan_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.tan())),
        23 => un!(tanh_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.tanh())),
        24 => un!(trunc_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x.trunc())),
        _ => un!(square_f, how, d, lay, sh, |y: f64, x: f64| eqf(y, x * x)),
    }
}
/// integers are converted to floating point first
#[no_mangle]
pub extern "C" fn h_float_of_int() {
    let sh = shapes();
    let (lay, len) = pattern(&sh, pick(0, NPAT));
    reach(1);
    match pick(0, 3) {
        0 => { let d: Vec<i64> = (0..len).map(|_| int(-1 << 40, 1 << 40)).collect(); unref!(sin_f, d, lay, sh, |y: f64, x: i64| eqf(y, (x as f64).sin())) }
        1 => { let d: Vec<i64> = (0..len).map(|_| int(-1 << 40, 1 << 40)).collect(); unref!(reciprocal_f, d, lay, sh, |y: f64, x: i64| eqf(y, 1.0 / (x as f64))) }
        2 => { let d: Vec<i32> = (0..len).map(|_| int(-1 << 31, (1 << 31) - 1) as i32).collect(); unref!(exp_f, d, lay, sh, |y: f64, x: i32| eqf(y, (x as f64).exp())) }
        _ => { let d: Vec<i64> = (0..len).map(|_| val()).collect(); un!(square_f, pick(0, 2), d, lay, sh, |y: i64, x: i64| y == x * x) }
    }
}
/// predicates of every double, and the sign of integers
#[no_mangle]
pub extern "C" fn h_pred() {
    let f = pick(0, 4);
    let sh: Vec<usize> = if thorough() { shapes() } else if pick(0, 1) == 0 { vec![2] } else { vec![0, 2] };
    let (lay, len) = pattern(&sh, pick(0, if thorough() { NPAT } else { 2 }));
    let nan = |b: u64| (b << 1) > (0x7ffu64 << 53);
    let inf = |b: u64| (b << 1) == (0x7ffu64 << 53);
    let d: Vec<f64> = (0..len).map(|_| f64::from_bits(int(i64::MIN, i64::MAX) as u64)).collect();
    reach(1);
    match f {
        0 => unref!(is_nan_f, d, lay, sh, |y: bool, x: f64| y == nan(x.to_bits())),
        1 => unref!(is_inf_f, d, lay, sh, |y: bool, x: f64| y == inf(x.to_bits())),
        2 => unref!(is_finite_f, d, lay, sh, |y: bool, x: f64| y == ((x.to_bits() << 1) < (0x7ffu64 << 53))),
        3 => unref!(signbit_f, d, lay, sh, |y: bool, x: f64| y == ((x.to_bits() as i64) < 0)),
        _ => { let d: Vec<i64> = (0..len).map(|_| int(i64::MIN, i64::MAX)).collect(); unref!(signbit_f, d, lay, sh, |y: bool, x: i64| y == (x < 0)) }
    }
}
/// abs, sign, real, imag and negation
#[no_mangle]
pub extern "C" fn h_parts() {
    let f = pick(0, 12);
    let sh = if f == 0 || thorough() { shapes() } else { vec![2, 2] };
    let (lay, len) = pattern(&sh, pick(0, NPAT));
    let how = pick(0, 2);
    let di: Vec<i64> = (0..len).map(|_| int(-1 << 62, 1 << 62)).collect();
    reach(1);
    match f {
        0 => un!(abs_f, how, di, lay, sh, |y: i64, x: i64| y == if x < 0 { -x } else { x }),
        1 => un!(sign_f, how, di, lay, sh, |y: i64, x: i64| y == (x > 0) as i64 - (x < 0) as i64),
        2 => un!(real_f, how, di, lay, sh, |y: i64, x: i64| y == x),
        3 => un!(imag_f, how, di, lay, sh, |y: i64, _: i64| y == 0),
        4 => { let d: Vec<u32> = di.iter().map(|&x| x as u32).collect(); un!(abs_f, how, d, lay, sh, |y: u32, x: u32| y == x) }
        5 => { let d: Vec<u32> = di.iter().map(|&x| x as u32).collect(); un!(sign_f, how, d, lay, sh, |y: u32, x: u32| y == (x != 0) as u32) }
        6 => { let d: Vec<f64> = (0..len).map(|_| fval()).collect(); un!(abs_f, how, d, lay, sh, |y: f64, x: f64| y == if x < 0.0 { -x } else { x }) }
        7 => { let d: Vec<f64> = (0..len).map(|_| fval()).collect(); un!(sign_f, how, d, lay, sh, |y: f64, x: f64| y == if x < 0.0 { -1.0 } else if x > 0.0 { 1.0 } else { 0.0 }) }
        8 => un!(neg_f, how, di, lay, sh, |y: i64, x: i64| y == -x),
        9 => un!(not_f, how, di, lay, sh, |y: i64, x: i64| y == -1 - x),
        _ => {
            let d: Vec<Complex<f64>> = (0..len).map(|_| Complex::new(fval(), fval())).collect();
            match f {
                10 => unref!(real_f, d, lay, sh, |y: f64, x: Complex<f64>| y == x.re),
                11 => unref!(imag_f, d, lay, sh, |y: f64, x: Complex<f64>| y == x.im),
                _ => un!(conj_f, how, d, lay, sh, |y: Complex<f64>, x: Complex<f64>| y.re == x.re && y.im == -x.im),
            }
        }
    }
}
/// every stride and offset
#[no_mangle]
pub extern "C" fn h_unary_sym() {
    let l: &[&[usize]] = &[&[3], &[2, 2], &[1, 3]];
    let sh = l[upick(0, 2)];
    let s = src_sym(sh, 4, true);
    let dev = Dev::default();
    reach(1);
    match pick(0, 3) {
        0 => chk(&ok(rt::neg_f(&s.view())), sh, &s.data, &s.lay, |y: i64, x: i64| y == -x),
        1 => chk(&ok(s.view().map_f(|x: &i64| uf(3, *x as u64, 0) as i64)), sh, &s.data, &s.lay, |y: i64, x: i64| y == uf(3, x as u64, 0) as i64),
        k => {
            let before = s.data.clone();
            let mut data = s.data.clone();
            let mut t: TensorMut<i64, Dev, IxD> = ok(rt::asarray_f((&mut data, s.lay.clone(), &dev)));
            if k == 2 { ok(t.mapi_f(|x: &mut i64| *x = uf(4, *x as u64, 0) as i64)) } else { ok(t.mapvi_f(|x: i64| uf(4, x as u64, 0) as i64)) }
            drop(t);
            mapped(&before, &data, &s.lay, sh)
        }
    }
}
/// exactly the addressed elements were mapped, once
fn mapped(before: &[i64], after: &[i64], lay: &Layout<IxD>, sh: &[usize]) {
    let hit: Vec<isize> = indices(sh).iter().map(|i| pos(lay, i)).collect();
    for p in 0..before.len() {
        let named = hit.iter().any(|&q| q == p as isize);
        let want = if named { uf(4, before[p] as u64, 0) as i64 } else { before[p] };
        check(after[p] == want, "in-place map is not one application to each addressed element");
    }
}
/// closures by reference and by value, with and without mutable state
#[no_mangle]
pub extern "C" fn h_map() {
    let sh = shapes();
    let s = src(&sh, pick(0, NPAT));
    let n: usize = sh.iter().product();
    let g = |x: i64| uf(4, x as u64, 0) as i64;
    let same = |y: i64, x: i64| y == uf(4, x as u64, 0) as i64;
    let v = s.view();
    reach(1);
    match pick(0, 7) {
        0 => chk(&ok(v.map_f(move |x: &i64| g(*x))), &sh, &s.data, &s.lay, same),
        1 => chk(&ok(v.mapv_f(g)), &sh, &s.data, &s.lay, same),
        2 => chk(&ok(s.owned().map_f(move |x: &i64| (g(*x), *x))), &sh, &s.data, &s.lay, |y: (i64, i64), x: i64| same(y.0, x) && y.1 == x),
        #[cfg(not(feature = "par"))]
        3 => { let mut c = 0; chk(&ok(v.map_fnmut_f(|x: &i64| { c += 1; g(*x) })), &sh, &s.data, &s.lay, same); check(c == n, "closure is not called once for each element") }
        #[cfg(not(feature = "par"))]
        4 => { let mut c = 0; chk(&ok(v.mapv_fnmut_f(|x: i64| { c += 1; g(x) })), &sh, &s.data, &s.lay, same); check(c == n, "closure is not called once for each element") }
        k => {
            let mut data = s.data.clone();
            let dev = Dev::default();
            let mut t: TensorMut<i64, Dev, IxD> = ok(rt::asarray_f((&mut data, s.lay.clone(), &dev)));
            match k {
                5 => ok(t.mapi_f(move |x: &mut i64| *x = g(*x))),
                #[cfg(not(feature = "par"))]
                6 => { let mut c = 0; ok(t.mapi_fnmut_f(|x: &mut i64| { c += 1; *x = g(*x) })); let mut h: Vec<isize> = indices(&sh).iter().map(|i| pos(&s.lay, i)).collect(); h.sort(); h.dedup(); check(c == h.len(), "closure is not called once for each stored element") }
                #[cfg(not(feature = "par"))]
                _ => ok(t.mapvi_fnmut_f(g)),
                #[cfg(feature = "par")]
                _ => ok(t.mapvi_f(g)),
            }
            drop(t);
            mapped(&s.data, &data, &s.lay, &sh)
        }
    }
}
/// closures of two operands
#[no_mangle]
pub extern "C" fn h_mapb() {
    let (sa, sb) = shape_pair();
    let (a, b) = (src(&sa, pick(0, NPAT)), src(&sb, if thorough() { pick(0, NPAT) } else { 2 }));
    let (va, vb) = (a.view(), b.view());
    let g = |x: i64, y: i64| uf(5, x as u64, y as u64) as i64;
    let mut c = 0;
    let how = pick(0, 3);
    let r = match how {
        0 => va.mapb_f(&vb, move |x: &i64, y: &i64| g(*x, *y)),
        1 => va.mapvb_f(&vb, g),
        #[cfg(not(feature = "par"))]
        2 => va.mapb_fnmut_f(&vb, |x: &i64, y: &i64| { c += 1; g(*x, *y) }),
        #[cfg(feature = "par")]
        _ => va.mapb_f(&vb, move |x: &i64, y: &i64| g(*x, *y)),
        #[cfg(not(feature = "par"))]
        _ => va.mapvb_fnmut_f(&vb, |x: i64, y: i64| { c += 1; g(x, y) }),
    };
    match (bshape(&sa, &sb), r) {
        (Some(sc), Ok(t)) => {
            reach(1);
            check_tensor(&t, &sc, |i| g(a.at_bc(i), b.at_bc(i)), "map of two tensors has a wrong shape", "map of two tensors has a wrong element");
            if how >= 2 && !cfg!(feature = "par") { check(c == sc.iter().product::<usize>(), "closure is not called once for each pair") }
        }
        (None, Err(_)) => reach(2),
        (Some(_), Err(_)) => fail("broadcastable operands rejected"),
        (None, Ok(_)) => fail("operands that do not broadcast accepted"),
    }
}
/// functions of two operands: tensors, and a tensor with a number on either side
#[no_mangle]
pub extern "C" fn h_binary() {
    let f = pick(0, 7);
    let (sa, sb): (&[usize], &[usize]) = [(&[2usize, 2][..], &[2usize, 2][..]), (&[2, 1], &[2]), (&[0], &[1])][upick(0, 2)];
    let ((la, na), (lb, nb)) = (pattern(sa, pick(0, 3)), pattern(sb, 2));
    let (x, y): (Vec<f64>, Vec<f64>) = ((0..na).map(|_| fval()).collect(), (0..nb).map(|_| fval()).collect());
    let (s, how, dev) = (fval(), pick(0, 2), Dev::default());
    let sc = if how == 0 { bshape(sa, sb).unwrap() } else if how == 1 { sa.to_vec() } else { sb.to_vec() };
    let at = |d: &[f64], l: &Layout<IxD>, i: &[usize]| { let r = l.ndim(); let v: Vec<usize> = (0..r).map(|k| if l.shape()[k] == 1 { 0 } else { i[i.len() - r + k] }).collect(); d[pos(l, &v) as usize] };
    let va: TensorView<f64, Dev, IxD> = ok(rt::asarray_f((&x, la.clone(), &dev)));
    let vb: TensorView<f64, Dev, IxD> = ok(rt::asarray_f((&y, lb.clone(), &dev)));
    reach(1);
    macro_rules! op2 {
        ($opf:ident, $f:expr) => {{
            let f: fn(f64, f64) -> f64 = $f;
            let t: TX<f64> = match how { 0 => ok(rt::$opf(&va, &vb)), 1 => ok(rt::$opf(&va, s)), _ => ok(rt::$opf(s, &vb)) };
            check(t.shape() == &sc, "binary function has a wrong shape");
            for i in indices(&sc) {
                let (p, q) = match how { 0 => (at(&x, &la, &i), at(&y, &lb, &i)), 1 => (at(&x, &la, &i), s), _ => (s, at(&y, &lb, &i)) };
                check(eqf(t.raw()[pos(t.layout(), &i) as usize], f(p, q)), "binary function computes a wrong element");
            }
        }};
    }
    match f {
        0 => op2!(atan2_f, |p, q| p.atan2(q)),
        1 => op2!(copysign_f, |p, q| f64::from_bits((p.to_bits() & !(1 << 63)) | (q.to_bits() & (1 << 63)))),
        2 => op2!(hypot_f, |p, q| p.hypot(q)),
        3 => op2!(log_add_exp_f, |p, q| (p.exp() + q.exp()).ln()),
        4 => op2!(pow_f, |p, q| p.powf(q)),
        5 => op2!(floor_divide_f, |p, q| (p / q).floor()),
        6 => op2!(maximum_f, |p, q| Float::max(p, q)),
        _ => op2!(minimum_f, |p, q| Float::min(p, q)),
    }
}
/// integer floor division rounds toward negative infinity
#[no_mangle]
pub extern "C" fn h_floor_div() {
    let d = [int(-40, 40), int(-40, 40)];
    let e = [pick(-4, 4), 3];
    if e[0] == 0 { assume(false) }
    let dev = Dev::default();
    let (da, db) = (d.to_vec(), e.to_vec());
    let a: TensorView<i64, Dev, IxD> = ok(rt::asarray_f((&da, vec![2].c(), &dev)));
    let b: TensorView<i64, Dev, IxD> = ok(rt::asarray_f((&db, vec![2].c(), &dev)));
    let how = pick(0, 1);
    let t: TX<i64> = if how == 0 { ok(rt::floor_divide_f(&a, &b)) } else { ok(rt::floor_divide_f(&a, e[0])) };
    reach(1);
    for k in 0..2 {
        let (x, y) = (d[k], if how == 0 { e[k] } else { e[0] });
        let q = t.raw()[k];
        let r = x - q * y;
        check(if y > 0 { 0 <= r && r < y } else { y < r && r <= 0 }, "floor division does not round toward negative infinity");
    }
}
/// the smallest next double in a direction
#[no_mangle]
pub extern "C" fn h_nextafter() {
    let (u, w) = (int(0, 0x7fe << 52) as u64, [f64::INFINITY, 0.0, -3.5][upick(0, 2)]);
    let neg = pick(0, 1) == 1;
    let x = f64::from_bits(u | (neg as u64) << 63);
    let (da, dev) = (vec![x], Dev::default());
    let a: TensorView<f64, Dev, IxD> = ok(rt::asarray_f((&da, vec![1].c(), &dev)));
    let t: TX<f64> = ok(rt::nextafter_f(&a, w));
    let y = t.raw()[0];
    // doubles in numerical order
    let ord = |v: f64| { let b = v.to_bits() as i64; if b < 0 { i64::MIN.wrapping_sub(b) } else { b } };
    reach(1);
    let (ox, oy, ow) = (ord(x), ord(y), ord(w));
    check(oy == ox + (ow > ox) as i64 - (ow < ox) as i64, "nextafter is not the adjacent number");
}

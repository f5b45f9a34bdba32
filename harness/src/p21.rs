//! P21: mixed element types: promotion, casts, and the numeric helpers behind element-wise operations
use crate::sym::*;
use crate::tgen::{check_tensor, Dev};
use num::complex::Complex;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;
use rstsr_dtype_traits::{isclose, DTypeCastAPI, DTypeIntoFloatAPI, DTypePromoteAPI, ExtNum, ExtReal, IsCloseArgs};

/// scalar: what kind it is, any value, and its value as canonical bits
trait Sc: Copy { const K: u8; const S: usize; fn mk() -> Self; fn w(self) -> (u64, u64); }
macro_rules! ints { ($k:expr; $($t:ty),*) => { $(impl Sc for $t {
    const K: u8 = $k; const S: usize = std::mem::size_of::<$t>();
    fn mk() -> Self { if Self::S == 8 { int(i64::MIN, i64::MAX) as $t } else { int(<$t>::MIN as i64, <$t>::MAX as i64) as $t } }
    fn w(self) -> (u64, u64) { (self as u64, 0) }
})* } }
ints!(1; i8, i16, i32, i64, isize);
ints!(2; u8, u16, u32, u64, usize);
impl Sc for bool { const K: u8 = 0; const S: usize = 1; fn mk() -> Self { any_bool() } fn w(self) -> (u64, u64) { (self as u64, 0) } }
impl Sc for f32 { const K: u8 = 3; const S: usize = 4; fn mk() -> Self { f32::from_bits(int(0, u32::MAX as i64) as u32) } fn w(self) -> (u64, u64) { (self.to_bits() as u64, 0) } }
impl Sc for f64 { const K: u8 = 3; const S: usize = 8; fn mk() -> Self { f64::from_bits(int(i64::MIN, i64::MAX) as u64) } fn w(self) -> (u64, u64) { (self.to_bits(), 0) } }
impl Sc for Complex<f32> { const K: u8 = 4; const S: usize = 4; fn mk() -> Self { Complex::new(f32::mk(), f32::mk()) } fn w(self) -> (u64, u64) { (self.re.to_bits() as u64, self.im.to_bits() as u64) } }
impl Sc for Complex<f64> { const K: u8 = 4; const S: usize = 8; fn mk() -> Self { Complex::new(f64::mk(), f64::mk()) } fn w(self) -> (u64, u64) { (self.re.to_bits(), self.im.to_bits()) } }
fn is<X: Sc, Y: Sc>(x: X, y: Y, m: &'static str) {
    check(X::K == Y::K && X::S == Y::S, "promotion gives another type than NumPy's");
    check(x.w() == y.w(), m)
}
/// floating-point type of a type: itself, or `f64` for integers
fn fl<X: Sc, Y: Sc>(a: X, f: f64, r: Y, m: &'static str) { if X::K == 3 { is(r, a, m) } else { is(r, f, m) } }
const P: &str = "promotion changes a value";
const C: &str = "cast gives a wrong value";
macro_rules! pair { ($a:ty, $b:ty, $r:ty) => {{
    let (a, b) = (<$a>::mk(), <$b>::mk());
    let (x, y) = <$a as DTypePromoteAPI<$b>>::promote_pair(a, b);
    is(x, a as $r, P);
    is(y, b as $r, P);
    is(<$a as DTypePromoteAPI<$b>>::promote_self(a), a as $r, P);
    is(<$a as DTypePromoteAPI<$b>>::promote_other(b), b as $r, P);
    fl(a, a as f64, a.into_float(), "conversion to a floating-point number is wrong");
}} }
macro_rules! cast { ($a:ty, $b:ty) => {{ let a = <$a>::mk(); is(<$a as DTypeCastAPI<$b>>::into_cast(a), a as $b, C) }} }
macro_rules! boolean { ($t:ty) => {{
    let (a, b) = (<$t>::mk(), any_bool());
    let (one, zero) = (b as u8 as $t, 0 as $t);
    let (x, y) = <bool as DTypePromoteAPI<$t>>::promote_pair(b, a);
    is(x, one, P);
    is(y, a, P);
    let (y, x) = <$t as DTypePromoteAPI<bool>>::promote_pair(a, b);
    is(x, one, P);
    is(y, a, P);
    is(<bool as DTypeCastAPI<$t>>::into_cast(b), one, C);
    is(<$t as DTypeCastAPI<bool>>::into_cast(a), a != zero, C);
    let (x, y) = <$t as DTypePromoteAPI<$t>>::promote_pair(a, a);
    is(x, a, P);
    is(y, a, P);
    is(<$t as DTypeCastAPI<$t>>::into_cast(a), a, C);
}} }
macro_rules! complex { ($c:ty, $t:ty, $r:ty) => {{
    let (z, b) = (Complex::<$c>::mk(), <$t>::mk());
    let (wz, wb) = (Complex::new(z.re as $r, z.im as $r), Complex::new(b as $r, 0 as $r));
    let (x, y) = <Complex<$c> as DTypePromoteAPI<$t>>::promote_pair(z, b);
    is(x, wz, P);
    is(y, wb, P);
    let (y, x) = <$t as DTypePromoteAPI<Complex<$c>>>::promote_pair(b, z);
    is(x, wz, P);
    is(y, wb, P);
    is(<$t as DTypeCastAPI<Complex<$c>>>::into_cast(b), Complex::new(b as $c, 0 as $c), C);
}} }
#[rustfmt::skip]
fn promote() {
    match upick(0, 129) {
        0 => pair!(i8, i16, i16),
        1 => pair!(i8, i32, i32),
        2 => pair!(i8, i64, i64),
        3 => pair!(i8, isize, i64),
        4 => pair!(i8, u8, i16),
        5 => pair!(i8, u16, i32),
        6 => pair!(i8, u32, i64),
        7 => pair!(i8, u64, f64),
        8 => pair!(i8, usize, f64),
        9 => pair!(i8, f32, f32),
        10 => pair!(i8, f64, f64),
        11 => pair!(i16, i8, i16),
        12 => pair!(i16, i32, i32),
        13 => pair!(i16, i64, i64),
        14 => pair!(i16, isize, i64),
        15 => pair!(i16, u8, i16),
        16 => pair!(i16, u16, i32),
        17 => pair!(i16, u32, i64),
        18 => pair!(i16, u64, f64),
        19 => pair!(i16, usize, f64),
        20 => pair!(i16, f32, f32),
        21 => pair!(i16, f64, f64),
        22 => pair!(i32, i8, i32),
        23 => pair!(i32, i16, i32),
        24 => pair!(i32, i64, i64),
        25 => pair!(i32, isize, i64),
        26 => pair!(i32, u8, i32),
        27 => pair!(i32, u16, i32),
        28 => pair!(i32, u32, i64),
        29 => pair!(i32, u64, f64),
        30 => pair!(i32, usize, f64),
        31 => pair!(i32, f32, f64),
        32 => pair!(i32, f64, f64),
        33 => pair!(i64, i8, i64),
        34 => pair!(i64, i16, i64),
        35 => pair!(i64, i32, i64),
        36 => pair!(i64, isize, i64),
        37 => pair!(i64, u8, i64),
        38 => pair!(i64, u16, i64),
        39 => pair!(i64, u32, i64),
        40 => pair!(i64, u64, f64),
        41 => pair!(i64, usize, f64),
        42 => pair!(i64, f32, f64),
        43 => pair!(i64, f64, f64),
        44 => pair!(isize, i8, i64),
        45 => pair!(isize, i16, i64),
        46 => pair!(isize, i32, i64),
        47 => pair!(isize, i64, i64),
        48 => pair!(isize, u8, i64),
        49 => pair!(isize, u16, i64),
        50 => pair!(isize, u32, i64),
        51 => pair!(isize, u64, f64),
        52 => pair!(isize, f32, f64),
        53 => pair!(isize, f64, f64),
        54 => pair!(u8, i8, i16),
        55 => pair!(u8, i16, i16),
        56 => pair!(u8, i32, i32),
        57 => pair!(u8, i64, i64),
        58 => pair!(u8, isize, i64),
        59 => pair!(u8, u16, u16),
        60 => pair!(u8, u32, u32),
        61 => pair!(u8, u64, u64),
        62 => pair!(u8, usize, u64),
        63 => pair!(u8, f32, f32),
        64 => pair!(u8, f64, f64),
        65 => pair!(u16, i8, i32),
        66 => pair!(u16, i16, i32),
        67 => pair!(u16, i32, i32),
        68 => pair!(u16, i64, i64),
        69 => pair!(u16, isize, i64),
        70 => pair!(u16, u8, u16),
        71 => pair!(u16, u32, u32),
        72 => pair!(u16, u64, u64),
        73 => pair!(u16, usize, u64),
        74 => pair!(u16, f32, f32),
        75 => pair!(u16, f64, f64),
        76 => pair!(u32, i8, i64),
        77 => pair!(u32, i16, i64),
        78 => pair!(u32, i32, i64),
        79 => pair!(u32, i64, i64),
        80 => pair!(u32, isize, i64),
        81 => pair!(u32, u8, u32),
        82 => pair!(u32, u16, u32),
        83 => pair!(u32, u64, u64),
        84 => pair!(u32, usize, u64),
        85 => pair!(u32, f32, f64),
        86 => pair!(u32, f64, f64),
        87 => pair!(u64, i8, f64),
        88 => pair!(u64, i16, f64),
        89 => pair!(u64, i32, f64),
        90 => pair!(u64, i64, f64),
        91 => pair!(u64, isize, f64),
        92 => pair!(u64, u8, u64),
        93 => pair!(u64, u16, u64),
        94 => pair!(u64, u32, u64),
        95 => pair!(u64, usize, u64),
        96 => pair!(u64, f32, f64),
        97 => pair!(u64, f64, f64),
        98 => pair!(usize, i8, f64),
        99 => pair!(usize, i16, f64),
        100 => pair!(usize, i32, f64),
        101 => pair!(usize, i64, f64),
        102 => pair!(usize, u8, u64),
        103 => pair!(usize, u16, u64),
        104 => pair!(usize, u32, u64),
        105 => pair!(usize, u64, u64),
        106 => pair!(usize, f32, f64),
        107 => pair!(usize, f64, f64),
        108 => pair!(f32, i8, f32),
        109 => pair!(f32, i16, f32),
        110 => pair!(f32, i32, f64),
        111 => pair!(f32, i64, f64),
        112 => pair!(f32, isize, f64),
        113 => pair!(f32, u8, f32),
        114 => pair!(f32, u16, f32),
        115 => pair!(f32, u32, f64),
        116 => pair!(f32, u64, f64),
        117 => pair!(f32, usize, f64),
        118 => pair!(f32, f64, f64),
        119 => pair!(f64, i8, f64),
        120 => pair!(f64, i16, f64),
        121 => pair!(f64, i32, f64),
        122 => pair!(f64, i64, f64),
        123 => pair!(f64, isize, f64),
        124 => pair!(f64, u8, f64),
        125 => pair!(f64, u16, f64),
        126 => pair!(f64, u32, f64),
        127 => pair!(f64, u64, f64),
        128 => pair!(f64, usize, f64),
        _ => pair!(f64, f32, f64),
    }
}
#[rustfmt::skip]
fn cast() {
    match upick(0, 129) {
        0 => cast!(i8, i16),
        1 => cast!(i8, i32),
        2 => cast!(i8, i64),
        3 => cast!(i8, isize),
        4 => cast!(i8, u8),
        5 => cast!(i8, u16),
        6 => cast!(i8, u32),
        7 => cast!(i8, u64),
        8 => cast!(i8, usize),
        9 => cast!(i8, f32),
        10 => cast!(i8, f64),
        11 => cast!(i16, i8),
        12 => cast!(i16, i32),
        13 => cast!(i16, i64),
        14 => cast!(i16, isize),
        15 => cast!(i16, u8),
        16 => cast!(i16, u16),
        17 => cast!(i16, u32),
        18 => cast!(i16, u64),
        19 => cast!(i16, usize),
        20 => cast!(i16, f32),
        21 => cast!(i16, f64),
        22 => cast!(i32, i8),
        23 => cast!(i32, i16),
        24 => cast!(i32, i64),
        25 => cast!(i32, isize),
        26 => cast!(i32, u8),
        27 => cast!(i32, u16),
        28 => cast!(i32, u32),
        29 => cast!(i32, u64),
        30 => cast!(i32, usize),
        31 => cast!(i32, f32),
        32 => cast!(i32, f64),
        33 => cast!(i64, i8),
        34 => cast!(i64, i16),
        35 => cast!(i64, i32),
        36 => cast!(i64, isize),
        37 => cast!(i64, u8),
        38 => cast!(i64, u16),
        39 => cast!(i64, u32),
        40 => cast!(i64, u64),
        41 => cast!(i64, usize),
        42 => cast!(i64, f32),
        43 => cast!(i64, f64),
        44 => cast!(isize, i8),
        45 => cast!(isize, i16),
        46 => cast!(isize, i32),
        47 => cast!(isize, i64),
        48 => cast!(isize, u8),
        49 => cast!(isize, u16),
        50 => cast!(isize, u32),
        51 => cast!(isize, u64),
        52 => cast!(isize, f32),
        53 => cast!(isize, f64),
        54 => cast!(u8, i8),
        55 => cast!(u8, i16),
        56 => cast!(u8, i32),
        57 => cast!(u8, i64),
        58 => cast!(u8, isize),
        59 => cast!(u8, u16),
        60 => cast!(u8, u32),
        61 => cast!(u8, u64),
        62 => cast!(u8, usize),
        63 => cast!(u8, f32),
        64 => cast!(u8, f64),
        65 => cast!(u16, i8),
        66 => cast!(u16, i16),
        67 => cast!(u16, i32),
        68 => cast!(u16, i64),
        69 => cast!(u16, isize),
        70 => cast!(u16, u8),
        71 => cast!(u16, u32),
        72 => cast!(u16, u64),
        73 => cast!(u16, usize),
        74 => cast!(u16, f32),
        75 => cast!(u16, f64),
        76 => cast!(u32, i8),
        77 => cast!(u32, i16),
        78 => cast!(u32, i32),
        79 => cast!(u32, i64),
        80 => cast!(u32, isize),
        81 => cast!(u32, u8),
        82 => cast!(u32, u16),
        83 => cast!(u32, u64),
        84 => cast!(u32, usize),
        85 => cast!(u32, f32),
        86 => cast!(u32, f64),
        87 => cast!(u64, i8),
        88 => cast!(u64, i16),
        89 => cast!(u64, i32),
        90 => cast!(u64, i64),
        91 => cast!(u64, isize),
        92 => cast!(u64, u8),
        93 => cast!(u64, u16),
        94 => cast!(u64, u32),
        95 => cast!(u64, usize),
        96 => cast!(u64, f32),
        97 => cast!(u64, f64),
        98 => cast!(usize, i8),
        99 => cast!(usize, i16),
        100 => cast!(usize, i32),
        101 => cast!(usize, i64),
        102 => cast!(usize, u8),
        103 => cast!(usize, u16),
        104 => cast!(usize, u32),
        105 => cast!(usize, u64),
        106 => cast!(usize, f32),
        107 => cast!(usize, f64),
        108 => cast!(f32, i8),
        109 => cast!(f32, i16),
        110 => cast!(f32, i32),
        111 => cast!(f32, i64),
        112 => cast!(f32, isize),
        113 => cast!(f32, u8),
        114 => cast!(f32, u16),
        115 => cast!(f32, u32),
        116 => cast!(f32, u64),
        117 => cast!(f32, usize),
        118 => cast!(f32, f64),
        119 => cast!(f64, i8),
        120 => cast!(f64, i16),
        121 => cast!(f64, i32),
        122 => cast!(f64, i64),
        123 => cast!(f64, isize),
        124 => cast!(f64, u8),
        125 => cast!(f64, u16),
        126 => cast!(f64, u32),
        127 => cast!(f64, u64),
        128 => cast!(f64, usize),
        _ => cast!(f64, f32),
    }
}
#[rustfmt::skip]
fn boolean() {
    match upick(0, 11) {
        0 => boolean!(i8),
        1 => boolean!(i16),
        2 => boolean!(i32),
        3 => boolean!(i64),
        4 => boolean!(isize),
        5 => boolean!(u8),
        6 => boolean!(u16),
        7 => boolean!(u32),
        8 => boolean!(u64),
        9 => boolean!(usize),
        10 => boolean!(f32),
        _ => boolean!(f64),
    }
}
#[rustfmt::skip]
fn complex() {
    match upick(0, 23) {
        0 => complex!(f32, i8, f32),
        1 => complex!(f32, i16, f32),
        2 => complex!(f32, i32, f64),
        3 => complex!(f32, i64, f64),
        4 => complex!(f32, isize, f64),
        5 => complex!(f32, u8, f32),
        6 => complex!(f32, u16, f32),
        7 => complex!(f32, u32, f64),
        8 => complex!(f32, u64, f64),
        9 => complex!(f32, usize, f64),
        10 => complex!(f32, f32, f32),
        11 => complex!(f32, f64, f64),
        12 => complex!(f64, i8, f64),
        13 => complex!(f64, i16, f64),
        14 => complex!(f64, i32, f64),
        15 => complex!(f64, i64, f64),
        16 => complex!(f64, isize, f64),
        17 => complex!(f64, u8, f64),
        18 => complex!(f64, u16, f64),
        19 => complex!(f64, u32, f64),
        20 => complex!(f64, u64, f64),
        21 => complex!(f64, usize, f64),
        22 => complex!(f64, f32, f64),
        _ => complex!(f64, f64, f64),
    }
}
/// promotion of two different numeric types: NumPy's common type, values converted
#[no_mangle]
pub extern "C" fn h_promote_sym() { reach(1); promote() }
/// casts between numeric types
#[no_mangle]
pub extern "C" fn h_cast_sym() { reach(1); cast() }
/// bool, complex and equal types
#[no_mangle]
pub extern "C" fn h_other_sym() {
    reach(1);
    match pick(0, 2) {
        0 => boolean(),
        1 => complex(),
        _ => {
            let (a, b) = (Complex::<f32>::mk(), Complex::<f64>::mk());
            let wa = Complex::new(a.re as f64, a.im as f64);
            let (x, y) = <Complex<f32> as DTypePromoteAPI<Complex<f64>>>::promote_pair(a, b);
            is(x, wa, P);
            is(y, b, P);
            let (y, x) = <Complex<f64> as DTypePromoteAPI<Complex<f32>>>::promote_pair(b, a);
            is(x, wa, P);
            is(y, b, P);
            is(<Complex<f32> as DTypeCastAPI<Complex<f64>>>::into_cast(a), wa, C);
            is(<Complex<f64> as DTypeCastAPI<Complex<f32>>>::into_cast(b), Complex::new(b.re as f32, b.im as f32), C);
            is(a.into_float(), a, C);
            is(b.into_float(), b, C);
            let t = any_bool();
            let (x, y) = <bool as DTypePromoteAPI<Complex<f64>>>::promote_pair(t, b);
            is(x, Complex::new(t as u8 as f64, 0.0), P);
            is(y, b, P);
        }
    }
}
/// sign, absolute value, differences, extrema and parts of every value
#[no_mangle]
pub extern "C" fn h_ext_sym() {
    reach(1);
    const M: &str = "numeric helper is wrong";
    macro_rules! common { ($t:ty, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        check(a.ext_max(b) == if a > b { a } else { b } && a.ext_min(b) == if a < b { a } else { b }, "extremum of two numbers is wrong");
        check(<$t as ExtReal>::ext_max_value() >= a && <$t as ExtReal>::ext_min_value() <= a, "extremal value of a type is not a bound");
        check(a.ext_real() == a && a.ext_imag() == 0 as $t && a.ext_conj() == a, M);
        check(!ExtNum::is_nan(&a), M);
    }} }
    macro_rules! signed { ($t:ty) => {{
        let (a, b) = (<$t>::mk(), <$t>::mk());
        common!($t, a, b);
        check(a.ext_sign() == if a > 0 { 1 } else if a < 0 { -1 } else { 0 }, "sign is wrong");
        if a != <$t>::MIN { check(a.ext_abs() == if a < 0 { -a } else { a }, "absolute value is wrong") }
        match if a > b { a.checked_sub(b) } else { b.checked_sub(a) } { Some(d) => check(a.ext_abs_diff(b) == d, "absolute difference is wrong"), None => () }
    }} }
    macro_rules! unsigned { ($t:ty) => {{
        let (a, b) = (<$t>::mk(), <$t>::mk());
        common!($t, a, b);
        check(a.ext_sign() == if a > 0 { 1 } else { 0 }, "sign is wrong");
        check(a.ext_abs() == a, "absolute value is wrong");
        check(a.ext_abs_diff(b) == if a > b { a - b } else { b - a }, "absolute difference is wrong");
    }} }
    macro_rules! float { ($t:ty) => {{
        let (a, b) = (<$t>::mk(), <$t>::mk());
        check(ExtNum::is_nan(&a) == (a != a), "NaN is not recognised");
        let s = a.ext_sign();
        if a != a { check(s != s, "sign of NaN is not NaN"); return }
        check(s == if a > 0.0 { 1.0 } else if a < 0.0 { -1.0 } else { 0.0 }, "sign is wrong");
        check(a.ext_abs() == if a < 0.0 { -a } else { a }, "absolute value is wrong");
        check(a.ext_real() == a && a.ext_imag() == 0.0 && a.ext_conj() == a, M);
        if b == b { check(a.ext_max(b) == if a > b { a } else { b } && a.ext_min(b) == if a < b { a } else { b }, "extremum of two numbers is wrong") }
        if a.is_finite() { check(<$t as ExtReal>::ext_max_value() >= a && <$t as ExtReal>::ext_min_value() <= a, "extremal value of a type is not a bound") }
    }} }
    match pick(0, 12) {
        0 => signed!(i8), 1 => signed!(i16), 2 => signed!(i32), 3 => signed!(i64), 4 => signed!(isize),
        5 => unsigned!(u8), 6 => unsigned!(u16), 7 => unsigned!(u32), 8 => unsigned!(u64), 9 => unsigned!(usize),
        10 => float!(f32), 11 => float!(f64),
        _ => {
            let z = Complex::<f64>::mk();
            check(z.ext_real().to_bits() == z.re.to_bits() && z.ext_imag().to_bits() == z.im.to_bits(), M);
            let c = z.ext_conj();
            check(c.re.to_bits() == z.re.to_bits() && (z.im != z.im || c.im == -z.im), "conjugate is wrong");
            check(ExtNum::is_nan(&z) == (z.re != z.re || z.im != z.im), "NaN is not recognised");
        }
    }
}
/// quotient rounded down
#[no_mangle]
pub extern "C" fn h_floor_sym() {
    reach(1);
    macro_rules! go { ($t:ty) => {{
        let (a, b) = (<$t>::mk(), <$t>::mk());
        assume(b != 0);
        if <$t>::MIN != 0 { assume(a != <$t>::MIN || b as i64 != -1) }
        let q = a.ext_floor_divide(b) as i64;
        let (a, b) = (a as i64, b as i64);
        let r = a - q * b;
        check(if b > 0 { 0 <= r && r < b } else { b < r && r <= 0 }, "floor division is wrong");
    }} }
    match pick(0, 1) { 0 => go!(i8), _ => go!(u8) }
}
/// |a - b| <= atol + rtol |b|, NaN only equal on request
#[no_mangle]
pub extern "C" fn h_isclose_sym() {
    reach(1);
    let (r2, at, nan) = (pick(0, 2), pick(0, 1), pick(0, 1) == 1); // rtol in halves
    let args: IsCloseArgs<f64> = (r2 as f64 * 0.5, 3.0 * at as f64, nan).into();
    let m = "closeness of two numbers is wrong";
    let want = |a: i64, b: i64| { let (d, e) = (if a > b { a - b } else { b - a }, if b < 0 { -b } else { b }); 2 * d <= 6 * at + r2 * e };
    macro_rules! go { ($a:ty, $b:ty, $la:expr, $lb:expr) => {{ let (x, y) = (int($la, 100), int($lb, 100)); check(isclose(&(x as $a), &(y as $b), &args) == want(x, y), m) }} }
    match pick(0, 5) {
        0 => go!(i32, i32, -100, -100),
        1 => go!(u8, i8, 0, -100),
        2 => go!(u32, u32, 0, 0),
        3 => go!(i16, f64, -20, -20),
        4 => go!(u16, i64, 0, -100),
        _ => {
            let n = f64::NAN;
            let x = int(-100, 100) as f64;
            check(isclose(&n, &n, &args) == nan && !isclose(&n, &x, &args) && !isclose(&x, &n, &args), "NaN is close to a number");
        }
    }
}
fn ok<X>(r: Result<X>) -> X { match r { Ok(x) => x, Err(_) => fail("valid call rejected") } }
/// comparisons and extrema of tensors of two integer types agree with the integers; assignment casts
#[no_mangle]
pub extern "C" fn h_mixed_sym() {
    let d = Dev::default();
    let (ms, m) = ("mixed operation has a wrong shape", "mixed operation compares the wrong numbers");
    macro_rules! go { ($a:ty, $b:ty, $r:ty) => {{
        let (x, y): (Vec<$a>, Vec<$b>) = ((0..2).map(|_| <$a>::mk()).collect(), (0..2).map(|_| <$b>::mk()).collect());
        let (a, b): (TensorView<$a, Dev, IxD>, TensorView<$b, Dev, IxD>) = (ok(rt::asarray_f((&x, [2].c(), &d))).into_dim(), ok(rt::asarray_f((&y, [2].c(), &d))).into_dim());
        let (fx, fy) = (|i: &[usize]| x[i[0]] as $r, |i: &[usize]| y[i[0]] as $r);
        reach(1);
        match pick(0, 10) {
            0 => check_tensor(&ok(rt::less_f(&a, &b)), &[2], |i| fx(i) < fy(i), ms, m),
            1 => check_tensor(&ok(rt::greater_equal_f(&a, &b)), &[2], |i| fx(i) >= fy(i), ms, m),
            2 => check_tensor(&ok(rt::equal_f(&a, &b)), &[2], |i| fx(i) == fy(i), ms, m),
            3 => check_tensor(&ok(rt::maximum_f(&a, &b)), &[2], |i| if fx(i) > fy(i) { fx(i) } else { fy(i) }, ms, m),
            4 => check_tensor(&ok(rt::minimum_f(&a, &b)), &[2], |i| if fx(i) < fy(i) { fx(i) } else { fy(i) }, ms, m),
            5 => check_tensor(&ok(rt::greater_f(&a, y[0])), &[2], |i| fx(i) > y[0] as $r, ms, m),
            6 => check_tensor(&ok(rt::less_equal_f(x[0], &b)), &[2], |i| x[0] as $r <= fy(i), ms, m),
            7 => check_tensor(&ok(rt::not_equal_f(&a, &b)), &[2], |i| fx(i) != fy(i), ms, m),
            8 => { let mut z = vec![0 as $b; 2]; { let mut t: TensorMut<$b, Dev, IxD> = ok(rt::asarray_f((&mut z, [2].c(), &d))).into_dim(); ok(t.assign_f(&a)) } for k in 0..2 { check(z[k] == x[k] as $b, "assignment casts wrongly") } }
            9 => { let mut z = vec![false; 2]; { let mut t: TensorMut<bool, Dev, IxD> = ok(rt::asarray_f((&mut z, [2].c(), &d))).into_dim(); ok(t.assign_f(&a)) } for k in 0..2 { check(z[k] == (x[k] != 0), "assignment casts wrongly") } }
            _ => { let mut z = vec![0 as $a; 2]; { let mut t: TensorMut<$a, Dev, IxD> = ok(rt::asarray_f((&mut z, [2].c(), &d))).into_dim(); ok(t.fill_f(y[0])) } for k in 0..2 { check(z[k] == y[0] as $a, "fill casts wrongly") } }
        }
    }} }
    match pick(0, 5) { 0 => go!(i8, u8, i16), 1 => go!(u8, i64, i64), 2 => go!(i16, u32, i64), 3 => go!(u16, u64, u64), 4 => go!(i32, i8, i32), _ => go!(u32, i32, i64) }
}

//! P23: tensordot axes give the subscripts of that contraction
use crate::sym::*;
use rstsr_common::prelude_dev::*;

fn axes(n: usize, wild: bool) -> AxesIndex<isize> {
    let one = || if wild { int(i64::MIN, i64::MAX) as isize } else { pick(-(n as i64), n as i64 - 1) as isize };
    match if n == 0 && !wild { 2 } else { pick(0, if wild { 1 } else { 3 }) } { 0 => AxesIndex::Val(one()), 1 => AxesIndex::Vec(vec![one()]), 2 => AxesIndex::Vec(vec![]), _ => AxesIndex::Vec(vec![one(), one()]) }
}
fn norm(a: &AxesIndex<isize>, n: usize) -> Option<Vec<usize>> {
    let v: Vec<isize> = match a { AxesIndex::Val(x) => vec![*x], AxesIndex::Vec(v) => v.clone(), _ => return None };
    let mut o = vec![];
    for x in v { if x < -(n as isize) || x >= n as isize { return None } o.push(if x < 0 { (x + n as isize) as usize } else { x as usize }) }
    if o.len() == 2 && o[0] == o[1] { return None }
    Some(o)
}
fn verify(r: Result<String>, na: usize, nb: usize, want: Option<(Vec<usize>, Vec<usize>)>) {
    reach(1);
    let s = match r { Ok(s) => s, Err(_) => { check(want.is_none(), "valid contraction rejected"); return } };
    let (xa, xb) = match want { Some(w) => w, None => fail("meaningless contraction accepted") };
    let t: Vec<u8> = s.bytes().filter(|&c| c != b' ').collect();
    let comma = match t.iter().position(|&c| c == b',') { Some(k) => k, None => fail("subscripts without a comma") };
    let arrow = match t.iter().position(|&c| c == b'-') { Some(k) => k, None => fail("subscripts without an arrow") };
    check(comma < arrow && arrow + 1 < t.len() && t[arrow + 1] == b'>', "subscripts are malformed");
    let (a, b, o) = (&t[..comma], &t[comma + 1..arrow], &t[arrow + 2..]);
    check(a.len() == na && b.len() == nb, "subscripts have a wrong rank");
    for x in a.iter().chain(b) { check(x.is_ascii_alphabetic(), "a subscript is not a letter") }
    for i in 0..na { for j in 0..i { check(a[i] != a[j], "subscript repeated within a tensor") } }
    for i in 0..nb { for j in 0..i { check(b[i] != b[j], "subscript repeated within a tensor") } }
    for i in 0..na { for j in 0..nb { check((a[i] == b[j]) == (0..xa.len()).any(|k| xa[k] == i && xb[k] == j), "exactly the paired axes share a subscript") } }
    let mut e: Vec<u8> = (0..na).filter(|i| !xa.contains(i)).map(|i| a[i]).collect();
    e.extend((0..nb).filter(|i| !xb.contains(i)).map(|i| b[i]));
    check(o == &e[..], "result subscripts are not the remaining axes in order");
}
#[no_mangle]
pub extern "C" fn h_pair() {
    real_format();
    let (na, nb) = (upick(0, 3), upick(0, 3));
    let (a, b) = (axes(na, false), axes(nb, false));
    let w = match (norm(&a, na), norm(&b, nb)) { (Some(x), Some(y)) if x.len() == y.len() => Some((x, y)), _ => None };
    verify(tensordot_to_einsum_str(na, nb, AxesPairIndex::Pair(a, b)), na, nb, w);
}
/// any numbers as axes, one pair
#[no_mangle]
pub extern "C" fn h_pair_sym() {
    real_format();
    let (na, nb) = (upick(0, 3), upick(0, 3));
    let (a, b) = (axes(na, true), axes(nb, true));
    let w = match (norm(&a, na), norm(&b, nb)) { (Some(x), Some(y)) => Some((x, y)), _ => None };
    // the executor follows each position on its own path
    let w = w.map(|(x, y)| (x.iter().map(|&v| concretize(v)).collect(), y.iter().map(|&v| concretize(v)).collect()));
    verify(tensordot_to_einsum_str(na, nb, AxesPairIndex::Pair(a, b)), na, nb, w);
}
#[no_mangle]
pub extern "C" fn h_num() {
    real_format();
    let (na, nb) = (upick(0, 4), upick(0, 4));
    let none = pick(0, 1) == 1;
    let n = if none { 2 } else { int(i64::MIN, i64::MAX) as isize };
    let ok = n >= 0 && n as u64 <= na as u64 && n as u64 <= nb as u64;
    let w = if ok { let k = concretize(n as usize); Some(((na - k..na).collect(), (0..k).collect())) } else { None };
    verify(tensordot_to_einsum_str(na, nb, if none { AxesPairIndex::None } else { AxesPairIndex::Val(n) }), na, nb, w);
}

//! P15: selection by index lists and masks
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

fn shapes() -> Vec<usize> {
    let l: &[&[usize]] = &[&[3], &[1], &[2, 3], &[3, 2], &[2, 1, 3], &[2, 3, 2], &[0, 2], &[2, 0], &[0], &[2, 17], &[17, 2], &[2, 2, 2, 3]];
    l[upick(0, if thorough() { l.len() - 1 } else { l.len() - 2 })].to_vec()
}
/// a list of up to two (thorough: three) indices of an axis of length n, possibly out of range
fn list(n: usize) -> Vec<isize> {
    let m = upick(0, if thorough() { 3 } else { 2 });
    (0..m).map(|k| if k == 0 || n <= 3 { pick(-(n as i64) - 1, n as i64) } else { [0, -1, n as i64 - 1][upick(0, 2)] } as isize).collect()
}
fn expect(sh: &[usize], ax: isize, ix: &[isize]) -> Option<(usize, Vec<usize>)> {
    let r = sh.len() as isize;
    if ax < -r || ax >= r { return None; }
    let k = (if ax < 0 { ax + r } else { ax }) as usize;
    let n = sh[k] as isize;
    let mut v = vec![];
    for &i in ix {
        if i < -n || i >= n { return None; }
        v.push((if i < 0 { i + n } else { i }) as usize);
    }
    Some((k, v))
}
macro_rules! judge {
    ($s:expr, $sh:expr, $ax:expr, $ix:expr, $r:expr) => {
        match (expect(&$sh, $ax, &$ix), $r) {
            (Some((k, v)), Ok(t)) => {
                reach(1);
                let mut o = $sh.to_vec();
                o[k] = v.len();
                check_tensor(&t, &o, |i| { let mut j = i.to_vec(); j[k] = v[j[k]]; $s.at(&j) }, "selection has a wrong shape", "selection has a wrong element");
            }
            (None, Err(_)) => reach(2),
            (Some(_), Err(_)) => fail("valid selection rejected"),
            (None, Ok(_)) => fail("invalid selection accepted"),
        }
    };
}
#[no_mangle]
pub extern "C" fn h_select() {
    let sh = shapes();
    let s = src(&sh, pick(0, NPAT));
    let ax = pick(-(sh.len() as i64) - 1, sh.len() as i64) as isize;
    let n = sh[(ax.rem_euclid(sh.len() as isize)) as usize];
    let ix = list(n);
    let r = if ax < 0 { s.view().take_f(ix.clone(), ax) } else { s.view().index_select_f(ax, ix.clone()) };
    judge!(s, sh, ax, ix, r);
}
/// static ranks
#[no_mangle]
pub extern "C" fn h_select_fixed() {
    macro_rules! go { ($d:ty, $sh:expr) => {{
        let sh: &[usize] = $sh;
        let s = src(sh, pick(0, NPAT));
        let ax = pick(-(sh.len() as i64) - 1, sh.len() as i64) as isize;
        let n = sh[(ax.rem_euclid(sh.len() as isize)) as usize];
        let ix = list(n);
        judge!(s, sh, ax, ix, s.view().into_dim::<$d>().index_select_f(ax, ix.clone()));
    }} }
    match pick(0, 2) { 0 => go!(Ix1, &[3]), 1 => go!(Ix2, &[2, 3]), _ => go!(Ix3, &[2, 2, 2]) }
}
#[no_mangle]
pub extern "C" fn h_mask() {
    let l: &[&[usize]] = &[&[3], &[2, 3], &[3, 2], &[2, 2, 2], &[0, 2]];
    let sh = l[upick(0, 4)].to_vec();
    let s = src(&sh, pick(0, NPAT));
    let ax = pick(-(sh.len() as i64), sh.len() as i64 - 1) as isize;
    let n = sh[(ax.rem_euclid(sh.len() as isize)) as usize];
    let m: Vec<bool> = (0..n).map(|_| pick(0, 1) == 1).collect();
    let ix: Vec<isize> = (0..n).filter(|&k| m[k]).map(|k| k as isize).collect();
    judge!(s, sh, ax, ix, s.view().bool_select_f(ax, m.clone()));
}
/// a mask of another length than the axis selects nothing outside the axis
#[no_mangle]
pub extern "C" fn h_mask_len() {
    let s = src(&[2, 3], pick(0, NPAT));
    let m: Vec<bool> = (0..upick(0, 5)).map(|_| pick(0, 1) == 1).collect();
    let r = s.view().bool_select_f(1, m.clone());
    if m.len() == 3 { reach(1); check(r.is_ok(), "mask rejected"); } else { reach(2); check(r.is_err(), "mask of a wrong length accepted"); }
}
#[no_mangle]
pub extern "C" fn h_select_sym() {
    let shs: &[&[usize]] = &[&[3], &[2, 2], &[3, 2], &[2, 3]];
    let sh = shs[upick(0, if thorough() { 3 } else { 2 })].to_vec();
    let s = src_sym(&sh, 3, true);
    let ax = pick(-(sh.len() as i64), sh.len() as i64 - 1) as isize;
    let n = sh[(ax.rem_euclid(sh.len() as isize)) as usize] as i64;
    let ix: Vec<isize> = (0..2).map(|_| pick(-n, n - 1) as isize).collect();
    judge!(s, sh, ax, ix, s.view().index_select_f(ax, ix.clone()));
}
/// symbolic indices: every out-of-range index of a vector is an error
#[no_mangle]
pub extern "C" fn h_select_range() {
    let s = src(&[3], pick(0, 3));
    let i = int(-4096, 4096) as isize;
    match s.view().index_select_f(0, vec![i]) {
        Ok(t) => {
            check(i >= -3 && i < 3, "index out of range accepted");
            reach(1);
            let j = if i < 0 { i + 3 } else { i };
            let e = if j == 0 { s.at(&[0]) } else if j == 1 { s.at(&[1]) } else { s.at(&[2]) };
            check(t.raw()[t.layout().offset()] == e, "selected element is wrong");
        }
        Err(_) => { check(i < -3 || i >= 3, "valid index rejected"); reach(2) }
    }
}
/// elements that own memory
#[no_mangle]
pub extern "C" fn h_select_boxed() {
    let sh: Vec<usize> = if pick(0, 1) == 0 { vec![3] } else { vec![2, 2] };
    let v = vals(sh.iter().product());
    let t = match rt::asarray_f((v.iter().map(|&x| Bx(Box::new(x))).collect::<Vec<_>>(), pattern(&sh, pick(0, 1)).0, &Dev::default())) { Ok(t) => t, Err(_) => fail("rejected") };
    let lay = t.layout().clone();
    let ax = upick(0, sh.len() - 1);
    let ix: Vec<isize> = vec![pick(0, sh[ax] as i64 - 1) as isize, -1, pick(0, 3) as isize];
    match (expect(&sh, ax as isize, &ix), t.index_select_f(ax as isize, ix.clone())) {
        (Some((k, w)), Ok(u)) => {
            reach(1);
            let mut o = sh.clone();
            o[k] = 3;
            for i in indices(&o) {
                let mut j = i.clone();
                j[k] = w[j[k]];
                check(*u.raw()[crate::gen::pos(u.layout(), &i) as usize].0 == v[crate::gen::pos(&lay, &j) as usize], "selection has a wrong element");
            }
        }
        (None, Err(_)) => reach(2),
        _ => fail("selection accepted or rejected wrongly"),
    }
}

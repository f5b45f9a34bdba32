//! P03: permutations of axes are pure re-indexings
use crate::gen::*;
use crate::sym::*;
use rstsr_common::prelude_dev::*;

fn norm(i: isize, n: usize) -> Option<usize> {
    let j = if i < 0 { i + n as isize } else { i };
    if j >= 0 && j < n as isize { Some(j as usize) } else { None }
}
fn perm<const N: usize>()
where Ix<N>: DimAPI {
    let l = layout_b::<N>(100, 1000);
    let na = upick(0, N + 1);
    let mut axes = vec![];
    for _ in 0..na { axes.push(int(-5, 5) as isize); }
    let r = l.transpose(&axes);
    let mut ok = na == N;
    let mut used = [false; 8];
    let mut p = vec![];
    for &a in &axes {
        match norm(a, N) { Some(k) => { let k = concretize(k); if used[k] { ok = false; } used[k] = true; p.push(k); } None => { ok = false; break } }
    }
    match r {
        Err(_) => { reach(2); check(!ok, "valid permutation rejected") }
        Ok(m) => {
            reach(1);
            check(ok, "invalid permutation accepted");
            check(m.offset() == l.offset(), "permutation moves the origin");
            for i in 0..N { check(m.shape()[i] == l.shape()[p[i]] && m.stride()[i] == l.stride()[p[i]], "permuted axis wrong"); }
            // element view: out[j] == in[i] with i[p[k]] = j[k]
            let mut inv = vec![0isize; N];
            for i in 0..N { inv[p[i]] = i as isize; }
            let back = m.transpose(&inv).unwrap();
            check(&back == &l && back.stride() == l.stride(), "inverse permutation does not restore the layout");
            let q = m.permute_dims(&inv).unwrap();
            check(q == l, "permute_dims differs from transpose");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_perm1() { perm::<1>() }
#[no_mangle]
pub extern "C" fn h_perm2() { perm::<2>() }
#[no_mangle]
pub extern "C" fn h_perm3() { perm::<3>() }

fn swap<const N: usize>()
where Ix<N>: DimAPI {
    let l = layout_b::<N>(100, 1000);
    let (a, b) = (int(-6, 6) as isize, int(-6, 6) as isize);
    match (l.swapaxes(a, b), norm(a, N), norm(b, N)) {
        (Ok(m), Some(a), Some(b)) => {
            reach(1);
            for k in 0..N {
                let s = if k == a { b } else if k == b { a } else { k };
                check(m.shape()[k] == l.shape()[s] && m.stride()[k] == l.stride()[s], "swapped axis wrong");
            }
            check(m.offset() == l.offset(), "swap moves the origin");
        }
        (Ok(_), _, _) => fail("axis out of range accepted"),
        (Err(_), Some(_), Some(_)) => fail("valid axes rejected"),
        _ => reach(2),
    }
    let m = l.reverse_axes();
    check(m.offset() == l.offset(), "reverse moves the origin");
    for k in 0..N { check(m.shape()[k] == l.shape()[N - 1 - k] && m.stride()[k] == l.stride()[N - 1 - k], "reversed axis wrong"); }
}
#[no_mangle]
pub extern "C" fn h_swap2() { swap::<2>() }
#[no_mangle]
pub extern "C" fn h_swap4() { swap::<4>() }

//! P24: in-place operations write exactly the addressed elements
use crate::sym::*;
use crate::tgen::*;
use rstsr_common::prelude_dev::*;
use rstsr_core::prelude::*;

fn dst_shapes() -> (Vec<usize>, Vec<usize>) {
    let l: &[(&[usize], &[usize])] = &[
        (&[], &[]), (&[3], &[3]), (&[3], &[1]), (&[3], &[]), (&[2, 3], &[2, 3]), (&[2, 3], &[3]), (&[2, 3], &[2, 1]), (&[0, 3], &[3]), (&[2, 1], &[3]), (&[3], &[1, 3]),
        (&[17], &[17]), (&[2, 16], &[16]), (&[16, 2], &[16, 1]), (&[2, 2, 2], &[2, 1, 2]), (&[1, 3], &[3]), (&[3], &[2]), (&[2, 0], &[2, 1]),
    ];
    let (a, b) = l[upick(0, l.len() - 1)];
    (a.to_vec(), b.to_vec())
}
/// b broadcasts to the shape of a without changing it
fn fits(sa: &[usize], sb: &[usize]) -> bool { bshape(sa, sb).map(|s| s == sa).unwrap_or(false) }

/// after an in-place operation on `a` the buffer holds f at the addressed positions and is unchanged elsewhere
fn check_buf(a: &Src, now: &[i64], f: impl Fn(&[usize]) -> i64) {
    let mut want = a.data.clone();
    for i in indices(&a.shape()) { want[a.p(&i)] = f(&i); }
    check(want.len() == now.len(), "storage length changed");
    for k in 0..want.len() { check(now[k] == want[k], "in-place operation leaves a wrong value in the storage"); }
}
fn inplace(sa: &[usize], sb: &[usize], a: Src, b: Src, how: i64) {
    let bc = (0..sa.len()).any(|k| sa[k] > 1 && a.lay.stride()[k] == 0);
    let mut data = a.data.clone();
    let s = val();
    let dev = Dev::default();
    let r = {
        let mut t = match rt::asarray_f((&mut data, a.lay.clone(), &dev)) { Ok(t) => t, Err(_) => fail("valid layout rejected for a mutable view") };
        match how {
            0 => t.assign_f(&b.view()),
            1 => rt::sub_assign_f(&mut t, &b.view()),
            2 => rt::sub_with_output_f(&b.view(), &b.view(), &mut t),
            3 => rt::mul_assign_f(&mut t, &b.view()),
            4 => t.fill_f(s),
            5 => rt::sub_assign_f(&mut t, s),
            6 => t.mapi_f(|x| *x = *x - s),
            #[cfg(not(feature = "par"))]
            _ => t.mapvi_fnmut_f(|x| x + x + s),
            #[cfg(feature = "par")]
            _ => t.mapvi_f(|x| x + x + s),
        }
    };
    let need_b = how <= 3;
    if need_b && !fits(sa, sb) {
        reach(2);
        check(r.is_err(), "operand that does not fit the destination accepted");
        check_buf(&a, &data, |i| a.at(i));
        return;
    }
    if bc {
        // a destination that stores several elements in one place is either rejected (unchanged), or every element
        // gets its own result (possible when the operation treats the stretched elements alike)
        if r.is_err() { reach(3); check_buf(&a, &data, |i| a.at(i)); return }
        if need_b {
            for i in indices(sa) {
                let x = data[a.p(&i)];
                let (y, z) = (a.at(&i), b.at_bc(&i));
                check(x == match how { 0 => z, 1 => y - z, 2 => z - z, _ => y * z }, "in-place operation on a broadcast destination gives a wrong element");
            }
            return;
        }
    }
    if r.is_err() { fail("in-place operation rejected") }
    reach(1);
    check_buf(&a, &data, |i| match how {
        0 => b.at_bc(i), 1 => a.at(i) - b.at_bc(i), 2 => b.at_bc(i) - b.at_bc(i), 3 => a.at(i) * b.at_bc(i), 4 => s, 5 => a.at(i) - s, 6 => a.at(i) - s, _ => 2 * a.at(i) + s,
    });
}
#[no_mangle]
pub extern "C" fn h_inplace() {
    let (sa, sb) = dst_shapes();
    let how = pick(0, 7);
    let (a, b) = (src(&sa, pick(0, NPAT)), src(&sb, if how <= 3 { pick(0, NPAT) } else { 0 }));
    inplace(&sa, &sb, a, b, how)
}
/// every stride and offset of destination and source
#[no_mangle]
pub extern "C" fn h_inplace_sym() {
    let l: &[(&[usize], &[usize])] = &[(&[3], &[3]), (&[2, 2], &[2]), (&[2, 2], &[2, 2])];
    let (sa, sb) = l[upick(0, l.len() - 1)];
    let (a, b) = (src_sym(sa, 3, true), src_sym(sb, 2, false));
    inplace(sa, sb, a, b, pick(0, 7))
}

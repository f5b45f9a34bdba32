//! P02: integer indexing and axis numbers
use crate::gen::*;
use crate::sym::*;
use rstsr_common::prelude_dev::*;

fn norm(i: isize, n: usize) -> Option<usize> {
    let j = if i < 0 { i + n as isize } else { i };
    if j >= 0 && j < n as isize { Some(j as usize) } else { None }
}
fn select<const N: usize>()
where Ix<N>: DimAPI + DimSmallerOneAPI, <Ix<N> as DimSmallerOneAPI>::SmallerOne: DimDevAPI {
    let mut shape = [0usize; N];
    let mut stride = shape.new_stride();
    for i in 0..N {
        shape[i] = uint(0, 1000);
        stride[i] = [3, -1500, 2000000][upick(i, 2)];
    }
    let l = unsafe { Layout::<Ix<N>>::new_unchecked(shape, stride, uint(4000000, 1 << 40)) };
    let axis = pick(-(N as i64) - 2, N as i64 + 1) as isize;
    let idx = int(-(1 << 40), 1 << 40) as isize;
    let r = l.dim_select(axis, idx);
    match norm(axis, N) {
        None => check(r.is_err(), "axis out of range accepted"),
        Some(a) => match norm(idx, l.shape()[a]) {
            None => { reach(2); check(r.is_err(), "index out of range accepted") }
            Some(i) => {
                // the constructor may reject the layout itself (overlapping strides); that is not the question here
                if let Ok(m) = r {
                    reach(1);
                    check(m.ndim() == N - 1, "select keeps the wrong number of axes");
                    check(m.offset() as isize == l.offset() as isize + l.stride()[a] * i as isize, "select picks the wrong element");
                    let mut k = 0;
                    for j in 0..N {
                        if j != a {
                            check(m.shape()[k] == l.shape()[j] && m.stride()[k] == l.stride()[j], "select changes another axis");
                            k += 1;
                        }
                    }
                } else {
                    reach(3);
                    check(Layout::new(l.shape().clone(), l.stride().clone(), l.offset()).is_err(), "valid select rejected");
                }
            }
        },
    }
}
#[no_mangle]
pub extern "C" fn h_select1() { select::<1>() }
#[no_mangle]
pub extern "C" fn h_select2() { select::<2>() }
#[no_mangle]
pub extern "C" fn h_select3() { select::<3>() }

fn index<const N: usize>()
where Ix<N>: DimAPI {
    let l = layout_b::<N>(1000, 1000);
    let nidx = upick(0, N + 1);
    let mut idx = vec![];
    for _ in 0..nidx { idx.push(int(-(1 << 40), 1 << 40) as isize); }
    let r = l.index_f(&idx);
    let mut ok = nidx == N;
    let mut p = l.offset() as isize;
    if ok {
        for k in 0..N {
            match norm(idx[k], l.shape()[k]) { Some(i) => p += l.stride()[k] * i as isize, None => ok = false }
        }
    }
    match r {
        Ok(v) => { reach(1); check(ok, "out-of-range multi-index accepted"); check(v as isize == p, "multi-index addresses the wrong element"); }
        Err(_) => { reach(2); check(!ok, "valid multi-index rejected"); }
    }
}
#[no_mangle]
pub extern "C" fn h_index1() { index::<1>() }
#[no_mangle]
pub extern "C" fn h_index2() { index::<2>() }
#[no_mangle]
pub extern "C" fn h_index3() { index::<3>() }

/// splitting a layout by axes partitions the axes, preserving each extent and stride
#[no_mangle]
pub extern "C" fn h_split() {
    let l = layout_b::<3>(100, 1000);
    let l: Layout<IxD> = l.into_dim().unwrap();
    let axis = int(-6, 6) as isize;
    let r = l.dim_split_at(axis);
    let a = if axis < 0 { axis + 3 } else { axis };
    if a < 0 || a > 3 { check(r.is_err(), "split position out of range accepted"); reach(2); } else {
        reach(1);
        let (x, y) = match r { Ok(v) => v, Err(_) => fail("valid split rejected") };
        let a = a as usize;
        check(x.ndim() == a && y.ndim() == 3 - a && x.offset() == l.offset() && y.offset() == l.offset(), "split has wrong sizes");
        for k in 0..3 {
            let (s, t) = if k < a { (x.shape()[k], x.stride()[k]) } else { (y.shape()[k - a], y.stride()[k - a]) };
            check(s == l.shape()[k] && t == l.stride()[k], "split changes an axis");
        }
    }
}
/// splitting by an arbitrary list of axes
#[no_mangle]
pub extern "C" fn h_split_axes() {
    let sh = vec![4usize, 3, 5];
    let st = vec![15isize, 5, 1];
    let l: Layout<IxD> = unsafe { Layout::new_unchecked(sh.clone(), st.clone(), 7) };
    let n = upick(0, 3);
    let mut axes = vec![];
    for _ in 0..n { axes.push(int(-5, 5) as isize); }
    let r = l.dim_split_axes(&axes);
    let mut ok = true;
    let mut used = [false; 3];
    let mut order = vec![];
    for &a in &axes {
        match norm(a, 3) {
            Some(k) => { let k = concretize(k); if used[k] { ok = false } used[k] = true; order.push(k) }
            None => { ok = false; break }
        }
    }
    match r {
        Err(_) => { reach(2); check(!ok, "valid axes rejected") }
        Ok((x, y)) => {
            reach(1);
            check(ok, "repeated or out-of-range axis accepted");
            check(x.ndim() == order.len() && y.ndim() == 3 - order.len(), "split loses an axis");
            for (i, &k) in order.iter().enumerate() { check(x.shape()[i] == sh[k] && x.stride()[i] == st[k], "selected axis wrong"); }
            let mut i = 0;
            for k in 0..3 { if !used[k] { check(y.shape()[i] == sh[k] && y.stride()[i] == st[k], "remaining axis wrong"); i += 1; } }
            check(x.offset() == 7 && y.offset() == 7, "split changes the offset");
        }
    }
}

//! Hash-consed bit-vector terms with canonical polynomial sums, interval analysis and evaluation.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add, Sub, Mul, Div, Rem, Neg,
    // comparisons (ordered unless noted)
    Oeq, Olt, Ole, Uno,
    FToSI, FToUI, SIToF, UIToF, Trunc, Ext,
    Sqrt, Fabs, Fma, Floor, Ceil, RTrunc, Round, RoundEven, CopySign, MinNum, MaxNum,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    /// constant + sum of coef * atom, modulo 2^w; atoms sorted by id
    Sum(u128, Vec<(u128, T)>),
    /// product of atoms (sorted, repetition allowed), len >= 2
    Prod(Vec<T>),
    UDiv(T, T), URem(T, T), SDiv(T, T), SRem(T, T),
    And(T, T), Or(T, T), Xor(T, T),
    Shl(T, T), LShr(T, T), AShr(T, T),
    Not(T), // boolean only
    Eq(T, T), Ult(T, T), Slt(T, T),
    Ite(T, T, T),
    ZExt(T), SExt(T), Extract(u32, T), Concat(T, T),
    /// uninterpreted function
    Uf(u32, Vec<T>),
    /// floating point op; second field: operand width
    F(FOp, u32, Vec<T>),
}

pub struct Node {
    pub op: Op,
    pub w: u32,
    pub smin: i128,
    pub smax: i128,
    /// value (as signed) equals the exact integer polynomial over its atoms
    pub exact: bool,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub lo: i128,
    pub hi: i128,
    pub undef: bool,
}

pub struct Terms {
    pub n: Vec<Node>,
    map: HashMap<(Op, u32), T>,
    pub vars: Vec<VarInfo>,
    pub var_terms: Vec<T>,
    support: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    dym: HashMap<T, Option<(T, i32, bool)>>,
}

pub const UF_BASE: u32 = 1 << 28;

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
fn smin_w(w: u32) -> i128 { if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) } }
fn smax_w(w: u32) -> i128 { if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 } }

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
    pub uf: HashMap<(u32, Vec<u128>), u128>,
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms { n: vec![], map: HashMap::new(), vars: vec![], var_terms: vec![], support: vec![], dym: HashMap::new() };
        // id 0 = reserved (concrete marker in memory), also constant false
        let f = t.konst(0, 1);
        assert_eq!(f, 0);
        let tr = t.konst(1, 1);
        assert_eq!(tr, 1);
        t
    }
    pub fn w(&self, t: T) -> u32 { self.n[t as usize].w }
    pub fn op(&self, t: T) -> &Op { &self.n[t as usize].op }
    pub fn smin(&self, t: T) -> i128 { self.n[t as usize].smin }
    pub fn smax(&self, t: T) -> i128 { self.n[t as usize].smax }
    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.n[t as usize].op { Op::Const(c) => Some(c), _ => None }
    }
    /// unsigned interval
    pub fn urange(&self, t: T) -> (u128, u128) {
        let n = &self.n[t as usize];
        if n.smin >= 0 { (n.smin as u128, n.smax as u128) }
        else if n.smax < 0 { ((n.smin as u128) & mask(n.w), (n.smax as u128) & mask(n.w)) }
        else { (0, mask(n.w)) }
    }

    fn mk(&mut self, op: Op, w: u32, smin: i128, smax: i128, exact: bool) -> T {
        if let Some(&t) = self.map.get(&(op.clone(), w)) { return t; }
        let id = self.n.len() as T;
        // interval singleton -> constant
        if smin == smax && !matches!(op, Op::Const(_)) && w < 128 {
            let c = self.konst((smin as u128) & mask(w), w);
            self.map.insert((op, w), c);
            return c;
        }
        self.map.insert((op.clone(), w), id);
        self.n.push(Node { op, w, smin, smax, exact });
        self.support.push(None);
        id
    }
    fn full(&mut self, op: Op, w: u32) -> T {
        let (a, b) = if w == 1 { (-1, 0) } else { (smin_w(w), smax_w(w)) };
        self.mk(op, w, a, b, true)
    }
    pub fn konst(&mut self, v: u128, w: u32) -> T {
        let v = v & mask(w);
        let s = sext(v, w);
        self.mk(Op::Const(v), w, s, s, true)
    }
    pub fn bool(&self, b: bool) -> T { b as T }
    pub fn new_var(&mut self, name: String, w: u32, lo: i128, hi: i128, undef: bool) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w, lo, hi, undef });
        let t = self.mk(Op::Var(id), w, lo, hi, true);
        self.var_terms.push(t);
        t
    }

    // ---------- polynomial arithmetic
    fn decompose(&self, t: T) -> (u128, Vec<(u128, T)>) {
        match &self.n[t as usize].op {
            Op::Const(c) => (*c, vec![]),
            Op::Sum(c, v) => (*c, v.clone()),
            _ => (0, vec![(1, t)]),
        }
    }
    pub fn poly_interval(&self, c: u128, v: &[(u128, T)], w: u32) -> Option<(i128, i128)> {
        // exact integer interval with signed coefficients
        let mut lo = sext(c, w);
        let mut hi = lo;
        for &(k, t) in v {
            let k = sext(k, w);
            let (a, b) = (self.smin(t), self.smax(t));
            let (x, y) = (k.checked_mul(a)?, k.checked_mul(b)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    fn mk_sum(&mut self, c: u128, v: Vec<(u128, T)>, w: u32) -> T {
        let m = mask(w);
        let c = c & m;
        if v.is_empty() { return self.konst(c, w); }
        if c == 0 && v.len() == 1 && v[0].0 == 1 { return v[0].1; }
        let iv = self.poly_interval(c, &v, w);
        match iv {
            Some((lo, hi)) if lo >= smin_w(w) && hi <= smax_w(w) => self.mk(Op::Sum(c, v), w, lo, hi, true),
            _ => {
                let (a, b) = (smin_w(w), smax_w(w));
                self.mk(Op::Sum(c, v), w, a, b, false)
            }
        }
    }
    pub fn lin(&mut self, a: T, ka: u128, b: T, kb: u128, w: u32) -> T {
        let m = mask(w);
        let (ca, va) = self.decompose(a);
        let (cb, vb) = self.decompose(b);
        let c = ca.wrapping_mul(ka).wrapping_add(cb.wrapping_mul(kb)) & m;
        let mut out = Vec::with_capacity(va.len() + vb.len());
        let (mut i, mut j) = (0, 0);
        while i < va.len() || j < vb.len() {
            if j >= vb.len() || (i < va.len() && va[i].1 < vb[j].1) {
                let k = va[i].0.wrapping_mul(ka) & m;
                if k != 0 { out.push((k, va[i].1)); }
                i += 1;
            } else if i >= va.len() || vb[j].1 < va[i].1 {
                let k = vb[j].0.wrapping_mul(kb) & m;
                if k != 0 { out.push((k, vb[j].1)); }
                j += 1;
            } else {
                let k = va[i].0.wrapping_mul(ka).wrapping_add(vb[j].0.wrapping_mul(kb)) & m;
                if k != 0 { out.push((k, va[i].1)); }
                i += 1; j += 1;
            }
        }
        self.mk_sum(c, out, w)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        self.lin(a, 1, b, 1, w)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        self.lin(a, 1, b, mask(w), w)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.konst(0, w);
        self.sub(z, a)
    }
    fn monomial(&mut self, a: T, b: T, w: u32) -> T {
        let mut v = vec![];
        for t in [a, b] {
            match &self.n[t as usize].op { Op::Prod(p) => v.extend_from_slice(p), _ => v.push(t) }
        }
        v.sort_unstable();
        let mut lo: Option<(i128, i128)> = Some((1, 1));
        for &t in &v {
            if let Some((l, h)) = lo {
                let (a, b) = (self.smin(t), self.smax(t));
                let c = [l.checked_mul(a), l.checked_mul(b), h.checked_mul(a), h.checked_mul(b)];
                if c.iter().any(|x| x.is_none()) { lo = None; }
                else {
                    let c: Vec<i128> = c.iter().map(|x| x.unwrap()).collect();
                    lo = Some((*c.iter().min().unwrap(), *c.iter().max().unwrap()));
                }
            }
        }
        match lo {
            Some((l, h)) if l >= smin_w(w) && h <= smax_w(w) => self.mk(Op::Prod(v), w, l, h, true),
            _ => self.mk(Op::Prod(v), w, smin_w(w), smax_w(w), false),
        }
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 { return self.and(a, b); }
        if let Some(c) = self.as_const(a) { let z = self.konst(0, w); return self.lin(b, c, z, 0, w); }
        if let Some(c) = self.as_const(b) { let z = self.konst(0, w); return self.lin(a, c, z, 0, w); }
        let (ca, va) = self.decompose(a);
        let (cb, vb) = self.decompose(b);
        if (va.len() + 1) * (vb.len() + 1) <= 64 {
            let mut acc = self.konst(ca.wrapping_mul(cb), w);
            let one = self.konst(0, w);
            for &(k, t) in &va {
                let x = self.lin(t, k.wrapping_mul(cb), one, 0, w);
                acc = self.add(acc, x);
            }
            for &(k, t) in &vb {
                let x = self.lin(t, k.wrapping_mul(ca), one, 0, w);
                acc = self.add(acc, x);
            }
            for &(k, t) in &va {
                for &(l, u) in &vb {
                    let m = self.monomial(t, u, w);
                    let x = self.lin(m, k.wrapping_mul(l), one, 0, w);
                    acc = self.add(acc, x);
                }
            }
            acc
        } else {
            self.monomial(a, b, w)
        }
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 { return self.konst(x / y, w); }
        }
        if self.as_const(b) == Some(1) { return a; }
        let (al, ah) = self.urange(a);
        let (bl, bh) = self.urange(b);
        if bl > 0 {
            if ah < bl { return self.konst(0, w); }
            // k*b / b with exact no-wrap product
            let lo = al / bh; let hi = ah / bl;
            if hi <= smax_w(w) as u128 { return self.mk(Op::UDiv(a, b), w, lo as i128, hi as i128, true); }
        }
        self.full(Op::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 { return self.konst(x % y, w); }
        }
        if self.as_const(b) == Some(1) { return self.konst(0, w); }
        let (_, ah) = self.urange(a);
        let (bl, bh) = self.urange(b);
        if bl > 0 {
            if ah < bl { return a; }
            let hi = (bh - 1).min(ah);
            if hi <= smax_w(w) as u128 { return self.mk(Op::URem(a, b), w, 0, hi as i128, true); }
        }
        self.full(Op::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 { return self.konst(sext(x, w).wrapping_div(sext(y, w)) as u128, w); }
        }
        if self.as_const(b) == Some(1) { return a; }
        if self.smin(a) >= 0 && self.smin(b) >= 0 { return self.udiv(a, b); }
        if w <= 64 && self.smin(a) > smin_w(w) {
            let m = self.smin(a).abs().max(self.smax(a).abs());
            return self.mk(Op::SDiv(a, b), w, -m, m, true);
        }
        self.full(Op::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 { return self.konst(sext(x, w).wrapping_rem(sext(y, w)) as u128, w); }
        }
        if self.smin(a) >= 0 && self.smin(b) >= 0 { return self.urem(a, b); }
        if w <= 64 && self.smin(a) > smin_w(w) {
            let lo = self.smin(a).min(0);
            let hi = self.smax(a).max(0);
            return self.mk(Op::SRem(a, b), w, lo, hi, true);
        }
        self.full(Op::SRem(a, b), w)
    }
    // ---------- bitwise
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if w != 1 {
            let m = self.konst(mask(w), w);
            return self.sub(m, a);
        }
        match *self.op(a) {
            Op::Const(c) => self.bool(c == 0),
            Op::Not(x) => x,
            _ => self.full(Op::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(x & y, w); }
        for (c, o) in [(ca, b), (cb, a)] {
            if let Some(c) = c {
                if c == 0 { return self.konst(0, w); }
                if c == mask(w) { return o; }
                let (_, oh) = self.urange(o);
                // low mask
                if (c & (c + 1)) == 0 && oh <= c { return o; }
                if (c & (c + 1)) == 0 {
                    let k = c.count_ones();
                    let e = self.extract(0, k, o);
                    return self.zext(e, w);
                }
                // high mask: clears low k bits
                let k = c.trailing_zeros();
                if w <= 64 && c == (mask(w) & !(mask(k))) {
                    if oh < (1u128 << k) { return self.konst(0, w); }
                    let e = self.extract(0, k, o);
                    let z = self.zext(e, w);
                    return self.sub(o, z);
                }
                if c <= smax_w(w) as u128 {
                    let hi = (c as i128).min(if self.smin(o) >= 0 { self.smax(o) } else { c as i128 });
                    return self.mk(Op::And(a, b), w, 0, hi, true);
                }
            }
        }
        if w == 1 {
            if self.is_not_of(a, b) { return 0; }
        }
        if self.smin(a) >= 0 || self.smin(b) >= 0 {
            let mut hi = smax_w(w);
            if self.smin(a) >= 0 { hi = hi.min(self.smax(a)); }
            if self.smin(b) >= 0 { hi = hi.min(self.smax(b)); }
            return self.mk(Op::And(a, b), w, 0, hi, true);
        }
        self.full(Op::And(a, b), w)
    }
    fn is_not_of(&self, a: T, b: T) -> bool {
        matches!(*self.op(a), Op::Not(x) if x == b) || matches!(*self.op(b), Op::Not(x) if x == a)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(x | y, w); }
        for (c, o) in [(ca, b), (cb, a)] {
            if let Some(c) = c {
                if c == 0 { return o; }
                if c == mask(w) { return self.konst(c, w); }
            }
        }
        if w == 1 {
            if self.is_not_of(a, b) { return 1; }
            return self.full(Op::Or(a, b), 1);
        }
        // disjoint bits (zext | shl) -> add
        if self.disjoint_bits(a, b) { return self.add(a, b); }
        if self.smin(a) >= 0 && self.smin(b) >= 0 {
            let m = (self.smax(a) | self.smax(b)) as u128;
            let k = 128 - m.leading_zeros();
            return self.mk(Op::Or(a, b), w, self.smin(a).max(self.smin(b)), mask(k) as i128, true);
        }
        self.full(Op::Or(a, b), w)
    }
    fn trailing_zero_bits(&self, t: T) -> u32 {
        match self.op(t) {
            Op::Const(c) => if *c == 0 { self.w(t) } else { c.trailing_zeros() },
            Op::Sum(c, v) => {
                let mut k = if *c == 0 { 128 } else { c.trailing_zeros() };
                for (q, _) in v { k = k.min(q.trailing_zeros()); }
                k.min(self.w(t))
            }
            _ => 0,
        }
    }
    fn disjoint_bits(&self, a: T, b: T) -> bool {
        let chk = |x: T, y: T| {
            let k = self.trailing_zero_bits(x);
            let (_, h) = self.urange(y);
            k > 0 && h <= mask(k)
        };
        chk(a, b) || chk(b, a)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.konst(0, w); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(x ^ y, w); }
        for (c, o) in [(ca, b), (cb, a)] {
            if let Some(c) = c {
                if c == 0 { return o; }
                if c == mask(w) { return self.not(o); }
            }
        }
        if w == 1 && self.is_not_of(a, b) { return 1; }
        self.full(Op::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 { return self.konst(0, w); }
            let c = self.konst(1u128 << k, w);
            return self.mul(a, c);
        }
        self.full(Op::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 { return self.konst(0, w); }
            if k == 0 { return a; }
            if let Some(c) = self.as_const(a) { return self.konst(c >> k, w); }
            let e = self.extract(k as u32, w - k as u32, a);
            return self.zext(e, w);
        }
        self.full(Op::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 { return a; }
            if let Some(c) = self.as_const(a) { return self.konst((sext(c, w) >> k) as u128, w); }
            if self.smin(a) >= 0 { return self.lshr(a, b); }
            let (lo, hi) = (self.smin(a) >> k, self.smax(a) >> k);
            return self.mk(Op::AShr(a, b), w, lo, hi, true);
        }
        self.full(Op::AShr(a, b), w)
    }
    // ---------- structure
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(c) = self.as_const(a) { return self.konst(c, w); }
        if let Op::ZExt(x) = *self.op(a) { return self.zext(x, w); }
        if let Op::Ite(c, x, y) = *self.op(a) {
            if self.as_const(x).is_some() && self.as_const(y).is_some() {
                let (x, y) = (self.zext(x, w), self.zext(y, w));
                return self.ite(c, x, y);
            }
        }
        // zext(trunc(x)) where x fits
        if let Op::Extract(0, x) = *self.op(a) {
            if self.w(x) == w {
                let (_, h) = self.urange(x);
                if h <= mask(wa) { return x; }
            }
        }
        let (l, h) = self.urange(a);
        self.mk(Op::ZExt(a), w, l as i128, h as i128, true)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(c) = self.as_const(a) { return self.konst(sext(c, wa) as u128, w); }
        if wa > 1 && self.smin(a) >= 0 { return self.zext(a, w); }
        if let Op::SExt(x) = *self.op(a) { return self.sext(x, w); }
        if let Op::ZExt(x) = *self.op(a) { return self.zext(x, w); }
        if let Op::Extract(0, x) = *self.op(a) {
            if self.w(x) == w && self.smin(x) >= smin_w(wa) && self.smax(x) <= smax_w(wa) { return x; }
        }
        let (l, h) = (self.smin(a), self.smax(a));
        self.mk(Op::SExt(a), w, l, h, true)
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T { self.extract(0, w, a) }
    pub fn extract(&mut self, lo: u32, w: u32, a: T) -> T {
        let wa = self.w(a);
        if lo == 0 && w == wa { return a; }
        if let Some(c) = self.as_const(a) { return self.konst(c >> lo, w); }
        match self.op(a).clone() {
            Op::Extract(l2, x) => return self.extract(lo + l2, w, x),
            Op::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx { return self.konst(0, w); }
                if lo + w <= wx { return self.extract(lo, w, x); }
                let e = self.extract(lo, wx - lo, x);
                return self.zext(e, w);
            }
            Op::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx { return self.extract(lo, w, x); }
                if lo == 0 { return self.sext(x, w); }
            }
            Op::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { return self.extract(lo - wl, w, h); }
                if lo + w <= wl { return self.extract(lo, w, l); }
                let el = self.extract(lo, wl - lo, l);
                let eh = self.extract(0, w - (wl - lo), h);
                return self.concat(eh, el);
            }
            Op::Ite(c, x, y) => {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let ex = self.extract(lo, w, x);
                    let ey = self.extract(lo, w, y);
                    return self.ite(c, ex, ey);
                }
            }
            Op::Sum(c, v) if lo == 0 && w > 1 && v.len() <= 16 => {
                let mut acc = self.konst(c, w);
                for (k, t) in v {
                    let e = self.extract(0, w, t);
                    let z = self.konst(0, w);
                    let x = self.lin(e, k, z, 0, w);
                    acc = self.add(acc, x);
                }
                return acc;
            }
            Op::Prod(v) if lo == 0 && w > 1 => {
                let mut acc = self.konst(1, w);
                for t in v {
                    let e = self.extract(0, w, t);
                    acc = self.mul(acc, e);
                }
                return acc;
            }
            _ => {}
        }
        if lo > 0 {
            // high bits zero?
            let (_, h) = self.urange(a);
            if lo < 128 && (h >> lo) == 0 { return self.konst(0, w); }
            if self.smin(a) >= 0 && (h >> lo) <= smax_w(w) as u128 && w > 1 {
                return self.mk(Op::Extract(lo, a), w, (self.smin(a)) >> lo, self.smax(a) >> lo, true);
            }
        } else if w > 1 && self.smin(a) >= smin_w(w) && self.smax(a) <= smax_w(w) {
            let (l, h) = (self.smin(a), self.smax(a));
            return self.mk(Op::Extract(0, a), w, l, h, true);
        }
        self.full(Op::Extract(lo, a), w)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l)) { return self.konst((a << wl) | b, w); }
        if self.as_const(h) == Some(0) { return self.zext(l, w); }
        if let (Op::Extract(lh, x), Op::Extract(ll, y)) = (self.op(h).clone(), self.op(l).clone()) {
            if x == y && lh == ll + wl { return self.extract(ll, w, x); }
        }
        // Concat(Extract(k.., x), x') where l is a trunc that got simplified: handle common case through sext/zext
        if let Op::Extract(lh, x) = self.op(h).clone() {
            if lh == wl && self.extract(0, wl, x) == l { return self.extract(0, w, x); }
        }
        if let Op::Concat(h2, l2) = self.op(h).clone() {
            // re-associate to merge lower parts
            let m = self.concat_try(l2, l);
            if let Some(m) = m { return self.concat(h2, m); }
        }
        if self.smin(h) >= 0 && wh > 1 {
            let (hl, hh) = (self.smin(h), self.smax(h));
            let (ll, lh) = self.urange(l);
            if w < 127 {
                return self.mk(Op::Concat(h, l), w, (hl << wl) + ll as i128, (hh << wl) + lh as i128, true);
            }
        }
        self.full(Op::Concat(h, l), w)
    }
    fn concat_try(&mut self, h: T, l: T) -> Option<T> {
        let r = self.concat(h, l);
        if matches!(self.op(r), Op::Concat(..)) { None } else { Some(r) }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => { let n = self.not(c); return self.and(n, b); }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if let Op::Not(x) = *self.op(c) { return self.ite(x, b, a); }
        if let Op::Ite(c2, x, _) = *self.op(a) { if c2 == c { return self.ite(c, x, b); } }
        if let Op::Ite(c2, _, y) = *self.op(b) { if c2 == c { return self.ite(c, a, y); } }
        // ite(a==b, a, b) -> b
        if let Op::Eq(x, y) = *self.op(c) { if (x == a && y == b) || (x == b && y == a) { return b; } }
        // branch condition e < K refines an arm that is +-e + const
        let (mut al, mut ah, mut bl, mut bh) = (self.smin(a), self.smax(a), self.smin(b), self.smax(b));
        if let Op::Slt(x, y) = *self.op(c) {
            let fact = if let Some(k) = self.as_const(y) {
                let k = sext(k, self.w(y));
                // then: x in [min, k-1], else: x in [k, max]
                Some((x, (self.smin(x), k - 1), (k, self.smax(x))))
            } else if let Some(k) = self.as_const(x) {
                let k = sext(k, self.w(x));
                Some((y, (k + 1, self.smax(y)), (self.smin(y), k)))
            } else { None };
            if let Some((e, t, f)) = fact {
                if self.w(e) == w && w < 128 {
                    let r = self.refine(e, t, a, al, ah); al = r.0; ah = r.1;
                    let r = self.refine(e, f, b, bl, bh); bl = r.0; bh = r.1;
                }
            }
        }
        let (lo, hi) = (al.min(bl), ah.max(bh));
        self.mk(Op::Ite(c, a, b), w, lo, hi, true)
    }
    /// interval of arm a = s*e + d given e in iv
    fn refine(&self, e: T, iv: (i128, i128), a: T, lo: i128, hi: i128) -> (i128, i128) {
        let w = self.w(a);
        if !self.n[a as usize].exact || !self.n[e as usize].exact || iv.0 > iv.1 { return (lo, hi); }
        let (ce, ve) = self.decompose(e);
        let (ca, va) = self.decompose(a);
        if ve.len() != va.len() || ve.is_empty() { return (lo, hi); }
        let (ce, ca) = (sext(ce, w), sext(ca, w));
        for s in [1i128, -1] {
            if ve.iter().zip(va.iter()).all(|(p, q)| p.1 == q.1 && sext(q.0, w) == s * sext(p.0, w)) {
                let d = ca - s * ce;
                let (x, y) = (s * iv.0 + d, s * iv.1 + d);
                let (l, h) = (x.min(y).max(lo), x.max(y).min(hi));
                if l <= h { return (l, h); }
            }
        }
        (lo, hi)
    }
    // ---------- predicates
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return 1; }
        let w = self.w(a);
        if w == 1 {
            if let Some(c) = self.as_const(a) { return if c == 1 { b } else { self.not(b) }; }
            if let Some(c) = self.as_const(b) { return if c == 1 { a } else { self.not(a) }; }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if self.smax(a) < self.smin(b) || self.smax(b) < self.smin(a) { return 0; }
        // exact floats: equal bits iff equal values (no NaN, zero is +0)
        if matches!(self.op(a), Op::F(..)) || matches!(self.op(b), Op::F(..)) {
            if let (Some(x), Some(y)) = (self.dy(a), self.dy(b)) {
                if x.2 && y.2 { if let Some((i, j, _)) = self.dy_align(x, y, w) { return self.eq(i, j); } }
            }
        }
        // poly difference
        let is_arith = |s: &Self, t: T| matches!(s.op(t), Op::Sum(..) | Op::Prod(..));
        if is_arith(self, a) || is_arith(self, b) {
            let d = self.sub(a, b);
            if let Some(c) = self.as_const(d) { return self.bool(c == 0); }
            if self.n[d as usize].exact && (self.smin(d) > 0 || self.smax(d) < 0) { return 0; }
            let (c, v) = self.decompose(d);
            if let Some((lo, hi)) = self.poly_interval(c, &v, w) {
                // exact multiples: value zero mod 2^w only if 0 in range when range < 2^w
                if w <= 64 && (lo > 0 || hi < 0) && (hi - lo) < (1i128 << w) && lo > -(1i128 << w) && hi < (1i128 << w) { return 0; }
            }
            // gcd test on coefficients (powers of two): all coefs multiples of 2^k but const isn't
            let mut k = 128;
            for (q, _) in &v { k = k.min(q.trailing_zeros()); }
            if c != 0 && c.trailing_zeros() < k { return 0; }
            // single atom: coef odd -> solve
            if v.len() == 1 {
                let (q, t) = v[0];
                if q & 1 == 1 {
                    // t == -c * q^-1
                    let inv = inv_mod(q, w);
                    let val = c.wrapping_neg().wrapping_mul(inv) & mask(w);
                    let kc = self.konst(val, w);
                    if self.smin(t) > sext(val, w) || self.smax(t) < sext(val, w) { return 0; }
                    return self.mk_eq(t, kc);
                }
                // exact integer: q*t + c == 0 with no wrap
                let (qs, cs) = (sext(q, w), sext(c, w));
                if self.n[d as usize].exact {
                    if cs % qs != 0 { return 0; }
                    let val = -cs / qs;
                    if self.smin(t) > val || self.smax(t) < val { return 0; }
                    let kc = self.konst(val as u128, w);
                    return self.mk_eq(t, kc);
                }
            }
            // canonical: positive part == negative part
            let mut pos = vec![]; let mut neg = vec![];
            for &(q, t) in &v {
                if sext(q, w) >= 0 { pos.push((q, t)); } else { neg.push((q.wrapping_neg() & mask(w), t)); }
            }
            let (mut cp, mut cn) = (0, 0);
            if sext(c, w) >= 0 { cp = c; } else { cn = c.wrapping_neg() & mask(w); }
            let l = self.mk_sum(cp, pos, w);
            let r = self.mk_sum(cn, neg, w);
            return self.mk_eq(l, r);
        }
        // push into ite with constant arms
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(y) {
                match *self.op(x) {
                    Op::Ite(cc, p, q) => {
                        if self.as_const(p).is_some() || self.as_const(q).is_some() {
                            let e1 = self.eq(p, y);
                            let e2 = self.eq(q, y);
                            return self.ite(cc, e1, e2);
                        }
                    }
                    Op::ZExt(z) => {
                        let wz = self.w(z);
                        if c > mask(wz) { return 0; }
                        let kc = self.konst(c, wz);
                        return self.eq(z, kc);
                    }
                    Op::SExt(z) => {
                        let wz = self.w(z);
                        let s = sext(c, w);
                        if s < smin_w(wz) || s > smax_w(wz) { return 0; }
                        let kc = self.konst(c, wz);
                        return self.eq(z, kc);
                    }
                    _ => {}
                }
            }
        }
        if let (Op::ZExt(x), Op::ZExt(y)) = (self.op(a).clone(), self.op(b).clone()) {
            if self.w(x) == self.w(y) { return self.eq(x, y); }
        }
        if let (Op::SExt(x), Op::SExt(y)) = (self.op(a).clone(), self.op(b).clone()) {
            if self.w(x) == self.w(y) { return self.eq(x, y); }
        }
        self.mk_eq(a, b)
    }
    fn mk_eq(&mut self, a: T, b: T) -> T {
        if a == b { return 1; }
        if self.smax(a) < self.smin(b) || self.smax(b) < self.smin(a) { return 0; }
        if let (Some(_), Some(_)) = (self.as_const(a), self.as_const(b)) { return 0; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.full(Op::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return 0; }
        if w == 1 { let n = self.not(a); return self.and(n, b); }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.bool(x < y); }
        let (al, ah) = self.urange(a);
        let (bl, bh) = self.urange(b);
        if ah < bl { return 1; }
        if al >= bh { return 0; }
        if self.smin(a) >= 0 && self.smin(b) >= 0 { return self.slt(a, b); }
        if self.as_const(b) == Some(1) { let z = self.konst(0, w); return self.eq(a, z); }
        // a <u C with C nonneg const, a signed: 0<=a && a<C
        if let Some(c) = self.as_const(b) {
            if (c as i128) <= smax_w(w) && self.smax(a) < smax_w(w) {
                let z = self.konst(0, w);
                let ge = self.slt(a, z);
                let ge = self.not(ge);
                let lt = self.slt(a, b);
                return self.and(ge, lt);
            }
        }
        if self.smin(b) >= 0 && self.smax(a) < smax_w(w) {
            let z = self.konst(0, w);
            let ge = self.slt(a, z);
            let ge = self.not(ge);
            let lt = self.slt(a, b);
            return self.and(ge, lt);
        }
        self.full(Op::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T { let x = self.ult(b, a); self.not(x) }
    pub fn sle(&mut self, a: T, b: T) -> T { let x = self.slt(b, a); self.not(x) }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return 0; }
        if w == 1 { let n = self.not(b); return self.and(a, n); }
        if self.smax(a) < self.smin(b) { return 1; }
        if self.smin(a) >= self.smax(b) { return 0; }
        if w <= 64 && self.n[a as usize].exact && self.n[b as usize].exact {
            let d = self.sub(a, b);
            let (c, v) = self.decompose(d);
            // integer difference with signed coefs; valid when coefs didn't wrap
            if let Some((lo, hi)) = self.poly_interval(c, &v, w) {
                let small = v.iter().all(|(k, _)| sext(*k, w).abs() < (1i128 << 40)) && sext(c, w).abs() < (1i128 << 62);
                if small {
                    if hi < 0 { return 1; }
                    if lo >= 0 { return 0; }
                    if lo >= smin_w(w) && hi <= smax_w(w) && !v.is_empty() {
                        // normalise: sum(v) < -c, dividing by the gcd of coefficients
                        let mut g: i128 = 0;
                        for (k, _) in &v { g = gcd(g, sext(*k, w)); }
                        let cs = sext(c, w);
                        // sum/g < -cs/g  <=> sum/g <= ceil(-cs/g)-1  <=> sum/g < ceil(-cs/g)
                        let rhs = -((cs).div_euclid(g));
                        let v2: Vec<(u128, T)> = v.iter().map(|(k, t)| (((sext(*k, w) / g) as u128) & mask(w), *t)).collect();
                        // orient: first coefficient positive
                        if sext(v2[0].0, w) < 0 {
                            // S < r  <=>  -r < -S  <=> not (-S < -r+1)
                            let v3: Vec<(u128, T)> = v2.iter().map(|(k, t)| (k.wrapping_neg() & mask(w), *t)).collect();
                            let l = self.mk_sum(0, v3, w);
                            let r = self.konst((-rhs + 1) as u128, w);
                            let x = self.mk_slt(l, r);
                            return self.not(x);
                        }
                        let l = self.mk_sum(0, v2, w);
                        let r = self.konst(rhs as u128, w);
                        return self.mk_slt(l, r);
                    }
                }
            }
        }
        self.mk_slt(a, b)
    }
    fn mk_slt(&mut self, a: T, b: T) -> T {
        if self.smax(a) < self.smin(b) { return 1; }
        if self.smin(a) >= self.smax(b) { return 0; }
        // boundary: a < min+1  -> a == min ; a < max -> not (a == max)
        let (w, lo, hi) = (self.w(a), self.smin(a), self.smax(a));
        if let Some(c) = self.as_const(b) {
            let c = sext(c, w);
            if c == lo + 1 { let k = self.konst(lo as u128, w); return self.eq(a, k); }
            if c == hi { let k = self.konst(hi as u128, w); let e = self.eq(a, k); return self.not(e); }
            if let Op::Ite(cc, p, q) = *self.op(a) {
                if self.as_const(p).is_some() || self.as_const(q).is_some() {
                    let e1 = self.slt(p, b);
                    let e2 = self.slt(q, b);
                    return self.ite(cc, e1, e2);
                }
            }
        }
        self.full(Op::Slt(a, b), 1)
    }
    pub fn uf(&mut self, f: u32, args: Vec<T>, w: u32) -> T { self.full(Op::Uf(f, args), w) }
    pub fn fop(&mut self, f: FOp, ow: u32, args: Vec<T>, w: u32) -> T {
        if args.iter().all(|&a| self.as_const(a).is_some()) {
            let v: Vec<u128> = args.iter().map(|&a| self.as_const(a).unwrap()).collect();
            if let Some(r) = eval_f(f, ow, &v, w) { return self.konst(r, w); }
        }
        if let Some(r) = self.fop_dyadic(f, ow, &args, w) { return r; }
        self.fop_raw(f, ow, args, w)
    }
    fn fop_raw(&mut self, f: FOp, ow: u32, mut args: Vec<T>, w: u32) -> T {
        if matches!(f, FOp::Add | FOp::Mul | FOp::Oeq | FOp::Uno) && args[0] > args[1] { args.swap(0, 1); }
        self.full(Op::F(f, ow, args), w)
    }

    // ---------- exact floating point: values known to be integer * 2^e without rounding
    fn dy_lim(w: u32) -> i128 { if w == 64 { 1 << 53 } else { 1 << 24 } }
    fn dy_emax(w: u32) -> i32 { if w == 64 { 900 } else { 90 } }
    fn pow2_bits(e: i32, w: u32) -> u128 { if w == 64 { ((1023 + e as i64) as u128) << 52 } else { ((127 + e) as u128) << 23 } }
    /// (i, e, p): the float `t` is i * 2^e exactly; p: when the value is zero it is +0
    pub fn dy(&mut self, t: T) -> Option<(T, i32, bool)> {
        let w = self.w(t);
        if w != 64 && w != 32 { return None; }
        if let Some(r) = self.dym.get(&t) { return *r; }
        let r = self.dy1(t, w);
        self.dym.insert(t, r);
        r
    }
    fn dy1(&mut self, t: T, w: u32) -> Option<(T, i32, bool)> {
        let lim = Self::dy_lim(w);
        match self.op(t).clone() {
            Op::Const(v) => {
                let (mant, ebits, bias) = if w == 64 { (52, 11, 1075) } else { (23, 8, 150) };
                let neg = v >> (w - 1) & 1 == 1;
                let eb = (v >> mant & mask(ebits)) as i32;
                let frac = (v & mask(mant)) as i128;
                if eb == 0 { if frac != 0 { return None; } let z = self.konst(0, 64); return Some((z, 0, !neg)); }
                if eb as u128 == mask(ebits) { return None; }
                let mut m = frac | 1i128 << mant;
                let mut e = eb - bias;
                let tz = m.trailing_zeros() as i32;
                m >>= tz;
                e += tz;
                while e > 0 && m << 1 <= lim { m <<= 1; e -= 1; }
                if e.abs() > Self::dy_emax(w) { return None; }
                let k = self.konst((if neg { -m } else { m }) as u128 & mask(64), 64);
                Some((k, e, true))
            }
            Op::F(FOp::SIToF, _, a) => {
                let a = a[0];
                if self.w(a) > 64 || self.smin(a) < -lim || self.smax(a) > lim { return None; }
                if self.w(a) == 1 { return None; }
                let x = self.sext(a, 64);
                Some((x, 0, true))
            }
            Op::F(FOp::UIToF, _, a) => {
                let a = a[0];
                if self.w(a) > 64 { return None; }
                if self.w(a) == 64 && self.smin(a) < 0 { return None; }
                let x = self.zext(a, 64);
                if self.smin(x) < 0 || self.smax(x) > lim { return None; }
                Some((x, 0, true))
            }
            Op::F(FOp::Mul, _, a) => {
                let (x, y) = (self.dy(a[0])?, self.dy(a[1])?);
                let c = self.as_const(a[0]).or(self.as_const(a[1]));
                let canon = c.is_some() && x.2 && y.2 && (x.1 + y.1) <= 0;
                let (i, e) = self.dy_mul(x, y, w)?;
                // a positive constant keeps the sign of zero
                let pos = canon && { let k = if self.as_const(a[0]).is_some() { x.0 } else { y.0 }; self.smin(k) > 0 };
                Some((i, e, pos))
            }
            Op::F(f @ (FOp::Add | FOp::Sub), _, a) => {
                let (x, y) = (self.dy(a[0])?, self.dy(a[1])?);
                let (i, j, e) = self.dy_align(x, y, w)?;
                let r = if f == FOp::Add { self.add(i, j) } else { self.sub(i, j) };
                if self.smin(r) < -lim || self.smax(r) > lim { return None; }
                Some((r, e, if f == FOp::Add { x.2 || y.2 } else { x.2 }))
            }
            Op::F(FOp::Neg, _, a) => {
                let x = self.dy(a[0])?;
                let i = self.neg(x.0);
                Some((i, x.1, false))
            }
            Op::Ite(c, a, b) => {
                let (x, y) = (self.dy(a)?, self.dy(b)?);
                let (i, j, e) = self.dy_align(x, y, w)?;
                let r = self.ite(c, i, j);
                Some((r, e, x.2 && y.2))
            }
            _ => None,
        }
    }
    fn dy_scale(&mut self, i: T, k: i32, w: u32) -> Option<T> {
        if k == 0 { return Some(i); }
        if k < 0 || k > 60 { return None; }
        let lim = Self::dy_lim(w);
        let f = 1i128 << k;
        if self.smin(i) * f < -lim || self.smax(i) * f > lim { return None; }
        let c = self.konst(f as u128, 64);
        Some(self.mul(i, c))
    }
    fn dy_align(&mut self, x: (T, i32, bool), y: (T, i32, bool), w: u32) -> Option<(T, T, i32)> {
        let zero = |s: &Self, t: T| s.as_const(t) == Some(0);
        let e = if zero(self, x.0) { y.1 } else if zero(self, y.0) { x.1 } else { x.1.min(y.1) };
        let i = if zero(self, x.0) { x.0 } else { self.dy_scale(x.0, x.1 - e, w)? };
        let j = if zero(self, y.0) { y.0 } else { self.dy_scale(y.0, y.1 - e, w)? };
        Some((i, j, e))
    }
    fn dy_mul(&mut self, x: (T, i32, bool), y: (T, i32, bool), w: u32) -> Option<(T, i32)> {
        let lim = Self::dy_lim(w);
        let (a, b, c, d) = (self.smin(x.0), self.smax(x.0), self.smin(y.0), self.smax(y.0));
        for v in [a * c, a * d, b * c, b * d] { if v < -lim || v > lim { return None; } }
        let e = x.1 + y.1;
        if e.abs() > Self::dy_emax(w) { return None; }
        Some((self.mul(x.0, y.0), e))
    }
    fn dy_mk(&mut self, mut i: T, mut e: i32, w: u32) -> Option<T> {
        let lim = Self::dy_lim(w);
        if self.smin(i) < -lim || self.smax(i) > lim { return None; }
        if let Some(c) = self.as_const(i) {
            let v = sext(c, 64);
            let fv = eval_f(FOp::SIToF, 64, &[c], w)?;
            if v == 0 { return Some(self.konst(0, w)); }
            let p = Self::pow2_bits(e, w);
            let r = eval_f(FOp::Mul, w, &[fv, p], w)?;
            return Some(self.konst(r, w));
        }
        if e > 0 { if let Some(j) = self.dy_scale(i, e, w) { i = j; e = 0; } }
        let f = self.fop_raw(FOp::SIToF, 64, vec![i], w);
        if e == 0 { return Some(f); }
        if e.abs() > Self::dy_emax(w) { return None; }
        let p = self.konst(Self::pow2_bits(e, w), w);
        Some(self.fop_raw(FOp::Mul, w, vec![f, p], w))
    }
    fn fop_dyadic(&mut self, f: FOp, ow: u32, args: &[T], w: u32) -> Option<T> {
        // x + (-0.0) = x
        if f == FOp::Add && (ow == 64 || ow == 32) {
            for k in 0..2 { if self.as_const(args[k]) == Some(1u128 << (ow - 1)) { return Some(args[1 - k]); } }
        }
        match f {
            FOp::SIToF | FOp::UIToF => {
                let t = self.fop_raw(f, ow, args.to_vec(), w);
                let (i, e, _) = self.dy(t)?;
                return self.dy_mk(i, e, w);
            }
            _ => {}
        }
        if !matches!(f, FOp::Add | FOp::Sub | FOp::Mul | FOp::Div | FOp::Neg | FOp::Oeq | FOp::Olt | FOp::Ole | FOp::Uno | FOp::FToSI | FOp::FToUI | FOp::Trunc | FOp::Ext
            | FOp::Fabs | FOp::Fma | FOp::Floor | FOp::Ceil | FOp::RTrunc | FOp::Round | FOp::RoundEven) { return None; }
        let mut d = vec![];
        for &a in args { d.push(self.dy(a)?); }
        match f {
            FOp::Add | FOp::Sub => {
                let (i, j, e) = self.dy_align(d[0], d[1], w)?;
                let ok = if f == FOp::Add { d[0].2 || d[1].2 } else { d[0].2 };
                if !ok { return None; }
                let r = if f == FOp::Add { self.add(i, j) } else { self.sub(i, j) };
                self.dy_mk(r, e, w)
            }
            FOp::Mul => {
                let nz = |s: &Self, t: T| s.smin(t) > 0 || s.smax(t) < 0;
                let (x, y) = (d[0].0, d[1].0);
                let ok = (args[0] == args[1]) || (nz(self, x) && nz(self, y)) || (d[0].2 && d[1].2 && self.smin(x) >= 0 && self.smin(y) >= 0);
                if !ok { return None; }
                let (i, e) = self.dy_mul(d[0], d[1], w)?;
                self.dy_mk(i, e, w)
            }
            FOp::Div => {
                let c = sext(self.as_const(d[1].0)?, 64);
                if c <= 0 || c & (c - 1) != 0 || !d[0].2 { return None; }
                let e = d[0].1 - d[1].1 - c.trailing_zeros() as i32;
                self.dy_mk(d[0].0, e, w)
            }
            FOp::Neg => {
                if !(self.smin(d[0].0) > 0 || self.smax(d[0].0) < 0) { return None; }
                let r = self.neg(d[0].0);
                self.dy_mk(r, d[0].1, w)
            }
            FOp::Fabs => {
                let z = self.konst(0, 64);
                let c = self.slt(d[0].0, z);
                let n = self.neg(d[0].0);
                let r = self.ite(c, n, d[0].0);
                self.dy_mk(r, d[0].1, w)
            }
            FOp::Fma => {
                let (p, e) = self.dy_mul(d[0], d[1], w)?;
                if !d[2].2 { return None; }
                let (i, j, e) = self.dy_align((p, e, false), d[2], w)?;
                let r = self.add(i, j);
                self.dy_mk(r, e, w)
            }
            FOp::Oeq | FOp::Olt | FOp::Ole => {
                let (i, j, _) = self.dy_align(d[0], d[1], ow)?;
                Some(match f { FOp::Oeq => self.eq(i, j), FOp::Olt => self.slt(i, j), _ => { let r = self.slt(j, i); self.not(r) } })
            }
            FOp::Uno => Some(0),
            FOp::FToSI | FOp::FToUI => {
                if d[0].1 < 0 { return None; }
                let i = self.dy_scale(d[0].0, d[0].1, ow)?;
                if w > 64 { return None; }
                let (lo, hi) = if f == FOp::FToSI { (smin_w(w), smax_w(w)) } else { (0, mask(w) as i128) };
                if self.smin(i) < lo || self.smax(i) > hi { return None; }
                Some(self.trunc(i, w))
            }
            FOp::Trunc | FOp::Ext => if d[0].2 { self.dy_mk(d[0].0, d[0].1, w) } else { None },
            _ => if d[0].1 >= 0 { Some(args[0]) } else { None },
        }
    }

    // ---------- support (variables + uf ids)
    pub fn children(&self, t: T) -> Vec<T> {
        match self.op(t) {
            Op::Const(_) | Op::Var(_) => vec![],
            Op::Sum(_, v) => v.iter().map(|x| x.1).collect(),
            Op::Prod(v) => v.clone(),
            Op::UDiv(a, b) | Op::URem(a, b) | Op::SDiv(a, b) | Op::SRem(a, b) | Op::And(a, b) | Op::Or(a, b)
            | Op::Xor(a, b) | Op::Shl(a, b) | Op::LShr(a, b) | Op::AShr(a, b) | Op::Eq(a, b) | Op::Ult(a, b)
            | Op::Slt(a, b) | Op::Concat(a, b) => vec![*a, *b],
            Op::Not(a) | Op::ZExt(a) | Op::SExt(a) | Op::Extract(_, a) => vec![*a],
            Op::Ite(a, b, c) => vec![*a, *b, *c],
            Op::Uf(_, v) | Op::F(_, _, v) => v.clone(),
        }
    }
    /// rebuilds t with variables replaced
    pub fn subst(&mut self, t: T, map: &HashMap<u32, T>, memo: &mut HashMap<T, T>) -> T {
        if let Some(&r) = memo.get(&t) { return r; }
        let w = self.w(t);
        let op = self.op(t).clone();
        let r = match op {
            Op::Const(_) => t,
            Op::Var(v) => map.get(&v).copied().unwrap_or(t),
            Op::Sum(c, xs) => {
                let mut acc = self.konst(c, w);
                for (k, x) in xs { let y = self.subst(x, map, memo); acc = self.lin(acc, 1, y, k, w); }
                acc
            }
            Op::Prod(xs) => {
                let mut acc: Option<T> = None;
                for x in xs { let y = self.subst(x, map, memo); acc = Some(match acc { None => y, Some(a) => self.mul(a, y) }); }
                acc.unwrap()
            }
            Op::Not(a) => { let a = self.subst(a, map, memo); self.not(a) }
            Op::ZExt(a) => { let a = self.subst(a, map, memo); self.zext(a, w) }
            Op::SExt(a) => { let a = self.subst(a, map, memo); self.sext(a, w) }
            Op::Extract(l, a) => { let a = self.subst(a, map, memo); self.extract(l, w, a) }
            Op::Ite(c, a, b) => { let c = self.subst(c, map, memo); let a = self.subst(a, map, memo); let b = self.subst(b, map, memo); self.ite(c, a, b) }
            Op::Uf(f, xs) => { let xs = xs.into_iter().map(|x| self.subst(x, map, memo)).collect(); self.uf(f, xs, w) }
            Op::F(f, ow, xs) => { let xs = xs.into_iter().map(|x| self.subst(x, map, memo)).collect(); self.fop(f, ow, xs, w) }
            Op::UDiv(a, b) | Op::URem(a, b) | Op::SDiv(a, b) | Op::SRem(a, b) | Op::And(a, b) | Op::Or(a, b) | Op::Xor(a, b)
            | Op::Shl(a, b) | Op::LShr(a, b) | Op::AShr(a, b) | Op::Eq(a, b) | Op::Ult(a, b) | Op::Slt(a, b) | Op::Concat(a, b) => {
                let a = self.subst(a, map, memo);
                let b = self.subst(b, map, memo);
                match self.op(t).clone() {
                    Op::UDiv(..) => self.udiv(a, b), Op::URem(..) => self.urem(a, b), Op::SDiv(..) => self.sdiv(a, b), Op::SRem(..) => self.srem(a, b),
                    Op::And(..) => self.and(a, b), Op::Or(..) => self.or(a, b), Op::Xor(..) => self.xor(a, b),
                    Op::Shl(..) => self.shl(a, b), Op::LShr(..) => self.lshr(a, b), Op::AShr(..) => self.ashr(a, b),
                    Op::Eq(..) => self.eq(a, b), Op::Ult(..) => self.ult(a, b), Op::Slt(..) => self.slt(a, b), _ => self.concat(a, b),
                }
            }
        };
        memo.insert(t, r);
        r
    }
    pub fn support(&mut self, t: T) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = &self.support[t as usize] { return s.clone(); }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.support[x as usize].is_some() { stack.pop(); continue; }
            let ch = self.children(x);
            let pend: Vec<T> = ch.iter().cloned().filter(|c| self.support[*c as usize].is_none()).collect();
            if !pend.is_empty() { stack.extend(pend); continue; }
            let mut v: Vec<u32> = vec![];
            if let Op::Var(i) = self.op(x) { v.push(*i); }
            if let Op::Uf(f, _) = self.op(x) { v.push(UF_BASE + *f); }
            for c in ch { v.extend(self.support[c as usize].as_ref().unwrap().iter()); }
            v.sort_unstable(); v.dedup();
            self.support[x as usize] = Some(std::rc::Rc::new(v));
            stack.pop();
        }
        self.support[t as usize].as_ref().unwrap().clone()
    }

    // ---------- evaluation under a model
    pub fn eval(&self, t: T, m: &Model, memo: &mut HashMap<T, u128>) -> u128 {
        if let Op::Const(c) = self.n[t as usize].op { return c; }
        if let Some(&v) = memo.get(&t) { return v; }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) { stack.pop(); continue; }
            if let Op::Const(c) = self.n[x as usize].op { memo.insert(x, c); stack.pop(); continue; }
            // lazily evaluate ite branches
            if let Op::Ite(c, a, b) = self.n[x as usize].op {
                match memo.get(&c) {
                    None => { stack.push(c); continue; }
                    Some(&cv) => {
                        let br = if cv == 1 { a } else { b };
                        match memo.get(&br) {
                            None => { stack.push(br); continue; }
                            Some(&v) => { memo.insert(x, v); stack.pop(); continue; }
                        }
                    }
                }
            }
            let ch = self.children(x);
            let mut ready = true;
            for &c in &ch { if !memo.contains_key(&c) { stack.push(c); ready = false; } }
            if !ready { continue; }
            let v = self.eval1(x, &|c| memo[&c], m);
            memo.insert(x, v);
            stack.pop();
        }
        memo[&t]
    }
    fn eval1(&self, x: T, g: &dyn Fn(T) -> u128, m: &Model) -> u128 {
        let n = &self.n[x as usize];
        let w = n.w;
        let mk = mask(w);
        match &n.op {
            Op::Const(c) => *c,
            Op::Var(i) => match m.vals.get(i) {
                Some(v) => *v,
                None => { let vi = &self.vars[*i as usize]; let d = if vi.lo <= 0 && vi.hi >= 0 { 0 } else { vi.lo }; (d as u128) & mask(vi.w) }
            },
            Op::Sum(c, v) => { let mut a = *c; for (k, t) in v { a = a.wrapping_add(k.wrapping_mul(g(*t))); } a & mk }
            Op::Prod(v) => { let mut a = 1u128; for t in v { a = a.wrapping_mul(g(*t)); } a & mk }
            Op::UDiv(a, b) => { let (x, y) = (g(*a), g(*b)); if y == 0 { mk } else { x / y } }
            Op::URem(a, b) => { let (x, y) = (g(*a), g(*b)); if y == 0 { x } else { x % y } }
            Op::SDiv(a, b) => { let (x, y) = (sext(g(*a), w), sext(g(*b), w)); (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u128 & mk }
            Op::SRem(a, b) => { let (x, y) = (sext(g(*a), w), sext(g(*b), w)); (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & mk }
            Op::And(a, b) => g(*a) & g(*b),
            Op::Or(a, b) => g(*a) | g(*b),
            Op::Xor(a, b) => g(*a) ^ g(*b),
            Op::Shl(a, b) => { let k = g(*b); if k >= w as u128 { 0 } else { (g(*a) << k) & mk } }
            Op::LShr(a, b) => { let k = g(*b); if k >= w as u128 { 0 } else { g(*a) >> k } }
            Op::AShr(a, b) => { let k = g(*b).min(w as u128 - 1); ((sext(g(*a), w) >> k) as u128) & mk }
            Op::Not(a) => 1 - g(*a),
            Op::Eq(a, b) => (g(*a) == g(*b)) as u128,
            Op::Ult(a, b) => (g(*a) < g(*b)) as u128,
            Op::Slt(a, b) => { let wa = self.w(*a); (sext(g(*a), wa) < sext(g(*b), wa)) as u128 }
            Op::Ite(c, a, b) => if g(*c) == 1 { g(*a) } else { g(*b) },
            Op::ZExt(a) => g(*a),
            Op::SExt(a) => (sext(g(*a), self.w(*a)) as u128) & mk,
            Op::Extract(lo, a) => (g(*a) >> lo) & mk,
            Op::Concat(h, l) => (g(*h) << self.w(*l)) | g(*l),
            Op::Uf(f, v) => {
                let args: Vec<u128> = v.iter().map(|t| g(*t)).collect();
                match m.uf.get(&(*f, args.clone())) { Some(v) => *v, None => uf_native(*f, &args) & mk }
            }
            Op::F(f, ow, v) => {
                let args: Vec<u128> = v.iter().map(|t| g(*t)).collect();
                eval_f(*f, *ow, &args, w).unwrap_or(0)
            }
        }
    }
    pub fn show(&self, t: T, depth: usize) -> String {
        let n = &self.n[t as usize];
        if depth == 0 { return format!("#{t}"); }
        match &n.op {
            Op::Const(c) => format!("{}", sext(*c, n.w)),
            Op::Var(i) => self.vars[*i as usize].name.clone(),
            Op::Sum(c, v) => {
                let mut s = format!("(+ {}", sext(*c, n.w));
                for (k, t) in v { s += &format!(" {}*{}", sext(*k, n.w), self.show(*t, depth - 1)); }
                s + ")"
            }
            _ => {
                let d = format!("{:?}", n.op);
                let name = d.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
                let mut s = format!("({name}:{}", n.w);
                for c in self.children(t) { s += " "; s += &self.show(c, depth - 1); }
                s + ")"
            }
        }
    }
}

/// Concrete function used for uninterpreted functions in native replay and default evaluation.
pub fn uf_native(f: u32, args: &[u128]) -> u128 {
    if f >= crate::llvm::LIBM_UF { return crate::llvm::libm_native(f - crate::llvm::LIBM_UF, args); }
    let mut h: u64 = 0x9E3779B97F4A7C15u64.wrapping_mul(f as u64 + 1);
    for &a in args {
        h ^= a as u64;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 29;
    }
    h as u128
}

fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }
fn inv_mod(q: u128, w: u32) -> u128 {
    let mut x: u128 = 1;
    for _ in 0..8 { x = x.wrapping_mul(2u128.wrapping_sub(q.wrapping_mul(x))); }
    x & mask(w)
}

pub fn eval_f(f: FOp, ow: u32, a: &[u128], w: u32) -> Option<u128> {
    match ow {
        64 => {
            let x = |i: usize| f64::from_bits(a[i] as u64);
            let r = |v: f64| Some(v.to_bits() as u128);
            match f {
                FOp::Add => r(x(0) + x(1)), FOp::Sub => r(x(0) - x(1)), FOp::Mul => r(x(0) * x(1)),
                FOp::Div => r(x(0) / x(1)), FOp::Rem => r(x(0) % x(1)), FOp::Neg => r(-x(0)),
                FOp::Oeq => Some((x(0) == x(1)) as u128), FOp::Olt => Some((x(0) < x(1)) as u128),
                FOp::Ole => Some((x(0) <= x(1)) as u128),
                FOp::Uno => Some((x(0).is_nan() || x(1).is_nan()) as u128),
                FOp::FToSI => Some(match w { 64 => x(0) as i64 as u64 as u128, 32 => x(0) as i32 as u32 as u128, 16 => x(0) as i16 as u16 as u128, 8 => x(0) as i8 as u8 as u128, 128 => x(0) as i128 as u128, _ => return None }),
                FOp::FToUI => Some(match w { 64 => x(0) as u64 as u128, 32 => x(0) as u32 as u128, 16 => x(0) as u16 as u128, 8 => x(0) as u8 as u128, 128 => x(0) as u128, _ => return None }),
                FOp::Trunc => if w == 32 { Some((x(0) as f32).to_bits() as u128) } else { None },
                FOp::Sqrt => r(x(0).sqrt()), FOp::Fabs => r(x(0).abs()), FOp::Fma => r(x(0).mul_add(x(1), x(2))),
                FOp::Floor => r(x(0).floor()), FOp::Ceil => r(x(0).ceil()), FOp::RTrunc => r(x(0).trunc()),
                FOp::Round => r(x(0).round()), FOp::RoundEven => r(x(0).round_ties_even()), FOp::CopySign => r(x(0).copysign(x(1))),
                FOp::MinNum => r(x(0).min(x(1))), FOp::MaxNum => r(x(0).max(x(1))),
                FOp::SIToF => Some(si_to_f(a[0], 64, w)?), FOp::UIToF => Some(ui_to_f(a[0], w)?),
                FOp::Ext => None,
            }
        }
        32 => {
            let x = |i: usize| f32::from_bits(a[i] as u32);
            let r = |v: f32| Some(v.to_bits() as u128);
            match f {
                FOp::Add => r(x(0) + x(1)), FOp::Sub => r(x(0) - x(1)), FOp::Mul => r(x(0) * x(1)),
                FOp::Div => r(x(0) / x(1)), FOp::Rem => r(x(0) % x(1)), FOp::Neg => r(-x(0)),
                FOp::Oeq => Some((x(0) == x(1)) as u128), FOp::Olt => Some((x(0) < x(1)) as u128),
                FOp::Ole => Some((x(0) <= x(1)) as u128),
                FOp::Uno => Some((x(0).is_nan() || x(1).is_nan()) as u128),
                FOp::FToSI => Some(match w { 64 => x(0) as i64 as u64 as u128, 32 => x(0) as i32 as u32 as u128, 16 => x(0) as i16 as u16 as u128, 8 => x(0) as i8 as u8 as u128, _ => return None }),
                FOp::FToUI => Some(match w { 64 => x(0) as u64 as u128, 32 => x(0) as u32 as u128, 16 => x(0) as u16 as u128, 8 => x(0) as u8 as u128, _ => return None }),
                FOp::Ext => if w == 64 { Some((x(0) as f64).to_bits() as u128) } else { None },
                FOp::Sqrt => r(x(0).sqrt()), FOp::Fabs => r(x(0).abs()), FOp::Fma => r(x(0).mul_add(x(1), x(2))),
                FOp::Floor => r(x(0).floor()), FOp::Ceil => r(x(0).ceil()), FOp::RTrunc => r(x(0).trunc()),
                FOp::Round => r(x(0).round()), FOp::RoundEven => r(x(0).round_ties_even()), FOp::CopySign => r(x(0).copysign(x(1))),
                FOp::MinNum => r(x(0).min(x(1))), FOp::MaxNum => r(x(0).max(x(1))),
                FOp::SIToF => Some(si_to_f(a[0], 32, w)?), FOp::UIToF => Some(ui_to_f(a[0], w)?),
                FOp::Trunc => None,
            }
        }
        // integer operand widths for SIToF/UIToF
        _ => match f {
            FOp::SIToF => si_to_f(a[0], ow, w),
            FOp::UIToF => ui_to_f(a[0], w),
            _ => None,
        },
    }
}
fn si_to_f(v: u128, ow: u32, w: u32) -> Option<u128> {
    let s = sext(v, ow);
    match w { 64 => Some((s as f64).to_bits() as u128), 32 => Some((s as f32).to_bits() as u128), _ => None }
}
fn ui_to_f(v: u128, w: u32) -> Option<u128> {
    match w { 64 => Some((v as f64).to_bits() as u128), 32 => Some((v as f32).to_bits() as u128), _ => None }
}

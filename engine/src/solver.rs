//! z3 (through its C API, dlopen'd): satisfiability of conjunctions of boolean terms.
use crate::dl::Lib;
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, CStr, CString, c_void};
use std::rc::Rc;
use std::time::Instant;

type Z = *mut c_void;
crate::dl_api!(Z3 {
    fn Z3_mk_config() -> Z;
    fn Z3_mk_context(Z) -> Z;
    fn Z3_set_error_handler(Z, *const c_void);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_inc_ref(Z, Z);
    fn Z3_mk_bv_sort(Z, c_uint) -> Z;
    fn Z3_mk_bool_sort(Z) -> Z;
    fn Z3_mk_string_symbol(Z, *const c_char) -> Z;
    fn Z3_mk_const(Z, Z, Z) -> Z;
    fn Z3_mk_func_decl(Z, Z, c_uint, *const Z, Z) -> Z;
    fn Z3_mk_app(Z, Z, c_uint, *const Z) -> Z;
    fn Z3_mk_numeral(Z, *const c_char, Z) -> Z;
    fn Z3_mk_unsigned_int64(Z, u64, Z) -> Z;
    fn Z3_mk_true(Z) -> Z;
    fn Z3_mk_false(Z) -> Z;
    fn Z3_mk_not(Z, Z) -> Z;
    fn Z3_mk_and(Z, c_uint, *const Z) -> Z;
    fn Z3_mk_or(Z, c_uint, *const Z) -> Z;
    fn Z3_mk_xor(Z, Z, Z) -> Z;
    fn Z3_mk_ite(Z, Z, Z, Z) -> Z;
    fn Z3_mk_eq(Z, Z, Z) -> Z;
    fn Z3_mk_bvadd(Z, Z, Z) -> Z;
    fn Z3_mk_bvmul(Z, Z, Z) -> Z;
    fn Z3_mk_bvudiv(Z, Z, Z) -> Z;
    fn Z3_mk_bvurem(Z, Z, Z) -> Z;
    fn Z3_mk_bvsdiv(Z, Z, Z) -> Z;
    fn Z3_mk_bvsrem(Z, Z, Z) -> Z;
    fn Z3_mk_bvand(Z, Z, Z) -> Z;
    fn Z3_mk_bvor(Z, Z, Z) -> Z;
    fn Z3_mk_bvxor(Z, Z, Z) -> Z;
    fn Z3_mk_bvshl(Z, Z, Z) -> Z;
    fn Z3_mk_bvlshr(Z, Z, Z) -> Z;
    fn Z3_mk_bvashr(Z, Z, Z) -> Z;
    fn Z3_mk_bvult(Z, Z, Z) -> Z;
    fn Z3_mk_bvslt(Z, Z, Z) -> Z;
    fn Z3_mk_bvsle(Z, Z, Z) -> Z;
    fn Z3_mk_sign_ext(Z, c_uint, Z) -> Z;
    fn Z3_mk_zero_ext(Z, c_uint, Z) -> Z;
    fn Z3_mk_extract(Z, c_uint, c_uint, Z) -> Z;
    fn Z3_mk_concat(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_sort(Z, c_uint, c_uint) -> Z;
    fn Z3_mk_fpa_to_fp_bv(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_to_ieee_bv(Z, Z) -> Z;
    fn Z3_mk_fpa_rne(Z) -> Z;
    fn Z3_mk_fpa_rtz(Z) -> Z;
    fn Z3_mk_fpa_rtn(Z) -> Z;
    fn Z3_mk_fpa_rtp(Z) -> Z;
    fn Z3_mk_fpa_rna(Z) -> Z;
    fn Z3_mk_fpa_add(Z, Z, Z, Z) -> Z;
    fn Z3_mk_fpa_sub(Z, Z, Z, Z) -> Z;
    fn Z3_mk_fpa_mul(Z, Z, Z, Z) -> Z;
    fn Z3_mk_fpa_div(Z, Z, Z, Z) -> Z;
    fn Z3_mk_fpa_fma(Z, Z, Z, Z, Z) -> Z;
    fn Z3_mk_fpa_sqrt(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_abs(Z, Z) -> Z;
    fn Z3_mk_fpa_neg(Z, Z) -> Z;
    fn Z3_mk_fpa_round_to_integral(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_eq(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_lt(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_leq(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_min(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_max(Z, Z, Z) -> Z;
    fn Z3_mk_fpa_is_nan(Z, Z) -> Z;
    fn Z3_mk_fpa_to_sbv(Z, Z, Z, c_uint) -> Z;
    fn Z3_mk_fpa_to_ubv(Z, Z, Z, c_uint) -> Z;
    fn Z3_mk_fpa_to_fp_signed(Z, Z, Z, Z) -> Z;
    fn Z3_mk_fpa_to_fp_unsigned(Z, Z, Z, Z) -> Z;
    fn Z3_mk_fpa_to_fp_float(Z, Z, Z, Z) -> Z;
    fn Z3_mk_int_sort(Z) -> Z;
    fn Z3_mk_add(Z, c_uint, *const Z) -> Z;
    fn Z3_mk_mul(Z, c_uint, *const Z) -> Z;
    fn Z3_mk_unary_minus(Z, Z) -> Z;
    fn Z3_mk_div(Z, Z, Z) -> Z;
    fn Z3_mk_mod(Z, Z, Z) -> Z;
    fn Z3_mk_lt(Z, Z, Z) -> Z;
    fn Z3_mk_le(Z, Z, Z) -> Z;
    fn Z3_mk_solver(Z) -> Z;
    fn Z3_mk_simple_solver(Z) -> Z;
    fn Z3_mk_solver_for_logic(Z, Z) -> Z;
    fn Z3_solver_inc_ref(Z, Z);
    fn Z3_solver_reset(Z, Z);
    fn Z3_solver_push(Z, Z);
    fn Z3_solver_pop(Z, Z, c_uint);
    fn Z3_solver_assert(Z, Z, Z);
    fn Z3_solver_check(Z, Z) -> c_int;
    fn Z3_solver_check_assumptions(Z, Z, c_uint, *const Z) -> c_int;
    fn Z3_solver_get_model(Z, Z) -> Z;
    fn Z3_solver_set_params(Z, Z, Z);
    fn Z3_mk_params(Z) -> Z;
    fn Z3_params_inc_ref(Z, Z);
    fn Z3_params_set_uint(Z, Z, Z, c_uint);
    fn Z3_model_inc_ref(Z, Z);
    fn Z3_model_dec_ref(Z, Z);
    fn Z3_model_eval(Z, Z, Z, bool, *mut Z) -> bool;
    fn Z3_get_numeral_string(Z, Z) -> *const c_char;
    fn Z3_get_bool_value(Z, Z) -> c_int;
    fn Z3_get_ast_kind(Z, Z) -> c_uint;
});

#[derive(Clone, Copy)]
struct Enc { z: Z, k: u32 }

#[derive(Default, Clone, Debug)]
pub struct SStats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache: u64, pub model_hits: u64, pub trivial: u64, pub int: u64, pub time: f64, pub max: f64 }

pub enum Res { Sat(Rc<Model>), Unsat, Unknown }

pub struct Solver {
    z: Z3,
    c: Z,
    s: Z,
    si: Z, sf: Z, su: Z, kinds: HashMap<T, u8>,
    ienc: Vec<u8>,
    ienz: Vec<Z>,
    ivar_dom: HashMap<u32, Z>,
    iufs: HashMap<(u32, usize), Z>,
    pub int_mode: bool,
    enc: Vec<Option<Enc>>,
    var_dom: HashMap<u32, Z>,
    ufs: HashMap<(u32, usize), Z>,
    fp_memo: HashMap<T, Z>,
    cache: HashMap<Vec<T>, Option<Rc<Model>>>,
    recent: Vec<Rc<Model>>,
    asserted: Vec<T>,
    pub st: SStats,
    pub timeout_ms: u32,
    pub version: String,
    bv: HashMap<u32, Z>,
}

fn bits_for(lo: i128, hi: i128, w: u32) -> u32 {
    let f = |x: i128| -> u32 { 128 - (if x < 0 { !x } else { x } as u128).leading_zeros() + 1 };
    f(lo).max(f(hi)).min(w).max(1)
}

extern "C" fn zerr(_c: Z, e: c_int) { eprintln!("z3 error {e}"); std::process::abort(); }

impl Solver {
    pub fn new(paths: &[String], timeout_ms: u32) -> Result<Solver, String> {
        let mut err = String::new();
        for p in paths {
            match Lib::open(p) {
                Ok(l) => {
                    let z = Z3::load(&l);
                    std::mem::forget(l);
                    unsafe {
                        let cfg = (z.Z3_mk_config)();
                        let c = (z.Z3_mk_context)(cfg);
                        (z.Z3_set_error_handler)(c, zerr as *const c_void);
                        let version = CStr::from_ptr((z.Z3_get_full_version)()).to_string_lossy().to_string();
                        let s = match std::env::var("SX_LOGIC") {
                            Ok(l) if l == "simple" => (z.Z3_mk_simple_solver)(c),
                            Ok(l) if l == "default" => (z.Z3_mk_solver)(c),
                            Ok(l) => { let k = CString::new(l).unwrap(); let sym = (z.Z3_mk_string_symbol)(c, k.as_ptr()); (z.Z3_mk_solver_for_logic)(c, sym) }
                            _ => { let k = CString::new("QF_BV").unwrap(); let sym = (z.Z3_mk_string_symbol)(c, k.as_ptr()); (z.Z3_mk_solver_for_logic)(c, sym) }
                        };
                        (z.Z3_solver_inc_ref)(c, s);
                        let p = (z.Z3_mk_params)(c);
                        (z.Z3_params_inc_ref)(c, p);
                        let k = CString::new("timeout").unwrap();
                        let sym = (z.Z3_mk_string_symbol)(c, k.as_ptr());
                        (z.Z3_params_set_uint)(c, p, sym, timeout_ms);
                        (z.Z3_solver_set_params)(c, s, p);
                        let si = (z.Z3_mk_simple_solver)(c);
                        (z.Z3_solver_inc_ref)(c, si);
                        let k = CString::new("QF_BVFP").unwrap();
                        let sym = (z.Z3_mk_string_symbol)(c, k.as_ptr());
                        let sf = (z.Z3_mk_solver_for_logic)(c, sym);
                        (z.Z3_solver_inc_ref)(c, sf);
                        let su = (z.Z3_mk_simple_solver)(c);
                        (z.Z3_solver_inc_ref)(c, su);
                        let int_mode = std::env::var("SX_NOINT").is_err();
                        return Ok(Solver { z, c, s, si, sf, su, kinds: HashMap::new(), ienc: vec![], ienz: vec![], ivar_dom: HashMap::new(), iufs: HashMap::new(), int_mode, enc: vec![], var_dom: HashMap::new(), ufs: HashMap::new(), fp_memo: HashMap::new(), cache: HashMap::new(), recent: vec![], asserted: vec![], st: Default::default(), timeout_ms, version, bv: HashMap::new() });
                    }
                }
                Err(e) => err = e,
            }
        }
        Err(err)
    }
    fn keep(&self, a: Z) -> Z { unsafe { (self.z.Z3_inc_ref)(self.c, a); } a }
    fn bvs(&mut self, k: u32) -> Z {
        if let Some(s) = self.bv.get(&k) { return *s; }
        let s = unsafe { (self.z.Z3_mk_bv_sort)(self.c, k) };
        self.keep(s);
        self.bv.insert(k, s);
        s
    }
    fn num(&mut self, v: u128, k: u32) -> Z {
        let s = self.bvs(k);
        let v = v & mask(k);
        unsafe {
            if k <= 64 { (self.z.Z3_mk_unsigned_int64)(self.c, v as u64, s) }
            else { let t = CString::new(v.to_string()).unwrap(); (self.z.Z3_mk_numeral)(self.c, t.as_ptr(), s) }
        }
    }
    /// signed resize
    fn rs(&mut self, e: Enc, k: u32) -> Z {
        unsafe {
            if e.k == k { e.z } else if e.k < k { (self.z.Z3_mk_sign_ext)(self.c, k - e.k, e.z) }
            else { (self.z.Z3_mk_extract)(self.c, k - 1, 0, e.z) }
        }
    }
    /// as bit-vector (booleans become 1-bit)
    fn bvof(&mut self, ts: &Terms, t: T) -> Enc {
        let e = self.enc[t as usize].unwrap();
        if ts.w(t) == 1 {
            let (a, b) = (self.num(1, 1), self.num(0, 1));
            return Enc { z: unsafe { (self.z.Z3_mk_ite)(self.c, e.z, a, b) }, k: 1 };
        }
        e
    }
    fn full(&mut self, ts: &Terms, t: T, w: u32) -> Z { let e = self.bvof(ts, t); self.rs(e, w) }

    fn encode(&mut self, ts: &Terms, t: T) -> Enc {
        if self.enc.len() < ts.n.len() { self.enc.resize(ts.n.len(), None); }
        if let Some(e) = self.enc[t as usize] { return e; }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.enc[x as usize].is_some() { stack.pop(); continue; }
            let mut ready = true;
            for c in ts.children(x) { if self.enc[c as usize].is_none() { stack.push(c); ready = false; } }
            if !ready { continue; }
            let e = self.encode1(ts, x);
            self.keep(e.z);
            self.enc[x as usize] = Some(e);
            stack.pop();
        }
        self.enc[t as usize].unwrap()
    }
    fn encode1(&mut self, ts: &Terms, x: T) -> Enc {
        let n = &ts.n[x as usize];
        let w = n.w;
        let k = if w == 1 { 0 } else { bits_for(n.smin, n.smax, w) };
        let c = self.c;
        macro_rules! z { ($f:ident $(, $a:expr)*) => { unsafe { (self.z.$f)(c $(, $a)*) } } }
        // produce (z, bits) for the op then resize to k
        let r: Enc = match &n.op {
            Op::Const(v) => {
                if w == 1 { return Enc { z: if *v == 1 { z!(Z3_mk_true) } else { z!(Z3_mk_false) }, k: 0 }; }
                Enc { z: self.num(*v, k), k }
            }
            Op::Var(i) => {
                let vi = &ts.vars[*i as usize];
                let name = CString::new(format!("v{}", i)).unwrap();
                let sym = z!(Z3_mk_string_symbol, name.as_ptr());
                if w == 1 { let s = z!(Z3_mk_bool_sort); return Enc { z: z!(Z3_mk_const, sym, s), k: 0 }; }
                let s = self.bvs(k);
                let v = z!(Z3_mk_const, sym, s);
                let full_lo = if k >= 128 { i128::MIN } else { -(1i128 << (k - 1)) };
                let full_hi = if k >= 128 { i128::MAX } else { (1i128 << (k - 1)) - 1 };
                if vi.lo > full_lo || vi.hi < full_hi {
                    let (a, b) = (self.num(vi.lo as u128, k), self.num(vi.hi as u128, k));
                    let p = z!(Z3_mk_bvsle, a, v);
                    let q = z!(Z3_mk_bvsle, v, b);
                    let d = z!(Z3_mk_and, 2, [p, q].as_ptr());
                    self.keep(d);
                    self.var_dom.insert(*i, d);
                }
                Enc { z: v, k }
            }
            Op::Sum(cst, v) => {
                let mut acc = if *cst & mask(k) != 0 { Some(self.num(*cst, k)) } else { None };
                for (q, t) in v.clone() {
                    let e = self.bvof(ts, t);
                    let a = self.rs(e, k);
                    let m = if q & mask(k) == 1 { a } else { let q = self.num(q, k); z!(Z3_mk_bvmul, q, a) };
                    acc = Some(match acc { None => m, Some(p) => z!(Z3_mk_bvadd, p, m) });
                }
                Enc { z: acc.unwrap(), k }
            }
            Op::Prod(v) => {
                let mut acc: Option<Z> = None;
                for t in v.clone() {
                    let a = self.full(ts, t, k);
                    acc = Some(match acc { None => a, Some(p) => z!(Z3_mk_bvmul, p, a) });
                }
                Enc { z: acc.unwrap(), k }
            }
            Op::UDiv(a, b) | Op::URem(a, b) | Op::SDiv(a, b) | Op::SRem(a, b) => {
                let (a, b) = (*a, *b);
                let signed = matches!(n.op, Op::SDiv(..) | Op::SRem(..));
                let (ea, eb) = (self.bvof(ts, a), self.bvof(ts, b));
                let mut kk = ea.k.max(eb.k);
                if !signed { if ts.smin(a) < 0 || ts.smin(b) < 0 { kk = w; } } else { kk = (kk + 1).min(w); }
                // division by zero semantics agree between widths only for b != 0; b's range must exclude 0 or use full width
                if ts.smin(b) <= 0 && ts.smax(b) >= 0 { kk = w; }
                let (x, y) = (self.rs(ea, kk), self.rs(eb, kk));
                let r = match n.op { Op::UDiv(..) => z!(Z3_mk_bvudiv, x, y), Op::URem(..) => z!(Z3_mk_bvurem, x, y), Op::SDiv(..) => z!(Z3_mk_bvsdiv, x, y), _ => z!(Z3_mk_bvsrem, x, y) };
                Enc { z: r, k: kk }
            }
            Op::And(a, b) | Op::Or(a, b) | Op::Xor(a, b) => {
                let (a, b) = (*a, *b);
                if w == 1 {
                    let (x, y) = (self.enc[a as usize].unwrap().z, self.enc[b as usize].unwrap().z);
                    let r = match n.op { Op::And(..) => z!(Z3_mk_and, 2, [x, y].as_ptr()), Op::Or(..) => z!(Z3_mk_or, 2, [x, y].as_ptr()), _ => z!(Z3_mk_xor, x, y) };
                    return Enc { z: r, k: 0 };
                }
                let (ea, eb) = (self.bvof(ts, a), self.bvof(ts, b));
                let kk = ea.k.max(eb.k);
                let (x, y) = (self.rs(ea, kk), self.rs(eb, kk));
                let r = match n.op { Op::And(..) => z!(Z3_mk_bvand, x, y), Op::Or(..) => z!(Z3_mk_bvor, x, y), _ => z!(Z3_mk_bvxor, x, y) };
                Enc { z: r, k: kk }
            }
            Op::Shl(a, b) | Op::LShr(a, b) | Op::AShr(a, b) => {
                let (x, y) = (self.full(ts, *a, w), self.full(ts, *b, w));
                let r = match n.op { Op::Shl(..) => z!(Z3_mk_bvshl, x, y), Op::LShr(..) => z!(Z3_mk_bvlshr, x, y), _ => z!(Z3_mk_bvashr, x, y) };
                Enc { z: r, k: w }
            }
            Op::Not(a) => { let x = self.enc[*a as usize].unwrap().z; return Enc { z: z!(Z3_mk_not, x), k: 0 }; }
            Op::Eq(a, b) => {
                let (a, b) = (*a, *b);
                let r = if ts.w(a) == 1 { let (x, y) = (self.enc[a as usize].unwrap().z, self.enc[b as usize].unwrap().z); z!(Z3_mk_eq, x, y) }
                else {
                    let (ea, eb) = (self.bvof(ts, a), self.bvof(ts, b));
                    let kk = ea.k.max(eb.k);
                    let (x, y) = (self.rs(ea, kk), self.rs(eb, kk));
                    z!(Z3_mk_eq, x, y)
                };
                return Enc { z: r, k: 0 };
            }
            Op::Ult(a, b) | Op::Slt(a, b) => {
                let (ea, eb) = (self.bvof(ts, *a), self.bvof(ts, *b));
                let kk = ea.k.max(eb.k);
                let (x, y) = (self.rs(ea, kk), self.rs(eb, kk));
                let r = if matches!(n.op, Op::Ult(..)) { z!(Z3_mk_bvult, x, y) } else { z!(Z3_mk_bvslt, x, y) };
                return Enc { z: r, k: 0 };
            }
            Op::Ite(cc, a, b) => {
                let cz = self.enc[*cc as usize].unwrap().z;
                if w == 1 {
                    let (x, y) = (self.enc[*a as usize].unwrap().z, self.enc[*b as usize].unwrap().z);
                    return Enc { z: z!(Z3_mk_ite, cz, x, y), k: 0 };
                }
                let (x, y) = (self.full(ts, *a, k), self.full(ts, *b, k));
                Enc { z: z!(Z3_mk_ite, cz, x, y), k }
            }
            Op::ZExt(a) => {
                let e = self.bvof(ts, *a);
                let wa = ts.w(*a);
                if wa > 1 && ts.smin(*a) >= 0 { e } else {
                    let f = self.rs(e, wa);
                    Enc { z: z!(Z3_mk_zero_ext, 1, f), k: wa + 1 }
                }
            }
            Op::SExt(a) => self.bvof(ts, *a),
            Op::Extract(lo, a) => {
                let e = self.bvof(ts, *a);
                let need = lo + w;
                let f = if e.k < need { Enc { z: self.rs(e, need), k: need } } else { e };
                let r = z!(Z3_mk_extract, need - 1, *lo, f.z);
                if w == 1 { let one = self.num(1, 1); return Enc { z: z!(Z3_mk_eq, r, one), k: 0 }; }
                Enc { z: r, k: w }
            }
            Op::Concat(h, l) => {
                let (x, y) = (self.full(ts, *h, ts.w(*h)), self.full(ts, *l, ts.w(*l)));
                Enc { z: z!(Z3_mk_concat, x, y), k: w }
            }
            Op::Uf(f, v) => {
                let args: Vec<Z> = v.clone().iter().map(|t| self.full(ts, *t, ts.w(*t))).collect();
                let key = (*f, v.len());
                let decl = match self.ufs.get(&key) {
                    Some(d) => *d,
                    None => {
                        let name = CString::new(format!("uf{}_{}", f, v.len())).unwrap();
                        let sym = z!(Z3_mk_string_symbol, name.as_ptr());
                        let dom: Vec<Z> = v.clone().iter().map(|t| self.bvs(ts.w(*t))).collect();
                        let rng = self.bvs(w);
                        let d = z!(Z3_mk_func_decl, sym, dom.len() as u32, dom.as_ptr(), rng);
                        self.keep(d);
                        self.ufs.insert(key, d);
                        d
                    }
                };
                Enc { z: z!(Z3_mk_app, decl, args.len() as u32, args.as_ptr()), k: w }
            }
            Op::F(f, ow, v) => return self.encode_f(ts, *f, *ow, &v.clone(), w),
        };
        if w == 1 { return r; }
        let zz = self.rs(r, k);
        Enc { z: zz, k }
    }
    /// floating point sorted encoding of a term of width `ow`
    fn encode_fp(&mut self, ts: &Terms, t: T, ow: u32) -> Z {
        let c = self.c;
        if let Some(z) = self.fp_memo.get(&t) { return *z; }
        let z = match ts.op(t) {
            Op::F(f, iw, v) if !matches!(f, FOp::Oeq | FOp::Olt | FOp::Ole | FOp::Uno | FOp::FToSI | FOp::FToUI) => {
                let (f, iw, v) = (*f, *iw, v.clone());
                self.encode_f_val(ts, f, iw, &v, ow)
            }
            Op::Ite(q, a, b) => {
                let (q, a, b) = (*q, *a, *b);
                let qz = self.encode(ts, q).z;
                let (x, y) = (self.encode_fp(ts, a, ow), self.encode_fp(ts, b, ow));
                unsafe { (self.z.Z3_mk_ite)(c, qz, x, y) }
            }
            _ => {
                let b = self.full(ts, t, ow);
                unsafe { let s = if ow == 64 { (self.z.Z3_mk_fpa_sort)(c, 11, 53) } else { (self.z.Z3_mk_fpa_sort)(c, 8, 24) }; (self.z.Z3_mk_fpa_to_fp_bv)(c, b, s) }
            }
        };
        unsafe { (self.z.Z3_inc_ref)(c, z) };
        self.fp_memo.insert(t, z);
        z
    }
    fn encode_f(&mut self, ts: &Terms, f: FOp, ow: u32, v: &[T], w: u32) -> Enc {
        let c = self.c;
        macro_rules! z { ($f:ident $(, $a:expr)*) => { unsafe { (self.z.$f)(c $(, $a)*) } } }
        if matches!(f, FOp::Oeq | FOp::Olt | FOp::Ole | FOp::Uno | FOp::FToSI | FOp::FToUI) {
            let a: Vec<Z> = v.iter().map(|&t| self.encode_fp(ts, t, ow)).collect();
            return match f {
                FOp::Oeq => Enc { z: z!(Z3_mk_fpa_eq, a[0], a[1]), k: 0 },
                FOp::Olt => Enc { z: z!(Z3_mk_fpa_lt, a[0], a[1]), k: 0 },
                FOp::Ole => Enc { z: z!(Z3_mk_fpa_leq, a[0], a[1]), k: 0 },
                FOp::Uno => { let (x, y) = (z!(Z3_mk_fpa_is_nan, a[0]), z!(Z3_mk_fpa_is_nan, a[1])); Enc { z: z!(Z3_mk_or, 2, [x, y].as_ptr()), k: 0 } }
                FOp::FToSI => { let m = z!(Z3_mk_fpa_rtz); Enc { z: z!(Z3_mk_fpa_to_sbv, m, a[0], w), k: w } }
                _ => { let m = z!(Z3_mk_fpa_rtz); Enc { z: z!(Z3_mk_fpa_to_ubv, m, a[0], w), k: w } }
            };
        }
        let r = self.encode_f_val(ts, f, ow, v, w);
        Enc { z: z!(Z3_mk_fpa_to_ieee_bv, r), k: w }
    }
    fn encode_f_val(&mut self, ts: &Terms, f: FOp, ow: u32, v: &[T], w: u32) -> Z {
        let c = self.c;
        macro_rules! z { ($f:ident $(, $a:expr)*) => { unsafe { (self.z.$f)(c $(, $a)*) } } }
        let sort = |s: &Self, w: u32| unsafe { if w == 64 { (s.z.Z3_mk_fpa_sort)(c, 11, 53) } else { (s.z.Z3_mk_fpa_sort)(c, 8, 24) } };
        let rne = z!(Z3_mk_fpa_rne);
        if matches!(f, FOp::SIToF | FOp::UIToF) {
            let a = self.full(ts, v[0], ts.w(v[0]));
            let s = sort(self, w);
            let r = if f == FOp::SIToF { z!(Z3_mk_fpa_to_fp_signed, rne, a, s) } else { z!(Z3_mk_fpa_to_fp_unsigned, rne, a, s) };
            return r;
        }
        let a: Vec<Z> = v.iter().map(|&t| self.encode_fp(ts, t, ow)).collect();
        match f {
            FOp::Add => z!(Z3_mk_fpa_add, rne, a[0], a[1]),
            FOp::Sub => z!(Z3_mk_fpa_sub, rne, a[0], a[1]),
            FOp::Mul => z!(Z3_mk_fpa_mul, rne, a[0], a[1]),
            FOp::Div => z!(Z3_mk_fpa_div, rne, a[0], a[1]),
            FOp::Neg => z!(Z3_mk_fpa_neg, a[0]),
            FOp::Fabs => z!(Z3_mk_fpa_abs, a[0]),
            FOp::Sqrt => z!(Z3_mk_fpa_sqrt, rne, a[0]),
            FOp::Fma => z!(Z3_mk_fpa_fma, rne, a[0], a[1], a[2]),
            FOp::MinNum => z!(Z3_mk_fpa_min, a[0], a[1]),
            FOp::MaxNum => z!(Z3_mk_fpa_max, a[0], a[1]),
            FOp::Floor => { let m = z!(Z3_mk_fpa_rtn); z!(Z3_mk_fpa_round_to_integral, m, a[0]) }
            FOp::Ceil => { let m = z!(Z3_mk_fpa_rtp); z!(Z3_mk_fpa_round_to_integral, m, a[0]) }
            FOp::RTrunc => { let m = z!(Z3_mk_fpa_rtz); z!(Z3_mk_fpa_round_to_integral, m, a[0]) }
            FOp::Round => { let m = z!(Z3_mk_fpa_rna); z!(Z3_mk_fpa_round_to_integral, m, a[0]) }
            FOp::RoundEven => z!(Z3_mk_fpa_round_to_integral, rne, a[0]),
            FOp::Trunc | FOp::Ext => { let s = sort(self, w); z!(Z3_mk_fpa_to_fp_float, rne, a[0], s) }
            f => { eprintln!("unsupported float op {f:?}"); std::process::exit(3) }
        }
    }

    // ---------- integer encoding: usable when no sub-term can wrap
    fn inum(&self, v: i128) -> Z {
        unsafe {
            let s = (self.z.Z3_mk_int_sort)(self.c);
            let t = CString::new(v.to_string()).unwrap();
            (self.z.Z3_mk_numeral)(self.c, t.as_ptr(), s)
        }
    }
    fn ipow(&self, w: u32) -> Z {
        unsafe {
            let s = (self.z.Z3_mk_int_sort)(self.c);
            // 2^w as a decimal string
            let mut d = vec![1u8];
            for _ in 0..w { let mut c = 0; for x in d.iter_mut() { let v = *x * 2 + c; *x = v % 10; c = v / 10; } if c > 0 { d.push(c); } }
            let t: String = d.iter().rev().map(|x| (b'0' + x) as char).collect();
            let t = CString::new(t).unwrap();
            (self.z.Z3_mk_numeral)(self.c, t.as_ptr(), s)
        }
    }
    /// signed wrap of an integer to w bits
    fn iwrap(&self, e: Z, w: u32) -> Z {
        unsafe {
            let (h, f) = (self.ipow(w - 1), self.ipow(w));
            let a = (self.z.Z3_mk_add)(self.c, 2, [e, h].as_ptr());
            let m = (self.z.Z3_mk_mod)(self.c, a, f);
            let nh = (self.z.Z3_mk_unary_minus)(self.c, h);
            (self.z.Z3_mk_add)(self.c, 2, [m, nh].as_ptr())
        }
    }
    /// wraps e, known to lie in [lo, hi], into w signed bits
    fn iwrap_iv(&self, e: Z, w: u32, iv: Option<(i128, i128)>) -> Z {
        if w <= 64 {
            if let Some((lo, hi)) = iv {
                let f = 1i128 << w;
                let (a, b) = (-(f / 2), f / 2 - 1);
                if lo >= a && hi <= b { return e; }
                if lo >= a - f && hi <= b + f {
                    unsafe {
                        let fz = self.ipow(w);
                        let nf = (self.z.Z3_mk_unary_minus)(self.c, fz);
                        let mut r = e;
                        if hi > b {
                            let k = self.inum(b);
                            let c = (self.z.Z3_mk_lt)(self.c, k, e);
                            let x = (self.z.Z3_mk_add)(self.c, 2, [e, nf].as_ptr());
                            r = (self.z.Z3_mk_ite)(self.c, c, x, r);
                        }
                        if lo < a {
                            let k = self.inum(a);
                            let c = (self.z.Z3_mk_lt)(self.c, e, k);
                            let x = (self.z.Z3_mk_add)(self.c, 2, [e, fz].as_ptr());
                            r = (self.z.Z3_mk_ite)(self.c, c, x, r);
                        }
                        return r;
                    }
                }
            }
        }
        self.iwrap(e, w)
    }
    /// unsigned value
    fn iuns(&self, ts: &Terms, t: T) -> Z {
        let e = self.ienz[t as usize];
        if ts.smin(t) >= 0 { return e; }
        unsafe {
            let z = self.inum(0);
            let f = self.ipow(ts.w(t));
            let c = (self.z.Z3_mk_lt)(self.c, e, z);
            let a = (self.z.Z3_mk_add)(self.c, 2, [e, f].as_ptr());
            (self.z.Z3_mk_ite)(self.c, c, a, e)
        }
    }
    fn encode_int(&mut self, ts: &Terms, t: T) -> Option<Z> {
        if self.ienc.len() < ts.n.len() { self.ienc.resize(ts.n.len(), 0); self.ienz.resize(ts.n.len(), std::ptr::null_mut()); }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.ienc[x as usize] != 0 { stack.pop(); continue; }
            let mut ready = true;
            let mut bad = false;
            for c in ts.children(x) {
                match self.ienc[c as usize] { 0 => { stack.push(c); ready = false; } 2 => bad = true, _ => {} }
            }
            if bad { self.ienc[x as usize] = 2; continue; }
            if !ready { continue; }
            match self.encode_int1(ts, x) {
                Some(z) => { self.ienz[x as usize] = z; self.ienc[x as usize] = 1; }
                None => self.ienc[x as usize] = 2,
            }
            stack.pop();
        }
        if self.ienc[t as usize] == 1 { Some(self.ienz[t as usize]) } else { None }
    }
    fn encode_int1(&mut self, ts: &Terms, x: T) -> Option<Z> {
        let n = &ts.n[x as usize];
        let w = n.w;
        let c = self.c;
        macro_rules! z { ($f:ident $(, $a:expr)*) => { unsafe { (self.z.$f)(c $(, $a)*) } } }
        let g = |s: &Self, t: T| s.ienz[t as usize];
        Some(match &n.op {
            Op::Const(v) => if w == 1 { if *v == 1 { z!(Z3_mk_true) } else { z!(Z3_mk_false) } } else { self.inum(sext(*v, w)) },
            Op::Var(i) => {
                let vi = &ts.vars[*i as usize];
                let name = CString::new(format!("i{}", i)).unwrap();
                let sym = z!(Z3_mk_string_symbol, name.as_ptr());
                if w == 1 { let s = z!(Z3_mk_bool_sort); return Some(z!(Z3_mk_const, sym, s)); }
                let s = z!(Z3_mk_int_sort);
                let v = z!(Z3_mk_const, sym, s);
                let (a, b) = (self.inum(vi.lo), self.inum(vi.hi));
                let p = z!(Z3_mk_le, a, v);
                let q = z!(Z3_mk_le, v, b);
                let d = z!(Z3_mk_and, 2, [p, q].as_ptr());
                self.ivar_dom.insert(*i, d);
                v
            }
            Op::Sum(cst, v) => {
                let mut a = vec![];
                if *cst != 0 { a.push(self.inum(sext(*cst, w))); }
                for (q, t) in v {
                    if ts.w(*t) == 1 { return None; }
                    let q = sext(*q, w);
                    if q == 1 { a.push(g(self, *t)); } else { let k = self.inum(q); let e = g(self, *t); a.push(z!(Z3_mk_mul, 2, [k, e].as_ptr())); }
                }
                let r = z!(Z3_mk_add, a.len() as u32, a.as_ptr());
                if n.exact { r } else { self.iwrap_iv(r, w, ts.poly_interval(*cst, v, w)) }
            }
            Op::Prod(v) => {
                let a: Vec<Z> = v.iter().map(|t| g(self, *t)).collect();
                let r = z!(Z3_mk_mul, a.len() as u32, a.as_ptr());
                if n.exact { r } else { self.iwrap(r, w) }
            }
            Op::UDiv(a, b) | Op::URem(a, b) => {
                // division by zero is unconstrained over the integers: an over-approximation, models are re-evaluated
                if w > 64 && (ts.smin(*a) < 0 || ts.smin(*b) < 0) { return None; }
                let (p, q) = (self.iuns(ts, *a), self.iuns(ts, *b));
                let r = if matches!(n.op, Op::UDiv(..)) { z!(Z3_mk_div, p, q) } else { z!(Z3_mk_mod, p, q) };
                if n.smin >= 0 { r } else { self.iwrap_iv(r, w, Some((0, (1i128 << w) - 1))) }
            }
            Op::SDiv(a, b) | Op::SRem(a, b) => {
                if w <= 64 && ts.smin(*a) == -(1i128 << (w - 1)) { return None; }
                let (p, q) = (g(self, *a), g(self, *b));
                let zero = self.inum(0);
                // truncated division from Euclidean: a >= 0 -> div ; a < 0 -> -((-a) div b)
                let neg = z!(Z3_mk_lt, p, zero);
                let mp = z!(Z3_mk_unary_minus, p);
                let d1 = z!(Z3_mk_div, p, q);
                let d2 = z!(Z3_mk_div, mp, q);
                let d2 = z!(Z3_mk_unary_minus, d2);
                let d = z!(Z3_mk_ite, neg, d2, d1);
                if matches!(n.op, Op::SDiv(..)) { d } else {
                    let m = z!(Z3_mk_mul, 2, [d, q].as_ptr());
                    let m = z!(Z3_mk_unary_minus, m);
                    z!(Z3_mk_add, 2, [p, m].as_ptr())
                }
            }
            Op::And(a, b) if w == 1 => z!(Z3_mk_and, 2, [g(self, *a), g(self, *b)].as_ptr()),
            Op::Or(a, b) if w == 1 => z!(Z3_mk_or, 2, [g(self, *a), g(self, *b)].as_ptr()),
            Op::Xor(a, b) if w == 1 => z!(Z3_mk_xor, g(self, *a), g(self, *b)),
            Op::Not(a) => z!(Z3_mk_not, g(self, *a)),
            Op::Eq(a, b) => z!(Z3_mk_eq, g(self, *a), g(self, *b)),
            Op::Slt(a, b) => z!(Z3_mk_lt, g(self, *a), g(self, *b)),
            Op::Ult(a, b) => { let (p, q) = (self.iuns(ts, *a), self.iuns(ts, *b)); z!(Z3_mk_lt, p, q) }
            Op::Ite(p, a, b) => z!(Z3_mk_ite, g(self, *p), g(self, *a), g(self, *b)),
            Op::ZExt(a) => {
                if ts.w(*a) == 1 { let (p, q) = (self.inum(1), self.inum(0)); z!(Z3_mk_ite, g(self, *a), p, q) }
                else { self.iuns(ts, *a) }
            }
            Op::SExt(a) => if ts.w(*a) == 1 { let (p, q) = (self.inum(-1), self.inum(0)); z!(Z3_mk_ite, g(self, *a), p, q) } else { g(self, *a) },
            Op::And(a, b) if w <= 64 => {
                // masking with 2^k - 1
                let (x, m) = match (ts.as_const(*a), ts.as_const(*b)) { (Some(m), _) => (*b, m), (_, Some(m)) => (*a, m), _ => return None };
                if m == 0 || m >= mask(w) || (m & (m + 1)) != 0 { return None; }
                let f = self.inum(m as i128 + 1);
                z!(Z3_mk_mod, g(self, x), f)
            }
            Op::LShr(a, b) if w <= 64 => {
                let k = match ts.as_const(*b) { Some(k) if k > 0 && k < w as u128 => k, _ => return None };
                let f = self.inum(1i128 << k);
                let p = self.iuns(ts, *a);
                z!(Z3_mk_div, p, f)
            }
            Op::AShr(a, b) if w <= 64 => {
                let k = match ts.as_const(*b) { Some(k) if k > 0 && k < w as u128 => k, _ => return None };
                let f = self.inum(1i128 << k);
                z!(Z3_mk_div, g(self, *a), f)
            }
            Op::Extract(lo, a) if *lo > 0 && w > 1 && *lo < 100 => {
                let f = self.inum(1i128 << *lo);
                let e = z!(Z3_mk_div, g(self, *a), f);
                self.iwrap(e, w)
            }
            Op::Extract(0, a) if w > 1 && ts.smin(*a) == n.smin && ts.smax(*a) == n.smax => g(self, *a),
            Op::Extract(0, a) if w > 1 => { let e = g(self, *a); self.iwrap_iv(e, w, Some((ts.smin(*a), ts.smax(*a)))) }
            Op::Uf(f, v) => {
                if v.iter().any(|t| ts.w(*t) != 64) || w != 64 { return None; }
                let key = (*f, v.len());
                let decl = match self.iufs.get(&key) {
                    Some(d) => *d,
                    None => {
                        let name = CString::new(format!("iuf{}_{}", f, v.len())).unwrap();
                        let sym = z!(Z3_mk_string_symbol, name.as_ptr());
                        let s = z!(Z3_mk_int_sort);
                        let dom = vec![s; v.len()];
                        let d = z!(Z3_mk_func_decl, sym, dom.len() as u32, dom.as_ptr(), s);
                        self.iufs.insert(key, d);
                        d
                    }
                };
                let args: Vec<Z> = v.iter().map(|t| g(self, *t)).collect();
                // only sound for equality reasoning: the range of the function is not constrained to w bits, so
                // comparisons on it are left to the bit-vector encoding
                z!(Z3_mk_app, decl, args.len() as u32, args.as_ptr())
            }
            _ => return None,
        })
    }
    fn set_timeout(&self, s: Z, ms: u32) {
        unsafe {
            let p = (self.z.Z3_mk_params)(self.c);
            (self.z.Z3_params_inc_ref)(self.c, p);
            let k = CString::new("timeout").unwrap();
            let sym = (self.z.Z3_mk_string_symbol)(self.c, k.as_ptr());
            (self.z.Z3_params_set_uint)(self.c, p, sym, ms);
            (self.z.Z3_solver_set_params)(self.c, s, p);
        }
    }
    fn check_int(&mut self, ts: &mut Terms, zs: &[Z], cs: &[T], doms: &[u32], ms: u32) -> Option<Option<Model>> {
        unsafe {
            self.set_timeout(self.si, ms);
            (self.z.Z3_solver_reset)(self.c, self.si);
            for v in doms { if let Some(d) = self.ivar_dom.get(v) { (self.z.Z3_solver_assert)(self.c, self.si, *d); } }
            for z in zs { (self.z.Z3_solver_assert)(self.c, self.si, *z); }
            match (self.z.Z3_solver_check)(self.c, self.si) {
                -1 => Some(None),
                1 => {
                    let m = (self.z.Z3_solver_get_model)(self.c, self.si);
                    (self.z.Z3_model_inc_ref)(self.c, m);
                    let mut md = Model::default();
                    for &v in doms {
                        let t = ts.var_terms[v as usize];
                        let x = match self.inum_of(m, self.ienz[t as usize]) { Some(x) => x, None => return None };
                        md.vals.insert(v, x as u128 & mask(ts.w(t)));
                    }
                    let ok = self.read_ufs(ts, m, cs, &mut md, true);
                    (self.z.Z3_model_dec_ref)(self.c, m);
                    if !ok { return None; }
                    let mut memo = HashMap::new();
                    if cs.iter().any(|&c| ts.eval(c, &md, &mut memo) != 1) { return None; }
                    Some(Some(md))
                }
                _ => None,
            }
        }
    }
    unsafe fn inum_of(&self, m: Z, a: Z) -> Option<i128> {
        let mut out: Z = std::ptr::null_mut();
        if !(self.z.Z3_model_eval)(self.c, m, a, true, &mut out) { return None; }
        let b = (self.z.Z3_get_bool_value)(self.c, out);
        if b == 1 { return Some(1); }
        if b == -1 { return Some(0); }
        CStr::from_ptr((self.z.Z3_get_numeral_string)(self.c, out)).to_string_lossy().parse().ok()
    }

    /// Conjunction of `cs` (which must be a satisfiability-closed slice).
    pub fn check(&mut self, ts: &mut Terms, mut cs: Vec<T>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if cs.first() == Some(&0) { self.st.trivial += 1; return Res::Unsat; }
        cs.retain(|&c| c != 1);
        if cs.is_empty() { self.st.trivial += 1; return Res::Sat(Rc::new(Model::default())); }
        if let Some(r) = self.cache.get(&cs) {
            self.st.cache += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        // counterexample cache
        for m in self.recent.iter().rev().take(8) {
            let mut memo = HashMap::new();
            if cs.iter().all(|&c| ts.eval(c, m, &mut memo) == 1) {
                self.st.model_hits += 1;
                let m = m.clone();
                self.cache.insert(cs, Some(m.clone()));
                return Res::Sat(m);
            }
        }
        let t0 = Instant::now();
        self.st.queries += 1;
        let mut doms: Vec<u32> = vec![];
        for &c in &cs { doms.extend(ts.support(c).iter().filter(|v| **v < UF_BASE)); }
        doms.sort_unstable();
        doms.dedup();
        let mut izs = None;
        if self.int_mode {
            let mut v = vec![];
            for &c in &cs { match self.encode_int(ts, c) { Some(z) => v.push(z), None => break } }
            if v.len() == cs.len() { izs = Some(v); }
        }
        let tmo = self.timeout_ms;
        for round in 0..2 {
            if let Some(iz) = &izs {
                let iz = iz.clone();
                if let Some(r) = self.check_int(ts, &iz, &cs, &doms, if round == 0 { 3000.min(tmo) } else { tmo }) {
                    let dt = t0.elapsed().as_secs_f64();
                    self.st.time += dt;
                    if dt > self.st.max { self.st.max = dt; }
                    self.st.int += 1;
                    self.slow(ts, &cs, dt, "int");
                    return self.finish(cs, r);
                }
            }
            if round == 0 {
                let sv = self.solver_for(ts, &cs);
                self.set_timeout(sv, if izs.is_some() { 10000.min(tmo) } else { tmo });
                let r = self.check_bv(ts, &cs, &doms);
                if r.is_some() || izs.is_none() {
                    self.slow(ts, &cs, t0.elapsed().as_secs_f64(), "bv");
                    let dt = t0.elapsed().as_secs_f64();
                    self.st.time += dt;
                    if dt > self.st.max { self.st.max = dt; }
                    return match r { Some(r) => self.finish(cs, r), None => { self.st.unknown += 1; if std::env::var("SX_DUMP").is_ok() { for &c in &cs { let e = self.encode_int(ts, c).is_some(); eprintln!("Q int={} {}", e, ts.show(c, 9)); } } Res::Unknown } };
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max { self.st.max = dt; }
        self.st.unknown += 1;
        Res::Unknown
    }
    fn slow(&self, ts: &Terms, cs: &[T], dt: f64, mode: &str) {
        if let Ok(l) = std::env::var("SX_SLOW") {
            if dt > l.parse().unwrap_or(0.5) { eprintln!("SLOW {mode} {dt:.3}"); for &c in cs { eprintln!("   {}", ts.show(c, 12)); } }
        }
    }
    fn finish(&mut self, cs: Vec<T>, r: Option<Model>) -> Res {
        match r {
            Some(md) => {
                let md = Rc::new(md);
                self.recent.push(md.clone());
                if self.recent.len() > 32 { self.recent.remove(0); }
                self.st.sat += 1;
                self.cache.insert(cs, Some(md.clone()));
                Res::Sat(md)
            }
            None => { self.st.unsat += 1; self.cache.insert(cs, None); Res::Unsat }
        }
    }
    /// the solver whose theories cover the query: bit-vectors, with floating point, or with uninterpreted functions too
    fn solver_for(&mut self, ts: &Terms, cs: &[T]) -> Z {
        let mut k = 0;
        for &c in cs { k |= self.kind(ts, c); }
        match k { 0 => self.s, 1 => self.sf, _ => self.su }
    }
    fn kind(&mut self, ts: &Terms, t: T) -> u8 {
        if let Some(k) = self.kinds.get(&t) { return *k; }
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.kinds.contains_key(&x) { continue; }
            let ch = ts.children(x);
            if done {
                let mut k = match ts.op(x) { Op::F(..) => 1, Op::Uf(..) => 2, _ => 0 };
                for c in ch { k |= self.kinds[&c]; }
                self.kinds.insert(x, k);
            } else {
                st.push((x, true));
                for c in ch { st.push((c, false)); }
            }
        }
        self.kinds[&t]
    }
    fn check_bv(&mut self, ts: &mut Terms, cs: &[T], doms: &[u32]) -> Option<Option<Model>> {
        let zs: Vec<Z> = cs.iter().map(|&c| self.encode(ts, c).z).collect();
        let sv = self.solver_for(ts, cs);
        unsafe {
            (self.z.Z3_solver_reset)(self.c, sv);
            for v in doms { if let Some(d) = self.var_dom.get(v) { (self.z.Z3_solver_assert)(self.c, sv, *d); } }
            for z in zs { (self.z.Z3_solver_assert)(self.c, sv, z); }
            match (self.z.Z3_solver_check)(self.c, sv) {
                1 => {
                    let m = (self.z.Z3_solver_get_model)(self.c, sv);
                    (self.z.Z3_model_inc_ref)(self.c, m);
                    let md = self.read_model(ts, m, cs, doms);
                    (self.z.Z3_model_dec_ref)(self.c, m);
                    // sanity: the model must satisfy the query under our own evaluator
                    let mut memo = HashMap::new();
                    for &c in cs {
                        if ts.eval(c, &md, &mut memo) != 1 {
                            eprintln!("MODEL MISMATCH: {} {:x?}", ts.show(c, 12), md.vals);
                            std::process::exit(4);
                        }
                    }
                    Some(Some(md))
                }
                -1 => Some(None),
                _ => None,
            }
        }
    }
    unsafe fn num_of(&self, m: Z, a: Z) -> Option<u128> {
        let mut out: Z = std::ptr::null_mut();
        if !(self.z.Z3_model_eval)(self.c, m, a, true, &mut out) { return None; }
        (self.z.Z3_inc_ref)(self.c, out);
        // bool?
        let b = (self.z.Z3_get_bool_value)(self.c, out);
        if b == 1 { return Some(1); }
        if b == -1 { return Some(0); }
        let s = CStr::from_ptr((self.z.Z3_get_numeral_string)(self.c, out)).to_string_lossy().to_string();
        s.parse().ok()
    }
    unsafe fn read_model(&mut self, ts: &mut Terms, m: Z, cs: &[T], doms: &[u32]) -> Model {
        let mut md = Model::default();
        for &v in doms {
            let t = ts.var_terms[v as usize];
            let e = self.enc[t as usize].unwrap();
            let w = ts.w(t);
            let x = self.num_of(m, e.z).expect("model value");
            let x = if w == 1 { x } else { (sext(x, e.k) as u128) & mask(w) };
            md.vals.insert(v, x);
        }
        self.read_ufs(ts, m, cs, &mut md, false);
        md
    }
    /// values of the uninterpreted applications in `cs`, bottom-up
    unsafe fn read_ufs(&mut self, ts: &mut Terms, m: Z, cs: &[T], md: &mut Model, int: bool) -> bool {
        let mut apps: Vec<T> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<T> = cs.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            if !ts.support(x).iter().any(|v| *v >= UF_BASE) { continue; }
            if let Op::Uf(..) = ts.op(x) { apps.push(x); }
            st.extend(ts.children(x));
        }
        apps.sort_unstable();
        for x in apps {
            let w = ts.w(x);
            let val = if int {
                match self.inum_of(m, self.ienz[x as usize]) { Some(v) if v >= i64::MIN as i128 && v <= i64::MAX as i128 => v as u128 & mask(w), _ => return false }
            } else {
                let e = self.enc[x as usize].unwrap();
                match self.num_of(m, e.z) { Some(v) => (sext(v, e.k) as u128) & mask(w), None => continue }
            };
            if let Op::Uf(f, args) = ts.op(x).clone() {
                let mut memo = HashMap::new();
                let av: Vec<u128> = args.iter().map(|a| ts.eval(*a, md, &mut memo)).collect();
                md.uf.insert((f, av), val);
            }
        }
        true
    }
}

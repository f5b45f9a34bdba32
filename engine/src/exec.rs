//! The symbolic executor: depth-first exploration of all feasible paths of one entry function.
use crate::llvm::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Const, Global, Stack, Heap }

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// 0 = concrete, 1 = uninitialised, 2 = symbolic
    pub st: Vec<u8>,
    pub syms: HashMap<u32, (T, u8)>,
    pub kind: Kind,
    pub freed: bool,
}
const PAGE: usize = 32;
type Page = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem { pages: Vec<Rc<Page>>, next: u64, stack_free: Rc<Vec<u64>>, no_reuse: bool }
impl Mem {
    fn get(&self, slot: u64) -> Option<&Rc<Obj>> {
        self.pages.get(slot as usize / PAGE)?.get(slot as usize % PAGE)?.as_ref()
    }
    fn set(&mut self, slot: u64, o: Option<Rc<Obj>>) {
        let p = slot as usize / PAGE;
        while self.pages.len() <= p { self.pages.push(Rc::new(vec![None; PAGE])); }
        Rc::make_mut(&mut self.pages[p])[slot as usize % PAGE] = o;
    }
    fn get_mut(&mut self, slot: u64) -> &mut Obj {
        let p = Rc::make_mut(&mut self.pages[slot as usize / PAGE]);
        Rc::make_mut(p[slot as usize % PAGE].as_mut().unwrap())
    }
    fn alloc(&mut self, size: u64, kind: Kind, init: bool) -> u64 {
        if kind == Kind::Stack && !self.no_reuse && size < (1 << OBJ_SHIFT) - 64 {
            if let Some(&s) = self.stack_free.last() {
                Rc::make_mut(&mut self.stack_free).pop();
                self.set(s, Some(Rc::new(Obj { size, data: vec![0; size as usize], st: vec![!init as u8; size as usize], syms: HashMap::new(), kind, freed: false })));
                return s << OBJ_SHIFT;
            }
        }
        let s = self.next;
        self.next += 2 + (size >> OBJ_SHIFT);
        self.set(s, Some(Rc::new(Obj { size, data: vec![0; size as usize], st: vec![!init as u8; size as usize], syms: HashMap::new(), kind, freed: false })));
        s << OBJ_SHIFT
    }
}

#[derive(Clone)]
pub struct Frame { f: Rc<Func>, regs: Vec<V>, bb: u32, ip: u32, ret: Option<u32>, allocas: Vec<u64> }

#[derive(Clone, Debug)]
pub enum Input { T(T), C(i64) }

/// read/write footprint of a parallel branch
#[derive(Clone, Default)]
pub struct Foot { r: BTreeSet<u64>, w: BTreeSet<u64> }
#[derive(Clone, Default)]
pub struct ParLevel { a: Foot, b: Foot, cur: u8, base_next: u64 }

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<T>,
    known: Rc<HashMap<T, bool>>,
    model: Rc<Model>,
    inputs: Vec<Input>,
    obs: Vec<V>,
    panic_ok: bool,
    real_fmt: bool,
    npick: u32,
    phash: u64,
    par: Vec<ParLevel>,
    gvals: HashMap<u64, V>,
    steps: u64,
    psteps: u64,
}

pub enum Stop {
    /// path is infeasible or belongs to another shard
    Drop,
    Done,
    PanicOk,
    Violation(String, String),
    Error(String),
}
type R<X> = Result<X, Stop>;
fn err<X>(s: impl Into<String>) -> R<X> { Err(Stop::Error(s.into())) }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub dropped: u64, pub panic_paths: u64, pub forks: u64, pub steps: u64, pub asserts: u64, pub assert_syms: u64,
    pub symbolic_branches: u64, pub undef_vars: u64, pub race_checks: u64,
}
pub struct Violation { pub kind: String, pub msg: String, pub inputs: Vec<i128>, pub uf: Vec<(u32, Vec<u128>, u128)>, pub stack: Vec<String> }
pub struct Sample { pub inputs: Vec<i128>, pub uf: Vec<(u32, Vec<u128>, u128)>, pub obs: Vec<u64>, pub panic: bool }

pub struct Opts { pub shard: u64, pub nshard: u64, pub depth: u32, pub max_steps: u64, pub max_viol: usize, pub deadline: Option<Instant>, pub samples: usize, pub trace: bool, pub params: Vec<i64> }

pub struct Ex {
    pub m: Module,
    pub ts: Terms,
    pub sv: Solver,
    pub work: Vec<State>,
    dbg_race: bool, dbg_w: HashMap<u64, Vec<String>>,
    pub st: Stats,
    pub reached: BTreeMap<u64, u64>,
    pub viol: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub funcs_used: HashSet<u32>,
    pub o: Opts,
    pub seen_msgs: HashSet<String>,
    pub max_pc: usize,
}

#[inline]
fn tz(w: u32, x: u128) -> u128 { x & mask(w) }

impl Ex {
    pub fn new(m: Module, sv: Solver, o: Opts) -> Ex {
        Ex { m, ts: Terms::new(), sv, work: vec![], dbg_race: std::env::var("SX_RACE").is_ok(), dbg_w: HashMap::new(), st: Default::default(), reached: BTreeMap::new(), viol: vec![], samples: vec![], funcs_used: HashSet::new(), o, seen_msgs: HashSet::new(), max_pc: 0 }
    }
    pub fn init(&mut self, entry: &str) -> Result<(), String> {
        let id = *self.m.fname.get(entry).ok_or(format!("no function {entry}"))?;
        let mut mem = Mem { pages: vec![], next: 0, stack_free: Rc::new(vec![]), no_reuse: false };
        let mut top = 1;
        for g in &self.m.globals {
            let slot = g.addr >> OBJ_SHIFT;
            top = top.max(slot + 1 + (g.size >> OBJ_SHIFT));
            let init = unsafe { if (self.m.api.LLVMIsDeclaration)(g.r) != 0 { std::ptr::null_mut() } else { (self.m.api.LLVMGetInitializer)(g.r) } };
            let mut o = Obj { size: g.size, data: vec![0; g.size as usize], st: vec![0; g.size as usize], syms: HashMap::new(), kind: if g.constant { Kind::Const } else { Kind::Global }, freed: false };
            if !init.is_null() {
                if let Err(e) = self.m.write_const(init, &mut o.data, &mut o.st) { return Err(format!("global {}: {e}", g.name)); }
            }
            mem.set(slot, Some(Rc::new(o)));
        }
        mem.next = top + 16;
        let f = self.m.func(id)?;
        self.funcs_used.insert(id);
        let fr = Frame { regs: vec![V::U; f.nregs as usize], f, bb: 0, ip: 0, ret: None, allocas: vec![] };
        self.work.push(State { frames: vec![Rc::new(fr)], mem, pc: vec![], known: Rc::new(HashMap::new()), model: Rc::new(Model::default()), inputs: vec![], obs: vec![], panic_ok: false, real_fmt: false, npick: 0, phash: 0, par: vec![], gvals: HashMap::new(), steps: 0, psteps: 0 });
        Ok(())
    }

    pub fn run(&mut self) -> Result<(), String> {
        while let Some(mut s) = self.work.pop() {
            if let Some(d) = self.o.deadline { if Instant::now() > d { return Err("time budget exhausted".into()); } }
            let r = self.run_state(&mut s);
            self.st.steps += s.steps;
            self.max_pc = self.max_pc.max(s.pc.len());
            match r {
                Stop::Drop => self.st.dropped += 1,
                Stop::Done => {
                    if s.npick < self.o.depth && self.o.shard != 0 { self.st.dropped += 1; continue; }
                    self.st.paths += 1;
                    self.sample(&s, false);
                }
                Stop::PanicOk => { self.st.paths += 1; self.st.panic_paths += 1; self.sample(&s, true); }
                Stop::Violation(kind, msg) => {
                    self.add_violation(&s, &kind, &msg);
                    self.st.paths += 1;
                    if self.viol.len() >= self.o.max_viol { return Ok(()); }
                }
                Stop::Error(e) => return Err(format!("{e}\n{}", self.stack(&s).join("\n"))),
            }
        }
        Ok(())
    }
    fn stack(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().map(|f| {
            let ln = f.f.lines[f.bb as usize].get(f.ip as usize).cloned().unwrap_or(0);
            format!("{} bb{} ip{} line {}", self.m.funcs[f.f.id as usize].name, f.bb, f.ip, ln)
        }).collect()
    }
    fn inputs(&self, s: &State, m: &Model) -> Vec<i128> {
        let mut memo = HashMap::new();
        s.inputs.iter().map(|i| match i { Input::C(c) => *c as i128, Input::T(t) => sext(self.ts.eval(*t, m, &mut memo), self.ts.w(*t)) }).collect()
    }
    fn uf(&self, m: &Model) -> Vec<(u32, Vec<u128>, u128)> {
        let mut v: Vec<_> = m.uf.iter().map(|((f, a), r)| (*f, a.clone(), *r)).collect();
        v.sort();
        v
    }
    fn add_violation(&mut self, s: &State, kind: &str, msg: &str) {
        // one witness per (kind, msg, innermost harness-visible location)
        let key = format!("{kind}:{msg}");
        if self.seen_msgs.contains(&key) { return; }
        self.seen_msgs.insert(key);
        let v = Violation { kind: kind.into(), msg: msg.into(), inputs: self.inputs(s, &s.model), uf: self.uf(&s.model), stack: self.stack(s) };
        self.viol.push(v);
    }
    fn sample(&mut self, s: &State, panic: bool) {
        let n = self.st.paths;
        // reservoir-free deterministic thinning: keep the first few and then powers of two
        let keep = self.samples.len() < self.o.samples && (n <= 2 || n.is_power_of_two() || n % 97 == 0);
        if !keep { return; }
        let mut memo = HashMap::new();
        let mut obs = vec![];
        for v in &s.obs {
            match v { V::T(t) => obs.push(self.ts.eval(*t, &s.model, &mut memo) as u64), v => obs.push(v.conc().unwrap_or(0) as u64) }
        }
        let smp = Sample { inputs: self.inputs(s, &s.model), uf: self.uf(&s.model), obs, panic };
        self.samples.push(smp);
    }

    // ---------- constraints
    fn slice(&mut self, s: &State, c: T) -> Vec<T> {
        let mut sup: HashSet<u32> = self.ts.support(c).iter().cloned().collect();
        let mut out = vec![c];
        let mut used = vec![false; s.pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in s.pc.iter().enumerate() {
                if used[i] { continue; }
                let ps = self.ts.support(p);
                if ps.iter().any(|v| sup.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(p);
                    sup.extend(ps.iter());
                }
            }
            if !ch { break; }
        }
        out
    }
    fn merge_model(&mut self, s: &mut State, slice: &[T], m: &Model) {
        let mut vars: HashSet<u32> = HashSet::new();
        for &c in slice { vars.extend(self.ts.support(c).iter()); }
        let mut md = (*s.model).clone();
        for v in vars {
            if v >= UF_BASE {
                let f = v - UF_BASE;
                md.uf.retain(|k, _| k.0 != f);
                for (k, x) in &m.uf { if k.0 == f { md.uf.insert(k.clone(), *x); } }
            } else {
                let t = self.ts.var_terms[v as usize];
                let mut memo = HashMap::new();
                let x = self.ts.eval(t, m, &mut memo);
                md.vals.insert(v, x);
            }
        }
        s.model = Rc::new(md);
    }
    fn add_pc(&mut self, s: &mut State, c: T) {
        if c == 1 { return; }
        // split conjunctions
        if let Op::And(a, b) = *self.ts.op(c) { self.add_pc(s, a); self.add_pc(s, b); return; }
        if let Op::Not(x) = *self.ts.op(c) {
            if let Op::Or(a, b) = *self.ts.op(x) {
                let (na, nb) = (self.ts.not(a), self.ts.not(b));
                self.add_pc(s, na); self.add_pc(s, nb);
                return;
            }
            Rc::make_mut(&mut s.known).insert(x, false);
        }
        if s.known.get(&c) == Some(&true) { return; }
        Rc::make_mut(&mut s.known).insert(c, true);
        s.pc.push(c);
    }
    fn eval_b(&self, s: &State, c: T) -> bool { let mut memo = HashMap::new(); self.ts.eval(c, &s.model, &mut memo) == 1 }
    /// is pc & c satisfiable?  Returns model-updated state info.
    fn sat(&mut self, s: &State, c: T) -> R<Option<(Vec<T>, Rc<Model>)>> {
        if c == 0 { return Ok(None); }
        let sl = self.slice(s, c);
        match self.sv.check(&mut self.ts, sl.clone()) {
            Res::Sat(m) => Ok(Some((sl, m))),
            Res::Unsat => Ok(None),
            Res::Unknown => err(format!("solver returned unknown (timeout {} ms)", self.sv.timeout_ms)),
        }
    }
    fn simplify_known(&mut self, s: &State, c: T) -> Option<bool> {
        if c < 2 { return Some(c == 1); }
        if let Some(&b) = s.known.get(&c) { return Some(b); }
        match *self.ts.op(c) {
            Op::Not(x) => self.simplify_known(s, x).map(|b| !b),
            Op::And(a, b) => match (self.simplify_known(s, a), self.simplify_known(s, b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or(a, b) => match (self.simplify_known(s, a), self.simplify_known(s, b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }
    fn decide(&mut self, s: &mut State, c: T) -> R<bool> {
        if let Some(b) = self.simplify_known(s, c) { return Ok(b); }
        self.st.symbolic_branches += 1;
        let b = self.eval_b(s, c);
        let nc = self.ts.not(c);
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        match self.sat(s, other)? {
            Some((sl, m)) => {
                if self.undef_dependent(s, c)? {
                    return Err(Stop::Violation("uninit".into(), "control flow depends on uninitialised memory".into()));
                }
                let mut o = s.clone();
                o.steps = 0;
                self.add_pc(&mut o, other);
                self.merge_model(&mut o, &sl, &m);
                debug_assert!(self.eval_b(&o, other));
                self.work.push(o);
                self.st.forks += 1;
                self.add_pc(s, mine);
            }
            None => { Rc::make_mut(&mut s.known).insert(c, b); }
        }
        Ok(b)
    }
    /// Is there an assignment of the initialised inputs under which c can take both values, depending only on uninitialised memory?
    fn undef_dependent(&mut self, s: &State, c: T) -> R<bool> {
        let sup = self.ts.support(c);
        let us: Vec<u32> = sup.iter().copied().filter(|v| *v < UF_BASE && self.ts.vars[*v as usize].undef).collect();
        if us.is_empty() { return Ok(false); }
        let mut map = HashMap::new();
        for u in us { let w = self.ts.vars[u as usize].w; let f = self.fresh_undef(w); map.insert(u, f); }
        let c2 = self.ts.subst(c, &map, &mut HashMap::new());
        let x = self.ts.xor(c, c2);
        Ok(self.sat(s, x)?.is_some())
    }
    fn undef_dependent_v(&mut self, s: &State, t: T) -> R<bool> {
        let sup = self.ts.support(t);
        let us: Vec<u32> = sup.iter().copied().filter(|v| *v < UF_BASE && self.ts.vars[*v as usize].undef).collect();
        if us.is_empty() { return Ok(false); }
        let mut map = HashMap::new();
        for u in us { let w = self.ts.vars[u as usize].w; let f = self.fresh_undef(w); map.insert(u, f); }
        let t2 = self.ts.subst(t, &map, &mut HashMap::new());
        let e = self.ts.eq(t, t2);
        let x = self.ts.not(e);
        Ok(self.sat(s, x)?.is_some())
    }
    fn decide_v(&mut self, s: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(x) => Ok(x & 1 == 1),
            V::T(t) => { let t = *t; let t = if self.ts.w(t) == 1 { t } else { self.ts.trunc(t, 1) }; self.decide(s, t) }
            V::U => Err(Stop::Violation("uninit".into(), "branch on uninitialised value".into())),
            _ => err("branch on aggregate"),
        }
    }
    fn concretize(&mut self, s: &mut State, v: &V) -> R<u128> {
        match v {
            V::T(t) => {
                let mut memo = HashMap::new();
                let x = self.ts.eval(*t, &s.model, &mut memo);
                let k = self.ts.konst(x, self.ts.w(*t));
                let e = self.ts.eq(*t, k);
                if self.decide(s, e)? { Ok(x) } else { err("concretize") }
            }
            V::U => Err(Stop::Violation("uninit".into(), "use of uninitialised value".into())),
            v => v.conc().ok_or(Stop::Error("concretize aggregate".into())),
        }
    }
    fn fresh_undef(&mut self, w: u32) -> T {
        self.st.undef_vars += 1;
        let n = format!("undef{}", self.ts.vars.len());
        let (lo, hi) = if w == 1 { (-1, 0) } else if w >= 128 { (i128::MIN, i128::MAX) } else { (i128::MIN >> (128 - w), i128::MAX >> (128 - w)) };
        self.ts.new_var(n, w, lo, hi, true)
    }
    fn tm(&mut self, v: &V, w: u32) -> R<T> {
        Ok(match v {
            V::T(t) => *t,
            V::U => self.fresh_undef(w),
            v => match v.conc() { Some(c) => self.ts.konst(c, w), None => return err("aggregate as scalar") },
        })
    }
    fn v(&self, t: T) -> V { match self.ts.as_const(t) { Some(c) => V::c(c), None => V::T(t) } }

    // ---------- memory
    fn mem_err<X>(&self, what: String) -> R<X> { Err(Stop::Violation("memory".into(), what)) }
    /// Resolves a pointer for an access of n bytes: (slot, concrete offset) or (slot, symbolic offset term)
    fn resolve(&mut self, s: &mut State, p: &V, n: u64, write: bool) -> R<(u64, Result<u64, T>)> {
        let (a, sym) = match p {
            V::C(a) => (*a, None),
            V::T(t) => { let mut memo = HashMap::new(); (self.ts.eval(*t, &s.model, &mut memo) as u64, Some(*t)) }
            V::U => return Err(Stop::Violation("uninit".into(), "access through uninitialised pointer".into())),
            _ => return err("bad pointer"),
        };
        let slot = a >> OBJ_SHIFT;
        let off = a & ((1 << OBJ_SHIFT) - 1);
        // large objects span several slots: walk back
        let mut sl = slot;
        let mut of = off;
        let mut steps = 0;
        while s.mem.get(sl).is_none() && sl > 0 && steps < 64 { sl -= 1; of += 1 << OBJ_SHIFT; steps += 1; }
        let what = if write { "write" } else { "read" };
        let (size, kind, freed) = match s.mem.get(sl) { Some(o) => (o.size, o.kind, o.freed), None => return self.mem_err(format!("{what} of {n} bytes at invalid address")) };
        if freed { return self.mem_err(format!("{what} after free")); }
        if of + n > size { return self.mem_err(format!("out-of-bounds {what} of {n} bytes at offset {} of a {} byte {:?} object", of as i64, size, kind)); }
        if write && kind == Kind::Const { return self.mem_err("write to constant".into()); }
        match sym {
            None => Ok((sl, Ok(of))),
            Some(t) => {
                let base = self.ts.konst((sl << OBJ_SHIFT) as u128, 64);
                let o = self.ts.sub(t, base);
                let lim = self.ts.konst((size - n + 1) as u128, 64);
                let inb = self.ts.ult(o, lim);
                if !self.decide(s, inb)? { return err("resolve"); }
                match self.ts.as_const(o) { Some(c) => Ok((sl, Ok(c as u64))), None => Ok((sl, Err(o))) }
            }
        }
    }
    fn rd(&mut self, s: &mut State, slot: u64, off: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let o = off as usize;
        let obj = s.mem.get(slot).unwrap();
        let st = &obj.st[o..o + n];
        if st.iter().all(|x| *x == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&obj.data[o..o + n]);
            return Ok(V::c(u128::from_le_bytes(b) & mask(w)));
        }
        if st.iter().all(|x| *x == 1) { return Ok(V::U); }
        // whole symbolic term?
        if let Some(&(t, 0)) = obj.syms.get(&(off as u32)) {
            if st.iter().all(|x| *x == 2) && (self.ts.w(t) + 7) / 8 == n as u32 && (1..n).all(|i| obj.syms[&((o + i) as u32)] == (t, i as u8)) {
                let tw = self.ts.w(t);
                return Ok(if tw == w { V::T(t) } else if tw > w { let x = self.ts.trunc(t, w); self.v(x) } else { let x = self.ts.zext(t, w); self.v(x) });
            }
        }
        let obj = obj.clone();
        let mut acc: Option<T> = None;
        for i in 0..n {
            let b = match obj.st[o + i] {
                0 => self.ts.konst(obj.data[o + i] as u128, 8),
                1 => self.fresh_undef(8),
                _ => {
                    let (t, k) = obj.syms[&((o + i) as u32)];
                    let tw = self.ts.w(t);
                    let lo = k as u32 * 8;
                    if lo + 8 <= tw { self.ts.extract(lo, 8, t) } else { let e = self.ts.extract(lo, tw - lo, t); self.ts.zext(e, 8) }
                }
            };
            acc = Some(match acc { None => b, Some(a) => self.ts.concat(b, a) });
        }
        let mut t = acc.unwrap();
        if self.ts.w(t) > w { t = self.ts.trunc(t, w); }
        Ok(self.v(t))
    }
    fn wr(&mut self, s: &mut State, slot: u64, off: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let o = off as usize;
        let ob = s.mem.get_mut(slot);
        if !ob.syms.is_empty() { for i in 0..n { if ob.st[o + i] == 2 { ob.syms.remove(&((o + i) as u32)); } } }
        match v {
            V::T(t) => {
                for i in 0..n { ob.st[o + i] = 2; ob.syms.insert((o + i) as u32, (*t, i as u8)); }
            }
            V::U => { for i in 0..n { ob.st[o + i] = 1; } }
            v => {
                let c = match v.conc() { Some(c) => c, None => return err("store aggregate") };
                ob.data[o..o + n].copy_from_slice(&c.to_le_bytes()[..n]);
                for i in 0..n { ob.st[o + i] = 0; }
            }
        }
        Ok(())
    }
    fn foot(&mut self, s: &mut State, slot: u64, off: u64, n: u64, write: bool) {
        if s.par.is_empty() { return; }
        let base = slot << OBJ_SHIFT;
        if write && self.dbg_race { let st = self.stack(s)[..4.min(s.frames.len())].join(" <- "); self.dbg_w.entry(base + off).or_default().push(st); }
        for l in s.par.iter_mut() {
            if l.cur == 0 { continue; }
            if slot >= l.base_next { continue; }
            let f = if l.cur == 1 { &mut l.a } else { &mut l.b };
            for i in 0..n {
                if write { f.w.insert(base + off + i); } else { f.r.insert(base + off + i); }
            }
        }
    }
    /// candidate concrete offsets for a symbolic offset
    fn cands(&mut self, s: &mut State, o: T, size: u64, n: u64) -> R<Option<Vec<u64>>> {
        let (lo, hi) = self.ts.urange(o);
        let lo = lo as u64;
        let hi = (hi.min((size - n) as u128)) as u64;
        let mut g: u64 = 0;
        let mut c0 = 0u64;
        match self.ts.op(o) {
            Op::Sum(c, v) => {
                c0 = *c as u64;
                for (q, _) in v { g = gcd64(g, (sext(*q, 64) as i64).unsigned_abs()); }
            }
            _ => g = 1,
        }
        // gcd only meaningful modulo 2^64 for its power-of-two part unless exact
        if !self.ts.n[o as usize].exact { g = 1 << g.trailing_zeros().min(20); }
        if g == 0 { g = 1; }
        let first = lo + ((c0.wrapping_sub(lo)) as i64).rem_euclid(g as i64) as u64;
        if first > hi { return Ok(Some(vec![])); }
        if (hi - first) / g > 80 { return Ok(None); }
        let _ = s;
        Ok(Some((0..=(hi - first) / g).map(|i| first + i * g).collect()))
    }
    fn load_s(&mut self, s: &mut State, ty: &Ty, p: &V) -> R<V> {
        let w = ty.bits();
        let n = ((w + 7) / 8) as u64;
        let (slot, off) = self.resolve(s, p, n, false)?;
        match off {
            Ok(o) => { self.foot(s, slot, o, n, false); self.rd(s, slot, o, w) }
            Err(o) => {
                let size = s.mem.get(slot).unwrap().size;
                match if s.par.is_empty() { self.cands(s, o, size, n)? } else { None } {
                    Some(c) if !c.is_empty() => {
                        let mut acc: Option<T> = None;
                        for &x in c.iter().rev() {
                            let v = self.rd(s, slot, x, w)?;
                            let v = self.tm(&v, w)?;
                            acc = Some(match acc {
                                None => v,
                                Some(a) => { let k = self.ts.konst(x as u128, 64); let e = self.ts.eq(o, k); self.ts.ite(e, v, a) }
                            });
                        }
                        Ok(self.v(acc.unwrap()))
                    }
                    _ => {
                        let c = self.concretize(s, &V::T(o))? as u64;
                        self.foot(s, slot, c, n, false);
                        self.rd(s, slot, c, w)
                    }
                }
            }
        }
    }
    fn store_s(&mut self, s: &mut State, ty: &Ty, p: &V, v: &V) -> R<()> {
        let w = ty.bits();
        let n = ((w + 7) / 8) as u64;
        let (slot, off) = self.resolve(s, p, n, true)?;
        match off {
            Ok(o) => { self.foot(s, slot, o, n, true); self.wr(s, slot, o, w, v) }
            Err(o) => {
                let size = s.mem.get(slot).unwrap().size;
                let c = if s.par.is_empty() { self.cands(s, o, size, n)? } else { None };
                if let Some(c) = c {
                    if c.windows(2).all(|p| p[1] - p[0] >= n) && !c.is_empty() && c.len() <= 24 {
                        let nv = self.tm(v, w)?;
                        for x in c {
                            let old = self.rd(s, slot, x, w)?;
                            let k = self.ts.konst(x as u128, 64);
                            let e = self.ts.eq(o, k);
                            if e == 0 { continue; }
                            let r = if matches!(old, V::U) && e != 1 {
                                let u = self.fresh_undef(w);
                                self.ts.ite(e, nv, u)
                            } else { let old = self.tm(&old, w)?; self.ts.ite(e, nv, old) };
                            let r = self.v(r);
                            self.wr(s, slot, x, w, &r)?;
                        }
                        return Ok(());
                    }
                }
                let c = self.concretize(s, &V::T(o))? as u64;
                self.foot(s, slot, c, n, true);
                self.wr(s, slot, c, w, v)
            }
        }
    }
    fn addp(&mut self, p: &V, k: u64) -> V {
        if k == 0 { return p.clone(); }
        match p {
            V::C(x) => V::C(x.wrapping_add(k)),
            V::T(t) => { let c = self.ts.konst(k as u128, 64); let r = self.ts.add(*t, c); self.v(r) }
            v => v.clone(),
        }
    }
    fn load(&mut self, s: &mut State, ty: &Ty, p: &V) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => self.load_s(s, ty, p),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (o, t) in f.iter() { let q = self.addp(p, *o); v.push(self.load(s, t, &q)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Array(e, n, es) | Ty::Vec(e, n, es) => {
                if **e == Ty::Int(1) && matches!(ty, Ty::Vec(..)) { return err("load of <n x i1>"); }
                let mut v = vec![];
                for i in 0..*n { let q = self.addp(p, i * es); v.push(self.load(s, e, &q)?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    fn store(&mut self, s: &mut State, ty: &Ty, p: &V, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => self.store_s(s, ty, p, v),
            Ty::Struct(f, _) => {
                for (i, (o, t)) in f.iter().enumerate() { let q = self.addp(p, *o); let x = elem(v, i); self.store(s, t, &q, &x)?; }
                Ok(())
            }
            Ty::Array(e, n, es) | Ty::Vec(e, n, es) => {
                if **e == Ty::Int(1) && matches!(ty, Ty::Vec(..)) { return err("store of <n x i1>"); }
                for i in 0..*n { let q = self.addp(p, i * es); let x = elem(v, i as usize); self.store(s, e, &q, &x)?; }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    fn memcpy(&mut self, s: &mut State, d: &V, sr: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let pd = self.concretize(s, d)? as u64;
        let ps = self.concretize(s, sr)? as u64;
        let (ss, so) = match self.resolve(s, &V::C(ps), n, false)? { (a, Ok(b)) => (a, b), _ => unreachable!() };
        let (ds, dof) = match self.resolve(s, &V::C(pd), n, true)? { (a, Ok(b)) => (a, b), _ => unreachable!() };
        self.foot(s, ss, so, n, false);
        self.foot(s, ds, dof, n, true);
        let src = s.mem.get(ss).unwrap().clone();
        let (so, dof, n) = (so as usize, dof as usize, n as usize);
        let dst = s.mem.get_mut(ds);
        dst.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        if !dst.syms.is_empty() { for i in 0..n { if dst.st[dof + i] == 2 { dst.syms.remove(&((dof + i) as u32)); } } }
        dst.st[dof..dof + n].copy_from_slice(&src.st[so..so + n]);
        if !src.syms.is_empty() {
            for i in 0..n { if src.st[so + i] == 2 { dst.syms.insert((dof + i) as u32, src.syms[&((so + i) as u32)]); } }
        }
        Ok(())
    }

    // ---------- scalar operations
    fn bin(&mut self, s: &mut State, k: B, w: u32, a: &V, b: &V) -> R<V> {
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let r = match k {
                B::Add => x.wrapping_add(y), B::Sub => x.wrapping_sub(y), B::Mul => x.wrapping_mul(y),
                B::And => x & y, B::Or => x | y, B::Xor => x ^ y,
                B::Shl => if y >= w as u128 { 0 } else { x << y },
                B::LShr => if y >= w as u128 { 0 } else { x >> y },
                B::AShr => (sext(x, w) >> y.min(w as u128 - 1)) as u128,
                B::UDiv | B::URem => { if y == 0 { return Err(Stop::Violation("ub".into(), "division by zero".into())); } if k == B::UDiv { x / y } else { x % y } }
                B::SDiv | B::SRem => {
                    if y == 0 { return Err(Stop::Violation("ub".into(), "division by zero".into())); }
                    let (x, y) = (sext(x, w), sext(y, w));
                    (if k == B::SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) }) as u128
                }
                B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem => eval_f(fop(k), w, &[x, y], w).unwrap(),
            };
            return Ok(V::c(tz(w, r)));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            // and/mul with zero etc. keep it simple: result undefined
            if matches!(k, B::And | B::Mul) && (a.conc() == Some(0) || b.conc() == Some(0)) { return Ok(V::C(0)); }
            // a symbolic operand may mask the undefined bits (logical and/or)
            if !(matches!(k, B::And | B::Or) && (matches!(a, V::T(_)) || matches!(b, V::T(_)))) { return Ok(V::U); }
        }
        let (x, y) = (self.tm(a, w)?, self.tm(b, w)?);
        let r = match k {
            B::Add => self.ts.add(x, y), B::Sub => self.ts.sub(x, y), B::Mul => self.ts.mul(x, y),
            B::And => self.ts.and(x, y), B::Or => self.ts.or(x, y), B::Xor => self.ts.xor(x, y),
            B::Shl | B::LShr | B::AShr => match k { B::Shl => self.ts.shl(x, y), B::LShr => self.ts.lshr(x, y), _ => self.ts.ashr(x, y) },
            B::UDiv | B::SDiv | B::URem | B::SRem => {
                let z = self.ts.konst(0, w);
                let e = self.ts.eq(y, z);
                if self.decide(s, e)? { return Err(Stop::Violation("ub".into(), "division by zero".into())); }
                match k { B::UDiv => self.ts.udiv(x, y), B::SDiv => self.ts.sdiv(x, y), B::URem => self.ts.urem(x, y), _ => self.ts.srem(x, y) }
            }
            _ => self.ts.fop(fop(k), w, vec![x, y], w),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: u32, w: u32, a: &V, b: &V) -> R<V> {
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y, 38 => sx > sy, 39 => sx >= sy, 40 => sx < sy, _ => sx <= sy };
            return Ok(V::C(r as u64));
        }
        if matches!(a, V::U) || matches!(b, V::U) { return Ok(V::U); }
        let (x, y) = (self.tm(a, w)?, self.tm(b, w)?);
        let t = &mut self.ts;
        let r = match p {
            32 => t.eq(x, y), 33 => { let e = t.eq(x, y); t.not(e) }
            34 => t.ult(y, x), 35 => t.ule(y, x), 36 => t.ult(x, y), 37 => t.ule(x, y),
            38 => t.slt(y, x), 39 => t.sle(y, x), 40 => t.slt(x, y), _ => t.sle(x, y),
        };
        Ok(self.v(r))
    }
    fn fcmp(&mut self, p: u32, w: u32, a: &V, b: &V) -> R<V> {
        if matches!(a, V::U) || matches!(b, V::U) { return Ok(V::U); }
        let (x, y) = (self.tm(a, w)?, self.tm(b, w)?);
        let uno = self.ts.fop(FOp::Uno, w, vec![x, y], 1);
        let mut f = |s: &mut Self, k: FOp, x: T, y: T| s.ts.fop(k, w, vec![x, y], 1);
        // 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true
        let r = match p {
            0 => 0, 15 => 1,
            1 => f(self, FOp::Oeq, x, y), 2 => f(self, FOp::Olt, y, x), 3 => f(self, FOp::Ole, y, x), 4 => f(self, FOp::Olt, x, y), 5 => f(self, FOp::Ole, x, y),
            6 => { let e = f(self, FOp::Oeq, x, y); let o = self.ts.or(e, uno); self.ts.not(o) }
            7 => self.ts.not(uno), 8 => uno,
            9 => { let e = f(self, FOp::Oeq, x, y); self.ts.or(e, uno) }
            10 => { let e = f(self, FOp::Ole, x, y); self.ts.not(e) }
            11 => { let e = f(self, FOp::Olt, x, y); self.ts.not(e) }
            12 => { let e = f(self, FOp::Ole, y, x); self.ts.not(e) }
            13 => { let e = f(self, FOp::Olt, y, x); self.ts.not(e) }
            _ => { let e = f(self, FOp::Oeq, x, y); self.ts.not(e) }
        };
        Ok(self.v(r))
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, a: &V) -> R<V> {
        if let V::U = a { return Ok(V::U); }
        if let Some(x) = a.conc() {
            return Ok(V::c(match k {
                Cast::Trunc => tz(tw, x), Cast::ZExt | Cast::Bit => x, Cast::SExt => tz(tw, sext(x, fw) as u128),
                Cast::FToUI => tz(tw, eval_f(FOp::FToUI, fw, &[x], tw).unwrap()), Cast::FToSI => tz(tw, eval_f(FOp::FToSI, fw, &[x], tw).unwrap()),
                Cast::UIToF => eval_f(FOp::UIToF, fw, &[x], tw).unwrap(),
                Cast::SIToF => match tw { 64 => (sext(x, fw) as f64).to_bits() as u128, _ => (sext(x, fw) as f32).to_bits() as u128 },
                Cast::FTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
                Cast::FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
            }));
        }
        let x = self.tm(a, fw)?;
        let t = &mut self.ts;
        let r = match k {
            Cast::Trunc => t.trunc(x, tw), Cast::ZExt => t.zext(x, tw), Cast::SExt => t.sext(x, tw), Cast::Bit => x,
            Cast::FToUI => t.fop(FOp::FToUI, fw, vec![x], tw), Cast::FToSI => t.fop(FOp::FToSI, fw, vec![x], tw),
            Cast::UIToF | Cast::SIToF => {
                // widen to 64 first so the operand width is never confused with a float width
                let x = if fw < 64 { if k == Cast::SIToF { t.sext(x, 64) } else { t.zext(x, 64) } } else { x };
                let ow = t.w(x);
                t.fop(if k == Cast::SIToF { FOp::SIToF } else { FOp::UIToF }, ow, vec![x], tw)
            }
            Cast::FTrunc => t.fop(FOp::Trunc, fw, vec![x], tw), Cast::FExt => t.fop(FOp::Ext, fw, vec![x], tw),
        };
        Ok(self.v(r))
    }
    fn select(&mut self, c: &V, a: &V, b: &V, ty: &Ty) -> R<V> {
        match c {
            V::C(x) => return Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            V::U => return Ok(V::U),
            V::A(cs) => {
                let e = ty.elem().clone();
                let mut r = vec![];
                for (i, c) in cs.clone().iter().enumerate() { let (x, y) = (elem(a, i), elem(b, i)); r.push(self.select(c, &x, &y, &e)?); }
                return Ok(V::A(Rc::new(r)));
            }
            _ => {}
        }
        let ct = self.tm(c, 1)?;
        self.ite_v(ct, a, b, ty)
    }
    fn ite_v(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(f, _) => {
                let mut r = vec![];
                for (i, x) in f.iter().enumerate() { let (p, q) = (elem(a, i), elem(b, i)); r.push(self.ite_v(c, &p, &q, &x.1)?); }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Array(e, n, _) | Ty::Vec(e, n, _) => {
                let mut r = vec![];
                for i in 0..*n as usize { let (p, q) = (elem(a, i), elem(b, i)); r.push(self.ite_v(c, &p, &q, e)?); }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                if matches!(a, V::U) { return Ok(b.clone()); }
                if matches!(b, V::U) { return Ok(a.clone()); }
                let w = ty.bits();
                let (x, y) = (self.tm(a, w)?, self.tm(b, w)?);
                let r = self.ts.ite(c, x, y);
                Ok(self.v(r))
            }
        }
    }

    // ---------- main loop
    fn run_state(&mut self, s: &mut State) -> Stop {
        let mut cnt = 0u32;
        loop {
            cnt += 1;
            if cnt & 0xffff == 0 { if let Some(d) = self.o.deadline { if Instant::now() > d { return Stop::Error("time budget exhausted".into()); } } }
            s.steps += 1;
            s.psteps += 1;
            if s.psteps > self.o.max_steps { return Stop::Error("step limit per path exceeded".into()); }
            if let Err(e) = self.step(s) { return e; }
        }
    }
    #[inline]
    fn jump(&mut self, s: &mut State, to: u32) -> R<()> {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = match inc.iter().find(|x| x.0 == from) { Some(x) => &x.1, None => return err("phi edge") };
                vals.push((*d, match o { O::R(r) => fr.regs[*r as usize].clone(), O::K(v) => v.clone() }));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    #[inline]
    fn val(s: &State, o: &O) -> V {
        match o { O::R(r) => s.frames.last().unwrap().regs[*r as usize].clone(), O::K(v) => v.clone() }
    }
    #[inline]
    fn set(s: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
    fn step(&mut self, s: &mut State) -> R<()> {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        if self.o.trace { eprintln!("{} bb{} ip{} {:?}", &self.m.funcs[f.id as usize].name, fr.bb, fr.ip, ins); }
        match ins {
            I::Bin(k, d, ty, a, b) => {
                let (x, y) = (Self::val(s, a), Self::val(s, b));
                let r = if let Ty::Vec(e, n, _) = ty {
                    let w = e.bits();
                    let mut v = vec![];
                    for i in 0..*n as usize { let (p, q) = (elem(&x, i), elem(&y, i)); v.push(self.bin(s, *k, w, &p, &q)?); }
                    V::A(Rc::new(v))
                } else { self.bin(s, *k, ty.bits(), &x, &y)? };
                Self::set(s, *d, r);
            }
            I::ICmp(p, d, ty, a, b) => {
                let (x, y) = (Self::val(s, a), Self::val(s, b));
                let r = if let Ty::Vec(e, n, _) = ty {
                    let w = e.bits();
                    let mut v = vec![];
                    for i in 0..*n as usize { v.push(self.icmp(*p, w, &elem(&x, i), &elem(&y, i))?); }
                    V::A(Rc::new(v))
                } else { self.icmp(*p, ty.bits(), &x, &y)? };
                Self::set(s, *d, r);
            }
            I::FCmp(p, d, ty, a, b) => {
                let (x, y) = (Self::val(s, a), Self::val(s, b));
                let r = if let Ty::Vec(e, n, _) = ty {
                    let w = e.bits();
                    let mut v = vec![];
                    for i in 0..*n as usize { v.push(self.fcmp(*p, w, &elem(&x, i), &elem(&y, i))?); }
                    V::A(Rc::new(v))
                } else { self.fcmp(*p, ty.bits(), &x, &y)? };
                Self::set(s, *d, r);
            }
            I::FNeg(d, ty, a) => {
                let x = Self::val(s, a);
                let w = ty.elem().bits();
                let n = if let Ty::Vec(_, n, _) = ty { *n as usize } else { 1 };
                let mut v = vec![];
                for i in 0..n {
                    let e = if n == 1 { x.clone() } else { elem(&x, i) };
                    let t = self.tm(&e, w)?;
                    let r = self.ts.fop(FOp::Neg, w, vec![t], w);
                    v.push(self.v(r));
                }
                let r = if n == 1 { v.pop().unwrap() } else { V::A(Rc::new(v)) };
                Self::set(s, *d, r);
            }
            I::Select(d, c, a, b, ty) => {
                let (c, x, y) = (Self::val(s, c), Self::val(s, a), Self::val(s, b));
                let r = self.select(&c, &x, &y, ty)?;
                Self::set(s, *d, r);
            }
            I::Cast(k, d, ft, tt, a) => {
                let x = Self::val(s, a);
                let r = match (ft, tt) {
                    (Ty::Vec(e, n, _), Ty::Vec(e2, n2, _)) if n == n2 && *k != Cast::Bit => {
                        let mut v = vec![];
                        for i in 0..*n as usize { v.push(self.cast(*k, e.bits(), e2.bits(), &elem(&x, i))?); }
                        V::A(Rc::new(v))
                    }
                    _ if *k == Cast::Bit && (matches!(ft, Ty::Vec(..)) || matches!(tt, Ty::Vec(..))) => self.bitcast(ft, tt, &x)?,
                    _ => self.cast(*k, ft.bits(), tt.bits(), &x)?,
                };
                Self::set(s, *d, r);
            }
            I::Load(d, ty, p) => {
                let p = Self::val(s, p);
                let r = self.load(s, ty, &p)?;
                Self::set(s, *d, r);
            }
            I::Store(ty, v, p) => {
                let (v, p) = (Self::val(s, v), Self::val(s, p));
                self.store(s, ty, &p, &v)?;
                Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1;
            }
            I::Gep(d, b, off, idx) => {
                let b = Self::val(s, b);
                let r = self.gep(s, b, *off, idx)?;
                Self::set(s, *d, r);
            }
            I::GepV(d, nl, b, off, idx, bv) => {
                let b = Self::val(s, b);
                let mut out = vec![];
                for l in 0..*nl as usize {
                    let base = if *bv { elem(&b, l) } else { b.clone() };
                    let ix: Vec<(O, u32, i64)> = idx.iter().map(|(o, w, sc, iv)| {
                        let v = Self::val(s, o);
                        (O::K(if *iv { elem(&v, l) } else { v }), *w, *sc)
                    }).collect();
                    out.push(self.gep(s, base, *off, &ix)?);
                }
                Self::set(s, *d, V::A(Rc::new(out)));
            }
            I::Alloca(d, size, n) => {
                let n = Self::val(s, n);
                let n = self.concretize(s, &n)? as u64;
                let a = s.mem.alloc(size * n, Kind::Stack, false);
                let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                fr.allocas.push(a >> OBJ_SHIFT);
                fr.regs[*d as usize] = V::C(a);
                fr.ip += 1;
            }
            I::Br(t) => self.jump(s, *t)?,
            I::CondBr(c, a, b) => {
                let c = Self::val(s, c);
                let t = if self.decide_v(s, &c)? { *a } else { *b };
                self.jump(s, t)?;
            }
            I::Switch(c, w, cases, def) => {
                let c = Self::val(s, c);
                match c.conc() {
                    Some(x) => {
                        let t = cases.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(*def);
                        self.jump(s, t)?;
                    }
                    None => {
                        if let V::U = c { return Err(Stop::Violation("uninit".into(), "switch on uninitialised value".into())); }
                        let t = self.tm(&c, *w)?;
                        for (k, b) in cases {
                            let kc = self.ts.konst(*k, *w);
                            let e = self.ts.eq(t, kc);
                            if self.decide(s, e)? { return self.jump(s, *b); }
                        }
                        self.jump(s, *def)?;
                    }
                }
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| Self::val(s, o));
                let fr = s.frames.pop().unwrap();
                if !fr.allocas.is_empty() {
                    for a in &fr.allocas {
                        s.mem.set(*a, None);
                        Rc::make_mut(&mut s.mem.stack_free).push(*a);
                    }
                }
                if s.frames.is_empty() { return Err(Stop::Done); }
                let ret = fr.ret;
                let caller = Rc::make_mut(s.frames.last_mut().unwrap());
                if let Some(d) = ret { caller.regs[d as usize] = v.unwrap_or(V::U); }
                caller.ip += 1;
            }
            I::Call(d, callee, args, rt, tys) => {
                let av: Vec<V> = args.iter().map(|a| Self::val(s, a)).collect();
                let id = match callee {
                    Callee::Intr(k) => { return self.intrinsic(s, *k, *d, av, rt, tys, None); }
                    Callee::Fn(id) => *id,
                    Callee::Ind(o) => {
                        let p = Self::val(s, o);
                        let a = self.concretize(s, &p)? as u64;
                        if a < FUNC_BASE || a >= FUNC_BASE + self.m.funcs.len() as u64 * 16 || a % 16 != 0 { return self.mem_err("call through invalid function pointer".into()); }
                        let id = ((a - FUNC_BASE) / 16) as u32;
                        match self.m.funcs[id as usize].intr { Some(Intr::FmtWrite) | None => {} Some(k) => return self.intrinsic(s, k, *d, av, rt, tys, Some(id)) }
                        id
                    }
                };
                if self.m.funcs[id as usize].intr == Some(Intr::FmtWrite) && !(s.real_fmt && !self.m.funcs[id as usize].decl) { return self.intrinsic(s, Intr::FmtWrite, *d, av, rt, tys, Some(id)); }
                if self.m.funcs[id as usize].decl { return err(format!("call to external function {}", self.m.funcs[id as usize].name)); }
                let f = match self.m.func(id) { Ok(f) => f, Err(e) => return err(e) };
                self.funcs_used.insert(id);
                if s.frames.len() > 400 { return err("call depth"); }
                let mut regs = vec![V::U; f.nregs as usize];
                for (i, v) in av.into_iter().enumerate() { if i < regs.len() { regs[i] = v; } }
                s.frames.push(Rc::new(Frame { f, regs, bb: 0, ip: 0, ret: *d, allocas: vec![] }));
            }
            I::ExtractV(d, a, ix) => {
                let mut v = Self::val(s, a);
                for i in ix { v = elem(&v, *i as usize); }
                Self::set(s, *d, v);
            }
            I::InsertV(d, a, e, ix, ty) => {
                let (v, e) = (Self::val(s, a), Self::val(s, e));
                let r = insert(&v, &e, ix, ty);
                Self::set(s, *d, r);
            }
            I::ExtractE(d, a, i) => {
                let (v, i) = (Self::val(s, a), Self::val(s, i));
                let i = self.concretize(s, &i)? as usize;
                Self::set(s, *d, elem(&v, i));
            }
            I::InsertE(d, a, e, i, ty) => {
                let (v, e, i) = (Self::val(s, a), Self::val(s, e), Self::val(s, i));
                let i = self.concretize(s, &i)? as u32;
                let r = insert(&v, &e, &[i], ty);
                Self::set(s, *d, r);
            }
            I::Shuffle(d, a, b, m, l) => {
                let (x, y) = (Self::val(s, a), Self::val(s, b));
                let l = *l as i32;
                let r = m.iter().map(|&k| if k < 0 { V::U } else if k < l { elem(&x, k as usize) } else { elem(&y, (k - l) as usize) }).collect();
                Self::set(s, *d, V::A(Rc::new(r)));
            }
            I::Freeze(d, a, ty) => {
                let v = Self::val(s, a);
                let r = self.freeze(&v, ty);
                Self::set(s, *d, r);
            }
            I::Unreachable => return Err(Stop::Violation("ub".into(), "unreachable code reached".into())),
            I::Fence => { Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1; }
            I::Rmw(op, d, ty, p, v) => {
                let (p, v) = (Self::val(s, p), Self::val(s, v));
                let w = ty.bits();
                let par = std::mem::take(&mut s.par);
                let r = (|| {
                    let old = self.load_s(s, ty, &p)?;
                    let new = match op {
                        0 => v.clone(), 1 => self.bin(s, B::Add, w, &old, &v)?, 2 => self.bin(s, B::Sub, w, &old, &v)?, 3 => self.bin(s, B::And, w, &old, &v)?,
                        5 => self.bin(s, B::Or, w, &old, &v)?, 6 => self.bin(s, B::Xor, w, &old, &v)?,
                        7..=10 => {
                            let c = self.icmp(match op { 7 => 38, 8 => 40, 9 => 34, _ => 36 }, w, &old, &v)?;
                            self.select(&c, &old, &v, ty)?
                        }
                        _ => return err("atomicrmw op"),
                    };
                    self.store_s(s, ty, &p, &new)?;
                    Ok(old)
                })();
                s.par = par;
                Self::set(s, *d, r?);
            }
            I::CmpXchg(d, ty, p, c, n) => {
                let (p, c, n) = (Self::val(s, p), Self::val(s, c), Self::val(s, n));
                let w = ty.bits();
                let par = std::mem::take(&mut s.par);
                let r = (|| {
                    let old = self.load_s(s, ty, &p)?;
                    let e = self.icmp(32, w, &old, &c)?;
                    let ok = self.decide_v(s, &e)?;
                    if ok { self.store_s(s, ty, &p, &n)?; }
                    Ok(V::A(Rc::new(vec![old, V::C(ok as u64)])))
                })();
                s.par = par;
                Self::set(s, *d, r?);
            }
            I::Bad(e) => return err(format!("unsupported instruction: {e}")),
        }
        Ok(())
    }
    fn freeze(&mut self, v: &V, ty: &Ty) -> V {
        match (v, ty) {
            (V::U, Ty::Int(_) | Ty::Ptr | Ty::F(_)) => V::C(0),
            (V::A(x), Ty::Vec(e, _, _) | Ty::Array(e, _, _)) => V::A(Rc::new(x.iter().map(|v| self.freeze(v, e)).collect())),
            _ => v.clone(),
        }
    }
    fn gep(&mut self, s: &mut State, b: V, off: i64, idx: &[(O, u32, i64)]) -> R<V> {
        if let V::U = b { return Ok(V::U); }
        let mut acc = self.addp(&b, off as u64);
        for (o, w, sc) in idx {
            let v = Self::val(s, o);
            match (&acc, &v) {
                (_, V::U) => return Ok(V::U),
                (V::C(a), v) if v.conc().is_some() => {
                    acc = V::C(a.wrapping_add((sext(v.conc().unwrap(), *w) as i64).wrapping_mul(*sc) as u64));
                }
                _ => {
                    let i = self.tm(&v, *w)?;
                    let i = self.ts.sext(i, 64);
                    let a = self.tm(&acc, 64)?;
                    let r = self.ts.lin(a, 1, i, *sc as u64 as u128, 64);
                    acc = self.v(r);
                }
            }
        }
        Ok(acc)
    }
    fn bitcast(&mut self, ft: &Ty, tt: &Ty, v: &V) -> R<V> {
        // to a flat integer, then split
        let flat = match ft {
            Ty::Vec(e, n, _) => {
                let w = e.bits();
                let mut acc: Option<T> = None;
                for i in 0..*n as usize {
                    let x = self.tm(&elem(v, i), w)?;
                    acc = Some(match acc { None => x, Some(a) => { if self.ts.w(a) + w > 128 { return self.bitcast_wide(ft, tt, v); } self.ts.concat(x, a) } });
                }
                acc.unwrap()
            }
            t => self.tm(v, t.bits())?,
        };
        match tt {
            Ty::Vec(e, n, _) => {
                let w = e.bits();
                let mut r = vec![];
                for i in 0..*n as u32 { let x = self.ts.extract(i * w, w, flat); r.push(self.v(x)); }
                Ok(V::A(Rc::new(r)))
            }
            _ => Ok(self.v(flat)),
        }
    }
    fn bitcast_wide(&mut self, ft: &Ty, tt: &Ty, v: &V) -> R<V> {
        match (ft, tt) {
            (Ty::Vec(a, n, _), Ty::Vec(b, m, _)) if n == m && a.bits() == b.bits() => Ok(v.clone()),
            (Ty::Vec(a, n, _), Ty::Vec(b, _, _)) if a.bits() > b.bits() => {
                let k = a.bits() / b.bits();
                let mut r = vec![];
                for i in 0..*n as usize {
                    let x = self.tm(&elem(v, i), a.bits())?;
                    for j in 0..k { let e = self.ts.extract(j * b.bits(), b.bits(), x); r.push(self.v(e)); }
                }
                Ok(V::A(Rc::new(r)))
            }
            (Ty::Vec(a, _, _), Ty::Vec(b, m, _)) if a.bits() < b.bits() => {
                let k = (b.bits() / a.bits()) as usize;
                let mut r = vec![];
                for i in 0..*m as usize {
                    let mut acc = self.tm(&elem(v, i * k), a.bits())?;
                    for j in 1..k { let x = self.tm(&elem(v, i * k + j), a.bits())?; acc = self.ts.concat(x, acc); }
                    r.push(self.v(acc));
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => err("wide bitcast"),
        }
    }

    fn check_assert(&mut self, s: &mut State, c: T, msg: &str) -> R<()> {
        self.st.asserts += 1;
        if c == 1 { return Ok(()); }
        self.st.assert_syms += 1;
        if self.simplify_known(s, c) == Some(true) { return Ok(()); }
        let nc = self.ts.not(c);
        if let Some((sl, m)) = self.sat(s, nc)? {
            let mut b = s.clone();
            self.add_pc(&mut b, nc);
            self.merge_model(&mut b, &sl, &m);
            let kind = if self.undef_dependent(s, c)? { "uninit" } else { "assert" };
            self.add_violation(&b, kind, msg);
            if self.viol.len() >= self.o.max_viol { self.work.clear(); return Err(Stop::Drop); }
            // continue on the passing side, if any
            match self.sat(s, c)? {
                None => return Err(Stop::Drop),
                Some((sl, m)) => { self.add_pc(s, c); self.merge_model(s, &sl, &m); }
            }
        } else {
            Rc::make_mut(&mut s.known).insert(c, true);
        }
        Ok(())
    }
    fn cstr(&mut self, s: &mut State, p: &V, n: &V) -> String {
        let (p, n) = match (p.conc(), n.conc()) { (Some(p), Some(n)) => (p as u64, n as u64), _ => return "?".into() };
        let mut out = vec![];
        for i in 0..n {
            match self.load_s(s, &Ty::Int(8), &V::C(p + i)) { Ok(V::C(b)) => out.push(b as u8), _ => out.push(b'?') }
        }
        String::from_utf8_lossy(&out).to_string()
    }
    fn ovf(&mut self, k: Intr, w: u32, a: &V, b: &V) -> R<V> {
        if matches!(a, V::U) || matches!(b, V::U) { return Ok(V::A(Rc::new(vec![V::U, V::U]))); }
        let (x, y) = (self.tm(a, w)?, self.tm(b, w)?);
        let t = &mut self.ts;
        let r = match k { Intr::UAddO | Intr::SAddO => t.add(x, y), Intr::USubO | Intr::SSubO => t.sub(x, y), _ => t.mul(x, y) };
        let o = match k {
            Intr::UAddO => t.ult(r, x),
            Intr::USubO => t.ult(x, y),
            Intr::SAddO | Intr::SSubO | Intr::SMulO | Intr::UMulO => {
                let signed = k != Intr::UMulO;
                let bx = if signed { (t.smin(x), t.smax(x)) } else { let (a, b) = t.urange(x); (a as i128, b as i128) };
                let by = if signed { (t.smin(y), t.smax(y)) } else { let (a, b) = t.urange(y); (a as i128, b as i128) };
                let (tl, th) = if signed { (i128::MIN >> (128 - w), i128::MAX >> (128 - w)) } else { (0, if w >= 127 { i128::MAX } else { (1i128 << w) - 1 }) };
                let both = |a: Option<i128>, b: Option<i128>| match (a, b) { (Some(a), Some(b)) => Some((a, b)), _ => None };
                let iv = match k {
                    Intr::SAddO => both(bx.0.checked_add(by.0), bx.1.checked_add(by.1)),
                    Intr::SSubO => both(bx.0.checked_sub(by.1), bx.1.checked_sub(by.0)),
                    _ => {
                        let c = [bx.0.checked_mul(by.0), bx.0.checked_mul(by.1), bx.1.checked_mul(by.0), bx.1.checked_mul(by.1)];
                        if bx.0 <= bx.1 && by.0 <= by.1 && (signed || (bx.0 >= 0 && by.0 >= 0)) && c.iter().all(|x| x.is_some()) { both(c.iter().map(|x| x.unwrap()).min(), c.iter().map(|x| x.unwrap()).max()) } else { None }
                    }
                };
                match iv {
                    Some((l, h)) if l >= tl && h <= th => 0,
                    Some((l, h)) if h < tl || l > th => 1,
                    _ => {
                        if w > 64 {
                            if !matches!(k, Intr::SAddO | Intr::SSubO) { return err("wide overflow arithmetic"); }
                            // overflow iff the result's sign differs from x's, with y pushing that way
                            let z = t.konst(0, w);
                            let (sx, sy, sr) = (t.slt(x, z), t.slt(y, z), t.slt(r, z));
                            let same = t.eq(sx, sy);
                            let dir = if k == Intr::SAddO { same } else { t.not(same) };
                            let e = t.eq(sr, sx);
                            let ne = t.not(e);
                            let o = t.and(dir, ne);
                            let (r, o) = (self.v(r), self.v(o));
                            return Ok(V::A(Rc::new(vec![r, o])));
                        }
                        let w2 = 2 * w;
                        let (xx, yy) = if signed { (t.sext(x, w2), t.sext(y, w2)) } else { (t.zext(x, w2), t.zext(y, w2)) };
                        let rr = match k { Intr::SAddO => t.add(xx, yy), Intr::SSubO => t.sub(xx, yy), _ => t.mul(xx, yy) };
                        let back = if signed { t.sext(r, w2) } else { t.zext(r, w2) };
                        let e = t.eq(rr, back);
                        t.not(e)
                    }
                }
            }
            _ => unreachable!(),
        };
        let (r, o) = (self.v(r), self.v(o));
        Ok(V::A(Rc::new(vec![r, o])))
    }
    fn malloc(&mut self, s: &mut State, n: &V, init: bool) -> R<u64> {
        let n = self.concretize(s, n)? as u64;
        if n > 1 << 26 { return Ok(0); }
        Ok(s.mem.alloc(n, Kind::Heap, init))
    }
    fn free(&mut self, s: &mut State, p: &V) -> R<()> {
        let p = self.concretize(s, p)? as u64;
        if p == 0 { return Ok(()); }
        let slot = p >> OBJ_SHIFT;
        match s.mem.get(slot) {
            Some(o) if p & ((1 << OBJ_SHIFT) - 1) == 0 && o.kind == Kind::Heap => {
                if o.freed { return self.mem_err("double free".into()); }
                let size = o.size;
                self.foot(s, slot, 0, size, true);
                s.mem.set(slot, Some(Rc::new(Obj { size, data: vec![], st: vec![], syms: HashMap::new(), kind: Kind::Heap, freed: true })));
                Ok(())
            }
            _ => self.mem_err("invalid free".into()),
        }
    }
    fn minmax(&mut self, k: Intr, w: u32, a: &V, b: &V) -> R<V> {
        let p = match k { Intr::UMin | Intr::RedUMin => 36, Intr::UMax | Intr::RedUMax => 34, Intr::SMin | Intr::RedSMin => 40, _ => 38 };
        let c = self.icmp(p, w, a, b)?;
        self.select(&c, a, b, &Ty::Int(w))
    }
    fn scalar_intr(&mut self, s: &mut State, k: Intr, a: &[V], w: u32, rw: u32) -> R<V> {
        use Intr::*;
        if a.iter().any(|x| matches!(x, V::U)) { return Ok(V::U); }
        Ok(match k {
            UMin | UMax | SMin | SMax => self.minmax(k, w, &a[0], &a[1])?,
            Abs => {
                let x = self.tm(&a[0], w)?;
                let z = self.ts.konst(0, w);
                let c = self.ts.slt(x, z);
                let n = self.ts.neg(x);
                let r = self.ts.ite(c, n, x);
                self.v(r)
            }
            UAddSat | USubSat | SAddSat | SSubSat => {
                let (x, y) = (self.tm(&a[0], w)?, self.tm(&a[1], w)?);
                let kk = match k { UAddSat => UAddO, USubSat => USubO, SAddSat => SAddO, _ => SSubO };
                let r = self.ovf(kk, w, &a[0], &a[1])?;
                let (v, o) = (elem(&r, 0), elem(&r, 1));
                let sat = match k {
                    UAddSat => self.ts.konst(mask(w), w), USubSat => self.ts.konst(0, w),
                    _ => {
                        let z = self.ts.konst(0, w);
                        let neg = self.ts.slt(x, z);
                        let (mn, mx) = (self.ts.konst(1u128 << (w - 1), w), self.ts.konst(mask(w - 1), w));
                        self.ts.ite(neg, mn, mx)
                    }
                };
                let _ = y;
                let sv = self.v(sat);
                self.select(&o, &sv, &v, &Ty::Int(w))?
            }
            UCmp | SCmp => {
                let (lt, gt) = if k == UCmp { (36, 34) } else { (40, 38) };
                let (l, g) = (self.icmp(lt, w, &a[0], &a[1])?, self.icmp(gt, w, &a[0], &a[1])?);
                let r = self.select(&g, &V::C(1), &V::C(0), &Ty::Int(rw))?;
                self.select(&l, &V::c(mask(rw)), &r, &Ty::Int(rw))?
            }
            Ctlz | Cttz | Ctpop | BSwap | BitRev => {
                if let Some(x) = a[0].conc() {
                    let s128 = 128 - w;
                    return Ok(V::c(match k {
                        Ctlz => x.leading_zeros() as u128 - s128 as u128,
                        Cttz => (x.trailing_zeros() as u128).min(w as u128),
                        Ctpop => x.count_ones() as u128,
                        BSwap => x.swap_bytes() >> s128,
                        _ => x.reverse_bits() >> s128,
                    }));
                }
                let x = self.tm(&a[0], w)?;
                match k {
                    Ctlz | Cttz => {
                        let mut r = self.ts.konst(w as u128, rw);
                        for i in 0..w {
                            let bit = if k == Ctlz { i } else { w - 1 - i };
                            let b = self.ts.extract(bit, 1, x);
                            let v = self.ts.konst(if k == Ctlz { w - 1 - bit } else { bit } as u128, rw);
                            r = self.ts.ite(b, v, r);
                        }
                        self.v(r)
                    }
                    Ctpop => {
                        let mut r = self.ts.konst(0, rw);
                        for i in 0..w { let b = self.ts.extract(i, 1, x); let z = self.ts.zext(b, rw); r = self.ts.add(r, z); }
                        self.v(r)
                    }
                    BSwap => {
                        let mut r = self.ts.extract(0, 8, x);
                        for i in 1..w / 8 { let b = self.ts.extract(i * 8, 8, x); r = self.ts.concat(r, b); }
                        self.v(r)
                    }
                    _ => return err("symbolic bitreverse"),
                }
            }
            FShl | FShr => {
                let n = match a[2].conc() { Some(n) => (n % w as u128) as u32, None => return err("symbolic funnel shift amount") };
                let n = if k == FShl { n } else { w - n };
                let n = n % w;
                let (x, y) = (self.tm(&a[0], w)?, self.tm(&a[1], w)?);
                let r = if n == 0 { if k == FShl { x } else { y } } else {
                    let h = self.ts.extract(0, w - n, x);
                    let l = self.ts.extract(w - n, n, y);
                    self.ts.concat(h, l)
                };
                self.v(r)
            }
            Sqrt | Fabs | Fma | Floor | Ceil | FTrunc_ | Round | RoundEven | CopySign | MinNum | MaxNum => {
                let f = match k { Sqrt => FOp::Sqrt, Fabs => FOp::Fabs, Fma => FOp::Fma, Floor => FOp::Floor, Ceil => FOp::Ceil, FTrunc_ => FOp::RTrunc, Round => FOp::Round, RoundEven => FOp::RoundEven, CopySign => FOp::CopySign, MinNum => FOp::MinNum, _ => FOp::MaxNum };
                let mut v = vec![];
                for x in a { v.push(self.tm(x, w)?); }
                let r = self.ts.fop(f, w, v, w);
                self.v(r)
            }
            Libm(f) => {
                let mut v = vec![];
                for (i, x) in a.iter().enumerate() { v.push(self.tm(x, if i == 1 && LIBM[f as usize] == "powi" { 32 } else { w })?); }
                // a constant power is repeated squaring, as in compiler-rt
                if LIBM[f as usize] == "powi" {
                    if let Some(n) = self.ts.as_const(v[1]) {
                        let (n, one) = (n as u32 as i32, if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 });
                        if n.unsigned_abs() <= 8 {
                            let (mut b, mut x, mut r) = (n.unsigned_abs(), v[0], None);
                            loop {
                                if b & 1 == 1 { r = Some(match r { None => x, Some(r) => self.ts.fop(FOp::Mul, w, vec![r, x], w) }); }
                                b /= 2;
                                if b == 0 { break; }
                                x = self.ts.fop(FOp::Mul, w, vec![x, x], w);
                            }
                            let k1 = self.ts.konst(one, w);
                            let r = r.unwrap_or(k1);
                            let r = if n < 0 { self.ts.fop(FOp::Div, w, vec![k1, r], w) } else { r };
                            return Ok(self.v(r));
                        }
                    }
                }
                let id = f | if w == 32 { 0x100 } else { 0 };
                let cs: Vec<Option<u128>> = v.iter().map(|&t| self.ts.as_const(t)).collect();
                let r = if cs.iter().all(|c| c.is_some()) { let c: Vec<u128> = cs.into_iter().flatten().collect(); self.ts.konst(libm_native(id, &c), w) } else { self.ts.uf(LIBM_UF + id, v, w) };
                self.v(r)
            }
            FToSISat | FToUISat => {
                if let Some(x) = a[0].conc() {
                    let r = eval_f(if k == FToSISat { FOp::FToSI } else { FOp::FToUI }, w, &[x], rw);
                    match r { Some(r) => V::c(tz(rw, r)), None => return err("fptoint width") }
                } else {
                    let (x, sg) = (self.tm(&a[0], w)?, k == FToSISat);
                    if rw > 64 { return err("symbolic float-to-int conversion to more than 64 bits"); }
                    let pow = |e: u32, neg: bool| -> u128 { if w == 64 { ((neg as u128) << 63) | ((1023 + e as u128) << 52) } else { ((neg as u128) << 31) | ((127 + e as u128) << 23) } };
                    let t = &mut self.ts;
                    let lo = t.konst(if sg { pow(rw - 1, true) } else { 0 }, w);
                    let hi = t.konst(pow(if sg { rw - 1 } else { rw }, false), w);
                    let (nan, low, high) = (t.fop(FOp::Uno, w, vec![x, x], 1), t.fop(FOp::Ole, w, vec![x, lo], 1), t.fop(FOp::Ole, w, vec![hi, x], 1));
                    let mid = t.fop(if sg { FOp::FToSI } else { FOp::FToUI }, w, vec![x], rw);
                    let m = if rw == 64 { u64::MAX as u128 } else { (1u128 << rw) - 1 };
                    let (kl, kh, z) = (t.konst(if sg { 1u128 << (rw - 1) } else { 0 }, rw), t.konst(if sg { m >> 1 } else { m }, rw), t.konst(0, rw));
                    let r = t.ite(high, kh, mid);
                    let r = t.ite(low, kl, r);
                    let r = t.ite(nan, z, r);
                    self.v(r)
                }
            }
            IsFpClass => {
                let m = a[1].conc().unwrap_or(0);
                let x = match a[0].conc() { Some(x) => x, None => return err("symbolic is.fpclass") };
                let v = if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let (sign, cat) = (v.is_sign_negative(), if w == 64 { v.classify() } else { f32::from_bits(x as u32).classify() });
                use std::num::FpCategory as C;
                let bit = match (cat, sign) { (C::Nan, _) => 3, (C::Infinite, true) => 4, (C::Normal, true) => 8, (C::Subnormal, true) => 16, (C::Zero, true) => 32, (C::Zero, false) => 64, (C::Subnormal, false) => 128, (C::Normal, false) => 256, (C::Infinite, false) => 512 };
                V::C((m & bit != 0) as u64)
            }
            _ => { let _ = s; return err(format!("intrinsic {k:?}")) }
        })
    }
    fn panic(&mut self, s: &mut State, name: &str) -> Stop {
        if s.panic_ok {
            if s.npick < self.o.depth && self.o.shard != 0 { return Stop::Drop; }
            return Stop::PanicOk;
        }
        // the innermost frame of the code under test
        let fr = s.frames.last().unwrap();
        let ln = fr.f.lines[fr.bb as usize].get(fr.ip as usize).cloned().unwrap_or(0);
        Stop::Violation("panic".into(), format!("panic ({}) in {} line {}", name, self.m.funcs[fr.f.id as usize].name, ln))
    }
    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, s: &mut State, k: Intr, d: Option<u32>, a: Vec<V>, rt: &Ty, tys: &[Ty], id: Option<u32>) -> R<()> {
        use Intr::*;
        let mut ret = V::U;
        match k {
            Nop => {}
            Memcpy => {
                let n = self.concretize(s, &a[2])? as u64;
                self.memcpy(s, &a[0], &a[1], n)?;
                ret = a[0].clone();
            }
            Memset => {
                let n = self.concretize(s, &a[2])? as u64;
                let p = self.concretize(s, &a[0])? as u64;
                if n > 0 {
                    let (sl, o) = match self.resolve(s, &V::C(p), n, true)? { (x, Ok(o)) => (x, o), _ => unreachable!() };
                    self.foot(s, sl, o, n, true);
                    if let V::C(b) = a[1] {
                        let ob = s.mem.get_mut(sl);
                        let (o, n) = (o as usize, n as usize);
                        if !ob.syms.is_empty() { for i in 0..n { ob.syms.remove(&((o + i) as u32)); } }
                        ob.data[o..o + n].fill(b as u8);
                        ob.st[o..o + n].fill(0);
                    } else {
                        let v = match &a[1] { V::T(t) => { let x = self.ts.trunc(*t, 8); self.v(x) } v => v.clone() };
                        for i in 0..n { self.wr(s, sl, o + i, 8, &v)?; }
                    }
                }
                ret = a[0].clone();
            }
            UAddO | SAddO | USubO | SSubO | UMulO | SMulO => {
                if let Ty::Vec(..) = tys[0] { return err("vector overflow op"); }
                ret = self.ovf(k, tys[0].bits(), &a[0], &a[1])?;
            }
            UMin | UMax | SMin | SMax | Abs | UAddSat | USubSat | SAddSat | SSubSat | UCmp | SCmp | Ctlz | Cttz | Ctpop | BSwap | BitRev | FShl | FShr
            | Libm(_) | Sqrt | Fabs | Fma | Floor | Ceil | FTrunc_ | Round | RoundEven | CopySign | MinNum | MaxNum | FToSISat | FToUISat | IsFpClass => {
                let w = tys[0].elem().bits();
                let rw = rt.elem().bits();
                ret = if let Ty::Vec(_, n, _) = &tys[0] {
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        let e: Vec<V> = a.iter().map(|x| if matches!(x, V::A(_)) { elem(x, i) } else { x.clone() }).collect();
                        r.push(self.scalar_intr(s, k, &e, w, rw)?);
                    }
                    V::A(Rc::new(r))
                } else { self.scalar_intr(s, k, &a, w, rw)? };
            }
            RedAdd | RedOr | RedAnd | RedXor | RedMul | RedUMax | RedUMin | RedSMax | RedSMin => {
                let w = rt.bits();
                let n = match &tys[0] { Ty::Vec(_, n, _) => *n as usize, _ => return err("reduce") };
                let mut acc = elem(&a[0], 0);
                for i in 1..n {
                    let e = elem(&a[0], i);
                    acc = match k {
                        RedAdd => self.bin(s, B::Add, w, &acc, &e)?, RedOr => self.bin(s, B::Or, w, &acc, &e)?, RedAnd => self.bin(s, B::And, w, &acc, &e)?,
                        RedXor => self.bin(s, B::Xor, w, &acc, &e)?, RedMul => self.bin(s, B::Mul, w, &acc, &e)?, _ => self.minmax(k, w, &acc, &e)?,
                    };
                }
                ret = acc;
            }
            TlsAddr | LaunderPtr | Expect => ret = a[0].clone(),
            PtrMask => ret = self.bin(s, B::And, 64, &a[0], &a[1])?,
            IsConst => ret = V::C(0),
            ObjSize => ret = V::c(mask(rt.bits())),
            Trap => return Err(self.panic(s, "trap")),
            Malloc => ret = V::C(self.malloc(s, &a[0], false)?),
            Calloc => {
                let n = self.bin(s, B::Mul, 64, &a[0], &a[1])?;
                ret = V::C(self.malloc(s, &n, true)?);
            }
            AlignedAlloc => ret = V::C(self.malloc(s, &a[1], false)?),
            PosixMemalign => {
                let p = self.malloc(s, &a[2], false)?;
                self.store_s(s, &Ty::Ptr, &a[0], &V::C(p))?;
                ret = V::C(0);
            }
            Realloc => {
                let old = self.concretize(s, &a[0])? as u64;
                let n = self.concretize(s, &a[1])? as u64;
                if old == 0 { ret = V::C(self.malloc(s, &V::C(n), false)?); }
                else {
                    let os = match s.mem.get(old >> OBJ_SHIFT) { Some(o) if !o.freed => o.size, _ => return self.mem_err("realloc of invalid pointer".into()) };
                    let p = s.mem.alloc(n, Kind::Heap, false);
                    self.memcpy(s, &V::C(p), &V::C(old), os.min(n))?;
                    self.free(s, &V::C(old))?;
                    ret = V::C(p);
                }
            }
            Free => self.free(s, &a[0])?,
            Memcmp => {
                let n = self.concretize(s, &a[2])? as u64;
                let mut acc = V::C(0);
                let mut vals = vec![];
                for i in 0..n {
                    let (p, q) = (self.addp(&a[0], i), self.addp(&a[1], i));
                    vals.push((self.load_s(s, &Ty::Int(8), &p)?, self.load_s(s, &Ty::Int(8), &q)?));
                }
                for (x, y) in vals.iter().rev() {
                    if matches!(x, V::U) || matches!(y, V::U) { return Err(Stop::Violation("uninit".into(), "memcmp of uninitialised memory".into())); }
                    let (x, y) = (self.cast(Cast::ZExt, 8, 32, x)?, self.cast(Cast::ZExt, 8, 32, y)?);
                    let df = self.bin(s, B::Sub, 32, &x, &y)?;
                    let e = self.icmp(32, 32, &x, &y)?;
                    acc = self.select(&e, &acc, &df, &Ty::Int(32))?;
                }
                ret = acc;
            }
            Strlen => {
                let p = self.concretize(s, &a[0])? as u64;
                let mut n = 0;
                loop {
                    let v = self.load_s(s, &Ty::Int(8), &V::C(p + n))?;
                    if self.concretize(s, &v)? == 0 { break; }
                    n += 1;
                }
                ret = V::C(n);
            }
            // ----- harness interface
            SymInt => {
                let lo = a[0].conc().ok_or(Stop::Error("sym_int".into()))?;
                let hi = a[1].conc().ok_or(Stop::Error("sym_int".into()))?;
                let (lo, hi) = (sext(lo, 64), sext(hi, 64));
                if lo > hi { return Err(Stop::Drop); }
                if lo == hi { s.inputs.push(Input::C(lo as i64)); ret = V::C(lo as u64); }
                else {
                    // the n-th input of a path reuses the variable of the n-th input with the same domain
                    let name = format!("in{}_{}_{}", s.inputs.len(), lo, hi);
                    let t = self.var_for(&name, lo, hi);
                    s.inputs.push(Input::T(t));
                    ret = V::T(t);
                }
            }
            SymPick => {
                let lo = a[0].conc().ok_or(Stop::Error("sym_pick".into()))? as i64;
                let hi = a[1].conc().ok_or(Stop::Error("sym_pick".into()))? as i64;
                if lo > hi { return Err(Stop::Drop); }
                let d = d.unwrap();
                let mut first: Option<State> = None;
                for v in (lo..=hi).rev() {
                    let mut o = s.clone();
                    o.steps = 0;
                    o.inputs.push(Input::C(v));
                    if o.npick < self.o.depth {
                        o.npick += 1;
                        o.phash = (o.phash.wrapping_mul(0x100000001b3) ^ (v as u64).wrapping_add(0x9e3779b97f4a7c15)).wrapping_mul(0xff51afd7ed558ccd);
                        o.phash ^= o.phash >> 31;
                        if o.npick == self.o.depth && (o.phash >> 7) % self.o.nshard != self.o.shard { continue; }
                    }
                    Self::set(&mut o, d, V::C(v as u64));
                    if let Some(p) = first.take() { self.work.push(p); self.st.forks += 1; }
                    first = Some(o);
                }
                match first { None => return Err(Stop::Drop), Some(o) => { let st = s.steps; *s = o; s.steps = st; } }
                return Ok(());
            }
            SymAssume => {
                match &a[0] {
                    V::C(x) => if x & 1 == 0 { return Err(Stop::Drop); },
                    V::T(t) => {
                        let c = if self.ts.w(*t) == 1 { *t } else { self.ts.trunc(*t, 1) };
                        if c == 0 { return Err(Stop::Drop); }
                        if self.simplify_known(s, c) == Some(false) { return Err(Stop::Drop); }
                        if self.eval_b(s, c) { self.add_pc(s, c); }
                        else {
                            match self.sat(s, c)? { None => return Err(Stop::Drop), Some((sl, m)) => { self.add_pc(s, c); self.merge_model(s, &sl, &m); } }
                        }
                    }
                    _ => return err("assume on undefined value"),
                }
            }
            SymAssert => {
                let msg = self.cstr(s, &a[1], &a[2]);
                match &a[0] {
                    V::C(x) => { self.st.asserts += 1; if x & 1 == 0 { return Err(Stop::Violation("assert".into(), msg)); } }
                    V::T(t) => { let c = if self.ts.w(*t) == 1 { *t } else { self.ts.trunc(*t, 1) }; self.check_assert(s, c, &msg)?; }
                    _ => return Err(Stop::Violation("uninit".into(), format!("assertion on uninitialised value: {msg}"))),
                }
            }
            SymFail => { let msg = self.cstr(s, &a[0], &a[1]); return Err(Stop::Violation("assert".into(), msg)); }
            SymReach => { let i = a[0].conc().unwrap_or(0) as u64; *self.reached.entry(i).or_default() += 1; }
            SymObserve => {
                if let V::U = a[0] { return Err(Stop::Violation("uninit".into(), "uninitialised value observed".into())); }
                if let V::T(t) = a[0] {
                    if self.undef_dependent_v(s, t)? {
                        return Err(Stop::Violation("uninit".into(), "value depends on uninitialised memory".into()));
                    }
                }
                s.obs.push(a[0].clone());
            }
            SymUf => {
                let f = a[0].conc().ok_or(Stop::Error("uf id".into()))? as u32;
                let (x, y) = (self.tm(&a[1], 64)?, self.tm(&a[2], 64)?);
                let r = self.ts.uf(f, vec![x, y], 64);
                ret = self.v(r);
            }
            SymConc => { ret = V::c(self.concretize(s, &a[0])?); }
            SymParam => { let i = a[0].conc().unwrap_or(0) as usize; ret = V::C(self.o.params.get(i).cloned().unwrap_or(0) as u64); }
            SymPanicOk => match a[0].conc() { Some(2) => s.real_fmt = true, v => s.panic_ok = v == Some(1) },
            SymGlobal => {
                // __sym_global(key, set, value): path-local scratch registers for harness shims
                let key = a[0].conc().unwrap_or(0) as u64;
                if a[1].conc() == Some(1) { s.gvals.insert(key, a[2].clone()); ret = V::C(0); }
                else { ret = s.gvals.get(&key).cloned().unwrap_or(V::C(0)); }
            }
            SymPar => {
                match a[0].conc() {
                    Some(0) => { let base_next = s.mem.next; s.mem.no_reuse = true; s.par.push(ParLevel { cur: 0, base_next, ..Default::default() }); }
                    Some(1) => { if let Some(l) = s.par.last_mut() { l.cur = 1; } }
                    Some(2) => { if let Some(l) = s.par.last_mut() { l.cur = 2; } }
                    _ => {
                        if let Some(l) = s.par.pop() {
                            s.mem.no_reuse = !s.par.is_empty();
                            self.st.race_checks += 1;
                            let c1 = l.a.w.intersection(&l.b.w).next().is_some();
                            let c2 = l.a.w.intersection(&l.b.r).next().is_some() || l.a.r.intersection(&l.b.w).next().is_some();
                            if (c1 || c2) && std::env::var("SX_RACE").is_ok() {
                                let ad: Vec<u64> = l.a.w.intersection(&l.b.w).chain(l.a.w.intersection(&l.b.r)).chain(l.a.r.intersection(&l.b.w)).cloned().take(12).collect();
                                for x in ad { let o = s.mem.get(x >> OBJ_SHIFT).unwrap(); eprintln!("race at slot {:x} off {} kind {:?} size {} (fresh from {:x})", x >> OBJ_SHIFT, x & ((1 << OBJ_SHIFT) - 1), o.kind, o.size, l.base_next); if let Some(v) = self.dbg_w.get(&x) { for w in v.iter().rev().take(3) { eprintln!("   by {w}"); } } }
                            }
                            if c1 || c2 {
                                return Err(Stop::Violation("race".into(), format!("parallel branches conflict ({})", if c1 { "write/write" } else { "read/write" })));
                            }
                        }
                    }
                }
            }
            Panic | Abort => { let n = id.map(|i| self.m.funcs[i as usize].name.clone()).unwrap_or_else(|| "panic".into()); return Err(self.panic(s, &n)); }
            FmtWrite | RetZero => {
                ret = match rt { Ty::Void => V::U, Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|_| V::C(0)).collect())), _ => V::C(0) };
                if k == FmtWrite {
                    if let Ty::Ptr = rt { ret = a[0].clone(); }
                }
            }
            TimeNow => {
                self.store_s(s, &Ty::Int(64), &a[1], &V::C(1000))?;
                let q = self.addp(&a[1], 8);
                self.store_s(s, &Ty::Int(64), &q, &V::C(0))?;
                ret = V::C(0);
            }
            Unsupported => return err(format!("unsupported intrinsic in {}", self.stack(s)[0])),
        }
        match d { Some(d) => Self::set(s, d, ret), None => Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1 }
        Ok(())
    }
    fn var_for(&mut self, name: &str, lo: i128, hi: i128) -> T {
        if let Some(i) = self.ts.vars.iter().position(|v| v.name == name) { return self.ts.var_terms[i]; }
        self.ts.new_var(name.to_string(), 64, lo, hi, false)
    }
}
fn gcd64(a: u64, b: u64) -> u64 { let (mut a, mut b) = (a, b); while b != 0 { let t = a % b; a = b; b = t; } a }
fn fop(k: B) -> FOp { match k { B::FAdd => FOp::Add, B::FSub => FOp::Sub, B::FMul => FOp::Mul, B::FDiv => FOp::Div, _ => FOp::Rem } }
fn elem(v: &V, i: usize) -> V { match v { V::A(x) => x[i].clone(), V::U => V::U, _ => V::U } }
fn insert(v: &V, e: &V, ix: &[u32], ty: &Ty) -> V {
    if ix.is_empty() { return e.clone(); }
    let n = match ty { Ty::Struct(f, _) => f.len(), Ty::Array(_, n, _) | Ty::Vec(_, n, _) => *n as usize, _ => 0 };
    let mut a = match v { V::A(x) => (**x).clone(), _ => vec![V::U; n] };
    let i = ix[0] as usize;
    let et = match ty { Ty::Struct(f, _) => f[i].1.clone(), t => t.elem().clone() };
    a[i] = insert(&a[i], e, &ix[1..], &et);
    V::A(Rc::new(a))
}

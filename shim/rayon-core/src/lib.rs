//! Sequential stand-in for rayon-core 1.13, used only to analyse the code that runs on top of it.
//!
//! `join_context` runs both branches one after the other, in either order, and reports their memory footprints to the
//! symbolic executor, which flags two branches that touch the same byte when one of them writes. If no two branches
//! conflict, every real schedule computes the same memory as this one. Work splitting in rayon depends on two things:
//! the number of threads and whether a branch was stolen ("migrated"). Both are parameters here.
use std::fmt;
use std::marker::PhantomData;

extern "C" {
    fn __sym_par(k: u64);
    fn __sym_global(key: u64, set: u64, v: u64) -> u64;
    fn __sym_pick(lo: i64, hi: i64) -> i64;
    fn __sym_param(i: u64) -> i64;
}
const K_NTH: u64 = 0x7a01; // threads of the default pool (0: use 3)
const K_MODE: u64 = 0x7a02; // 1 + (0 never stolen, 1 always stolen, 2 every other join, +4: second branch first); 0: chosen at the first join
const K_CUR: u64 = 0x7a03; // current worker index + 1 (0: outside any pool)
const K_POOL: u64 = 0x7a04; // threads of the pool we are in
const K_JOIN: u64 = 0x7a05; // joins so far
const K_INST: u64 = 0x7a06; // installs so far
fn get(k: u64) -> u64 { unsafe { __sym_global(k, 0, 0) } }
fn set(k: u64, v: u64) { unsafe { __sym_global(k, 1, v); } }
fn par(k: u64) { unsafe { __sym_par(k) } }

/// schedule of the analysis
pub fn shim_config(nthreads: usize, mode: usize) { set(K_NTH, nthreads as u64); set(K_MODE, mode as u64 + 1); }
pub fn shim_joins() -> usize { get(K_JOIN) as usize }
pub fn shim_installs() -> usize { get(K_INST) as usize }

fn mode() -> u64 {
    match get(K_MODE) {
        0 => {
            // schedules explored: never stolen; always stolen and run before the first branch; every other join; ...
            let all = [0u64, 5, 2, 1, 4, 6];
            let hi = unsafe { if __sym_param(0) == 1 { 5 } else { 2 } };
            let m = all[unsafe { __sym_pick(0, hi) } as usize];
            set(K_MODE, m + 1);
            m
        }
        m => m - 1,
    }
}
fn default_threads() -> usize { match get(K_NTH) { 0 => 3, n => n as usize } }
fn in_pool<R>(n: usize, f: impl FnOnce() -> R) -> R {
    let (c, p) = (get(K_CUR), get(K_POOL));
    // a worker of the same pool keeps running where it is
    if c != 0 && p == n as u64 { return f(); }
    set(K_CUR, 1);
    set(K_POOL, n as u64);
    let r = f();
    set(K_CUR, c);
    set(K_POOL, p);
    r
}
pub fn current_num_threads() -> usize { if get(K_CUR) != 0 { get(K_POOL) as usize } else { default_threads() } }
pub fn max_num_threads() -> usize { 65535 }
pub fn current_thread_index() -> Option<usize> { match get(K_CUR) { 0 => None, n => Some(n as usize - 1) } }
pub fn current_thread_has_pending_tasks() -> Option<bool> { current_thread_index().map(|_| false) }

pub struct FnContext { migrated: bool, _marker: PhantomData<*mut ()> }
impl FnContext { pub fn migrated(&self) -> bool { self.migrated } }
fn ctx(migrated: bool) -> FnContext { FnContext { migrated, _marker: PhantomData } }

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    join_context(|_| a(), |_| b())
}
/// own frames for both branches: temporaries of one branch must not share a stack slot with the other
#[inline(never)]
fn branch<F, R>(f: F, migrated: bool) -> R where F: FnOnce(FnContext) -> R { f(ctx(migrated)) }
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    let n = current_num_threads();
    in_pool(n, || {
        let me = get(K_CUR);
        let k = get(K_JOIN);
        set(K_JOIN, k + 1);
        let mode = mode();
        let stolen = n > 1 && match mode & 3 { 0 => false, 1 => true, _ => k % 2 == 1 };
        let run_b = |b: B| {
            par(2);
            if stolen { set(K_CUR, me % n as u64 + 1); }
            let r = branch(b, stolen);
            set(K_CUR, me);
            r
        };
        par(0);
        let (ra, rb);
        if mode & 4 != 0 { rb = run_b(b); par(1); ra = branch(a, false); } else { par(1); ra = branch(a, false); rb = run_b(b); }
        par(3);
        (ra, rb)
    })
}

pub struct ThreadPool { n: usize }
impl fmt::Debug for ThreadPool { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ThreadPool") } }
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send {
        set(K_INST, get(K_INST) + 1);
        in_pool(self.n, op)
    }
    pub fn current_num_threads(&self) -> usize { self.n }
    pub fn current_thread_index(&self) -> Option<usize> { if get(K_POOL) as usize == self.n { current_thread_index() } else { None } }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { self.install(|| join(a, b)) }
    pub fn scope<'s, OP, R>(&self, op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R + Send, R: Send { self.install(|| scope(op)) }
    pub fn in_place_scope<'s, OP, R>(&self, op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R { in_place_scope(op) }
    pub fn spawn<OP>(&self, op: OP) where OP: FnOnce() + Send + 'static { in_pool(self.n, op) }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send { in_pool(self.n, || broadcast(op)) }
}

pub struct ThreadPoolBuildError(());
impl fmt::Debug for ThreadPoolBuildError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ThreadPoolBuildError") } }
impl fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ThreadPoolBuildError") } }
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadBuilder(());
impl ThreadBuilder { pub fn index(&self) -> usize { 0 } pub fn run(self) {} }
pub struct DefaultSpawn;
pub struct ThreadPoolBuilder<S = DefaultSpawn> { n: usize, _s: PhantomData<S> }
impl Default for ThreadPoolBuilder { fn default() -> Self { ThreadPoolBuilder { n: 0, _s: PhantomData } } }
impl<S> fmt::Debug for ThreadPoolBuilder<S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ThreadPoolBuilder") } }
impl ThreadPoolBuilder { pub fn new() -> Self { Self::default() } }
impl<S> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool { n: if self.n == 0 { default_threads() } else { self.n } }) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { if self.n != 0 { set(K_NTH, self.n as u64); } Ok(()) }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn stack_size(self, _n: usize) -> Self { self }
    pub fn use_current_thread(self) -> Self { self }
    pub fn thread_name<F>(self, _f: F) -> Self where F: FnMut(usize) -> String + 'static { self }
}

/// Scoped tasks run when they are spawned; tasks of one scope are not checked against each other.
pub struct Scope<'s> { _m: PhantomData<Box<dyn FnOnce(&Scope<'s>) + Send + Sync + 's>> }
pub struct ScopeFifo<'s> { _m: PhantomData<Box<dyn FnOnce(&ScopeFifo<'s>) + Send + Sync + 's>> }
impl<'s> Scope<'s> { pub fn spawn<B>(&self, b: B) where B: FnOnce(&Scope<'s>) + Send + 's { b(self) } }
impl<'s> ScopeFifo<'s> { pub fn spawn_fifo<B>(&self, b: B) where B: FnOnce(&ScopeFifo<'s>) + Send + 's { b(self) } }
pub fn in_place_scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R { op(&Scope { _m: PhantomData }) }
pub fn in_place_scope_fifo<'s, OP, R>(op: OP) -> R where OP: FnOnce(&ScopeFifo<'s>) -> R { op(&ScopeFifo { _m: PhantomData }) }
pub fn scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R + Send, R: Send { in_pool(current_num_threads(), || in_place_scope(op)) }
pub fn scope_fifo<'s, OP, R>(op: OP) -> R where OP: FnOnce(&ScopeFifo<'s>) -> R + Send, R: Send { in_pool(current_num_threads(), || in_place_scope_fifo(op)) }
pub fn spawn<F>(f: F) where F: FnOnce() + Send + 'static { in_pool(current_num_threads(), f) }
pub fn spawn_fifo<F>(f: F) where F: FnOnce() + Send + 'static { spawn(f) }
pub struct BroadcastContext<'a> { i: usize, n: usize, _m: PhantomData<&'a mut dyn Fn()> }
impl<'a> BroadcastContext<'a> { pub fn index(&self) -> usize { self.i } pub fn num_threads(&self) -> usize { self.n } }
pub fn broadcast<OP, R>(op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send {
    let n = current_num_threads();
    (0..n).map(|i| op(BroadcastContext { i, n, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP) where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static { broadcast(op); }
#[derive(Debug, PartialEq, Eq)]
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { None }
pub fn yield_local() -> Option<Yield> { None }

//! Loads LLVM bitcode through LLVM's C API and lowers it to the compact IR the executor runs.
use crate::dl::Lib;
use crate::term::mask;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{c_char, c_double, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
use std::rc::Rc;

type P = *mut c_void;
crate::dl_api!(Api {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(*const c_char, *mut P, *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(P, P, *mut P) -> c_int;
    fn LLVMGetFirstFunction(P) -> P;
    fn LLVMGetNextFunction(P) -> P;
    fn LLVMGetFirstGlobal(P) -> P;
    fn LLVMGetNextGlobal(P) -> P;
    fn LLVMGetFirstGlobalAlias(P) -> P;
    fn LLVMGetNextGlobalAlias(P) -> P;
    fn LLVMAliasGetAliasee(P) -> P;
    fn LLVMGetValueName2(P, *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(P) -> c_int;
    fn LLVMCountParams(P) -> c_uint;
    fn LLVMGetParam(P, c_uint) -> P;
    fn LLVMGetFirstBasicBlock(P) -> P;
    fn LLVMGetNextBasicBlock(P) -> P;
    fn LLVMGetFirstInstruction(P) -> P;
    fn LLVMGetNextInstruction(P) -> P;
    fn LLVMGetInstructionOpcode(P) -> c_uint;
    fn LLVMGetNumOperands(P) -> c_int;
    fn LLVMGetOperand(P, c_uint) -> P;
    fn LLVMTypeOf(P) -> P;
    fn LLVMGlobalGetValueType(P) -> P;
    fn LLVMGetTypeKind(P) -> c_uint;
    fn LLVMGetIntTypeWidth(P) -> c_uint;
    fn LLVMCountStructElementTypes(P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(P, c_uint) -> P;
    fn LLVMGetElementType(P) -> P;
    fn LLVMGetArrayLength2(P) -> c_ulonglong;
    fn LLVMGetVectorSize(P) -> c_uint;
    fn LLVMGetModuleDataLayout(P) -> P;
    fn LLVMABISizeOfType(P, P) -> c_ulonglong;
    fn LLVMStoreSizeOfType(P, P) -> c_ulonglong;
    fn LLVMOffsetOfElement(P, P, c_uint) -> c_ulonglong;
    fn LLVMABIAlignmentOfType(P, P) -> c_uint;
    fn LLVMGetValueKind(P) -> c_uint;
    fn LLVMIsAArgument(P) -> P;
    fn LLVMIsABasicBlock(P) -> P;
    fn LLVMIsAFunction(P) -> P;
    fn LLVMIsAGlobalAlias(P) -> P;
    fn LLVMIsAGlobalVariable(P) -> P;
    fn LLVMIsAConstantExpr(P) -> P;
    fn LLVMIsAConstantArray(P) -> P;
    fn LLVMIsAConstantStruct(P) -> P;
    fn LLVMIsAConstantVector(P) -> P;
    fn LLVMIsAUndefValue(P) -> P;
    fn LLVMIsAConstantAggregateZero(P) -> P;
    fn LLVMIsAConstantDataArray(P) -> P;
    fn LLVMIsAConstantDataVector(P) -> P;
    fn LLVMIsAConstantInt(P) -> P;
    fn LLVMIsAConstantFP(P) -> P;
    fn LLVMIsAConstantPointerNull(P) -> P;
    fn LLVMIsAInlineAsm(P) -> P;
    fn LLVMIsAInstruction(P) -> P;

    fn LLVMConstIntGetZExtValue(P) -> c_ulonglong;
    fn LLVMConstRealGetDouble(P, *mut c_int) -> c_double;
    fn LLVMGetInitializer(P) -> P;
    fn LLVMIsGlobalConstant(P) -> c_int;
    fn LLVMIsThreadLocal(P) -> c_int;
    fn LLVMGetAlignment(P) -> c_uint;
    fn LLVMGetAggregateElement(P, c_uint) -> P;
    fn LLVMGetRawDataValues(P, *mut usize) -> *const c_char;
    fn LLVMGetICmpPredicate(P) -> c_uint;
    fn LLVMGetFCmpPredicate(P) -> c_uint;
    fn LLVMIsAUncondBrInst(P) -> P;
    fn LLVMIsACondBrInst(P) -> P;
    fn LLVMGetNumSuccessors(P) -> c_uint;
    fn LLVMGetSuccessor(P, c_uint) -> P;
    fn LLVMCountIncoming(P) -> c_uint;
    fn LLVMGetIncomingValue(P, c_uint) -> P;
    fn LLVMGetIncomingBlock(P, c_uint) -> P;
    fn LLVMGetCalledValue(P) -> P;
    fn LLVMGetNumArgOperands(P) -> c_uint;
    fn LLVMGetGEPSourceElementType(P) -> P;
    fn LLVMGetNumIndices(P) -> c_uint;
    fn LLVMGetIndices(P) -> *const c_uint;
    fn LLVMGetAllocatedType(P) -> P;
    fn LLVMGetNumMaskElements(P) -> c_uint;
    fn LLVMGetMaskValue(P, c_uint) -> c_int;
    fn LLVMGetConstOpcode(P) -> c_uint;
    fn LLVMPrintValueToString(P) -> *mut c_char;
    fn LLVMGetSwitchDefaultDest(P) -> P;
    fn LLVMGetSwitchCaseValue(P, c_uint) -> P;
    fn LLVMGetAtomicRMWBinOp(P) -> c_uint;
    fn LLVMGetDebugLocLine(P) -> c_uint;
    fn LLVMGetDebugLocFilename(P, *mut c_uint) -> *const c_char;
});

/// Run-time value.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    W(Rc<u128>),
    T(crate::term::T),
    A(Rc<Vec<V>>),
    U,
}
impl V {
    #[inline]
    pub fn c(x: u128) -> V { if x >> 64 == 0 { V::C(x as u64) } else { V::W(Rc::new(x)) } }
    #[inline]
    pub fn conc(&self) -> Option<u128> {
        match self { V::C(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F(u32),
    Ptr,
    Struct(Rc<Vec<(u64, Ty)>>, u64),
    Array(Rc<Ty>, u64, u64), // elem, n, elem size
    Vec(Rc<Ty>, u64, u64),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::F(w) => *w, Ty::Ptr => 64, _ => panic!("bits of {self:?}") } }
    pub fn elem(&self) -> &Ty { match self { Ty::Vec(e, _, _) | Ty::Array(e, _, _) => e, t => t } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::F(w) => *w as u64 / 8,
            Ty::Ptr => 8,
            Ty::Struct(_, s) => *s,
            Ty::Array(_, n, e) | Ty::Vec(_, n, e) => n * e,
            _ => 0,
        }
    }
    pub fn is_f(&self) -> bool { matches!(self.elem(), Ty::F(_)) && !matches!(self, Ty::Array(..)) }
}

#[derive(Clone, Debug)]
pub enum O { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, FToUI, FToSI, UIToF, SIToF, FTrunc, FExt, Bit }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop, Memcpy, Memset, UAddO, SAddO, USubO, SSubO, UMulO, SMulO, UMin, UMax, SMin, SMax, Abs, Ctlz, Cttz, Ctpop,
    FShl, FShr, BSwap, BitRev, USubSat, UAddSat, SSubSat, SAddSat, UCmp, SCmp, TlsAddr, Trap, Expect, IsConst, ObjSize,
    Libm(u32), Sqrt, Fabs, Fma, Floor, Ceil, FTrunc_, Round, RoundEven, CopySign, MinNum, MaxNum, FToSISat, FToUISat,
    RedAdd, RedOr, RedAnd, RedXor, RedMul, RedUMax, RedUMin, RedSMax, RedSMin, LaunderPtr, PtrMask, IsFpClass,
    // allocation
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Memcmp, Strlen,
    // harness
    SymInt, SymPick, SymAssume, SymAssert, SymReach, SymObserve, SymUf, SymConc, SymPanicOk, SymPar, SymFail, SymGlobal, SymParam,
    Panic, Abort, FmtWrite, Unsupported, RetZero, TimeNow,
}

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Intr(Intr), Ind(O) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(B, u32, Ty, O, O),
    ICmp(u32, u32, Ty, O, O),
    FCmp(u32, u32, Ty, O, O),
    FNeg(u32, Ty, O),
    Select(u32, O, O, O, Ty),
    Cast(Cast, u32, Ty, Ty, O),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    Gep(u32, O, i64, Vec<(O, u32, i64)>),
    GepV(u32, u64, O, i64, Vec<(O, u32, i64, bool)>, bool),
    Alloca(u32, u64, O),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u32, Vec<(u128, u32)>, u32),
    Ret(Option<O>),
    Call(Option<u32>, Callee, Vec<O>, Ty, Vec<Ty>),
    ExtractV(u32, O, Vec<u32>),
    InsertV(u32, O, O, Vec<u32>, Ty),
    ExtractE(u32, O, O),
    InsertE(u32, O, O, O, Ty),
    Shuffle(u32, O, O, Vec<i32>, u64),
    Freeze(u32, O, Ty),
    Unreachable,
    Fence,
    Rmw(u32, u32, Ty, O, O),
    CmpXchg(u32, Ty, O, O, O),
    Bad(String),
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, O)>)>, pub ins: Vec<I> }
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub nargs: u32,
    pub blocks: Vec<Block>,
    pub lines: Vec<Vec<u32>>,
}
pub struct FInfo { pub name: String, pub decl: bool, pub r: P, pub intr: Option<Intr>, pub rust: bool }

pub struct GInfo { pub name: String, pub r: P, pub addr: u64, pub size: u64, pub constant: bool }

pub struct Module {
    pub api: Api,
    dl: P,
    pub funcs: Vec<FInfo>,
    pub fmap: HashMap<usize, u32>,
    pub fname: HashMap<String, u32>,
    pub globals: Vec<GInfo>,
    gmap: HashMap<usize, usize>,
    tycache: RefCell<HashMap<usize, Ty>>,
    pub cache: RefCell<HashMap<u32, Rc<Func>>>,
    kinds: RefCell<HashMap<u32, u32>>,
}

pub const FUNC_BASE: u64 = 0x7f00_0000_0000;
pub const OBJ_SHIFT: u32 = 20;

fn opt_prefix<'a>(n: &'a str, p: &str) -> Option<&'a str> { n.strip_prefix(p) }

/// functions of the mathematical library: uninterpreted functions of their arguments
pub const LIBM: [&str; 24] = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "exp2", "expm1", "log", "log2", "log10",
    "log1p", "cbrt", "pow", "atan2", "hypot", "powi", "asinh", "acosh", "atanh"];
pub const LIBM_UF: u32 = 1 << 20;
pub fn libm_native(k: u32, a: &[u128]) -> u128 {
    let f32w = k & 0x100 != 0;
    let g = |i: usize| if f32w { f32::from_bits(a[i] as u32) as f64 } else { f64::from_bits(a[i] as u64) };
    let x = g(0);
    macro_rules! un { ($f:ident) => { if f32w { (f32::from_bits(a[0] as u32).$f()) as f64 } else { x.$f() } } }
    let r = match LIBM[(k & 0xff) as usize] {
        "sin" => un!(sin), "cos" => un!(cos), "tan" => un!(tan), "asin" => un!(asin), "acos" => un!(acos), "atan" => un!(atan),
        "sinh" => un!(sinh), "cosh" => un!(cosh), "tanh" => un!(tanh), "exp" => un!(exp), "exp2" => un!(exp2), "expm1" => un!(exp_m1),
        "log" => un!(ln), "log2" => un!(log2), "log10" => un!(log10), "log1p" => un!(ln_1p), "asinh" => un!(asinh), "acosh" => un!(acosh), "atanh" => un!(atanh), "cbrt" => un!(cbrt),
        "pow" => if f32w { (x as f32).powf(g(1) as f32) as f64 } else { x.powf(g(1)) },
        "atan2" => if f32w { (x as f32).atan2(g(1) as f32) as f64 } else { x.atan2(g(1)) },
        "hypot" => if f32w { (x as f32).hypot(g(1) as f32) as f64 } else { x.hypot(g(1)) },
        _ => if f32w { (x as f32).powi(a[1] as i32) as f64 } else { x.powi(a[1] as i32) },
    };
    if f32w { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }
}

pub fn classify(n: &str) -> Option<Intr> {
    use Intr::*;
    if let Some(s) = opt_prefix(n, "llvm.") {
        let starts = |p: &str| s == p || (s.starts_with(p) && s[p.len()..].starts_with('.'));
        let t: &[(&str, Intr)] = &[
            ("memcpy.inline", Memcpy), ("memcpy", Memcpy), ("memmove", Memcpy), ("memset.inline", Memset), ("memset", Memset),
            ("uadd.with.overflow", UAddO), ("sadd.with.overflow", SAddO), ("usub.with.overflow", USubO),
            ("ssub.with.overflow", SSubO), ("umul.with.overflow", UMulO), ("smul.with.overflow", SMulO),
            ("umin", UMin), ("umax", UMax), ("smin", SMin), ("smax", SMax), ("abs", Abs), ("ctlz", Ctlz), ("cttz", Cttz),
            ("ctpop", Ctpop), ("fshl", FShl), ("fshr", FShr), ("bswap", BSwap), ("bitreverse", BitRev),
            ("usub.sat", USubSat), ("uadd.sat", UAddSat), ("ssub.sat", SSubSat), ("sadd.sat", SAddSat),
            ("ucmp", UCmp), ("scmp", SCmp), ("threadlocal.address", TlsAddr), ("trap", Trap), ("expect", Expect),
            ("is.constant", IsConst), ("objectsize", ObjSize), ("sqrt", Sqrt), ("fabs", Fabs), ("fma", Fma), ("fmuladd", Fma),
            ("floor", Floor), ("ceil", Ceil), ("trunc", FTrunc_), ("round", Round), ("roundeven", RoundEven), ("rint", RoundEven),
            ("nearbyint", RoundEven), ("copysign", CopySign), ("minnum", MinNum), ("maxnum", MaxNum),
            ("minimumnum", MinNum), ("maximumnum", MaxNum),
            ("fptosi.sat", FToSISat), ("fptoui.sat", FToUISat), ("is.fpclass", IsFpClass),
            ("vector.reduce.add", RedAdd), ("vector.reduce.or", RedOr), ("vector.reduce.and", RedAnd), ("vector.reduce.xor", RedXor),
            ("vector.reduce.mul", RedMul), ("vector.reduce.umax", RedUMax), ("vector.reduce.umin", RedUMin),
            ("vector.reduce.smax", RedSMax), ("vector.reduce.smin", RedSMin),
            ("launder.invariant.group", LaunderPtr), ("strip.invariant.group", LaunderPtr), ("ptrmask", PtrMask),
            ("assume", Nop), ("lifetime", Nop), ("dbg", Nop), ("experimental.noalias.scope.decl", Nop), ("donothing", Nop),
            ("sideeffect", Nop), ("prefetch", Nop), ("invariant", Nop), ("ubsantrap", Trap), ("va_end", Nop), ("fake.use", Nop),
        ];
        for (p, k) in t { if starts(p) { return Some(*k); } }
        for (i, p) in LIBM.iter().enumerate() { if starts(p) { return Some(Libm(i as u32)); } }
        return Some(Unsupported);
    }
    Some(match n {
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "free" => Free,
        "posix_memalign" => PosixMemalign, "aligned_alloc" => AlignedAlloc,
        "memcmp" | "bcmp" => Memcmp, "strlen" => Strlen,
        "memcpy" | "memmove" => Memcpy, "memset" => Memset,
        "__sym_int" => SymInt, "__sym_pick" => SymPick, "__sym_assume" => SymAssume, "__sym_assert" => SymAssert,
        "__sym_reach" => SymReach, "__sym_observe" => SymObserve, "__sym_uf" => SymUf, "__sym_concretize" => SymConc,
        "__sym_panic_ok" => SymPanicOk, "__sym_par" => SymPar, "__sym_fail" => SymFail, "__sym_global" => SymGlobal, "__sym_param" => SymParam,
        "abort" | "_exit" | "exit" => Abort,
        "getenv" | "pthread_self" | "__errno_location" | "secure_getenv" => RetZero,
        "clock_gettime" => TimeNow,
        _ => {
            if let Some(i) = LIBM.iter().position(|p| *p == n) { return Some(Libm(i as u32)); }
            if let Some(i) = LIBM.iter().position(|p| n.strip_suffix('f') == Some(*p)) { return Some(Libm(i as u32)); }
            return None;
        }
    })
}
/// Rust functions that are replaced by a model (patterns over v0-mangled names).
pub fn classify_rust(n: &str) -> Option<Intr> {
    if n.contains("9drop_glue") || n.contains("11panic_count") { return None; }
    let free = n.starts_with("_RNv") || n.starts_with("_RINv") || n.starts_with("_RNSNv");
    if free {
        let panicky = ["4core9panicking", "3std9panicking", "13unwrap_failed", "13expect_failed", "17rust_begin_unwind",
            "16slice_index_fail", "slice_index_order_fail", "slice_start_index_len_fail", "slice_end_index_len_fail", "slice_error_fail",
            "17capacity_overflow", "18handle_alloc_error", "12handle_error", "17len_mismatch_fail", "7process5abort", "14abort_internal",
            "5alloc3vecINtB", "panic_const", "12___rust_abort", "copy_from_slice_impl17"];
        for p in panicky { if n.contains(p) && p != "5alloc3vecINtB" { return Some(Intr::Panic); } }
    }
    if n.ends_with("4core3fmt5write") { return Some(Intr::FmtWrite); }
    if n.contains("4core3fmt") && (n.contains("9Formatter") || n.contains("8builders")) && n.starts_with("_RNvM") { return Some(Intr::FmtWrite); }
    None
}

impl Module {
    pub fn load(libllvm: &str, bc: &str) -> Result<Module, String> {
        let lib = Lib::open(libllvm)?;
        let api = Api::load(&lib);
        std::mem::forget(lib);
        unsafe {
            let cx = (api.LLVMContextCreate)();
            let mut buf: P = std::ptr::null_mut();
            let mut msg: *mut c_char = std::ptr::null_mut();
            let path = CString::new(bc).unwrap();
            if (api.LLVMCreateMemoryBufferWithContentsOfFile)(path.as_ptr(), &mut buf, &mut msg) != 0 {
                return Err(format!("cannot read {bc}"));
            }
            let mut m: P = std::ptr::null_mut();
            if (api.LLVMParseBitcodeInContext2)(cx, buf, &mut m) != 0 { return Err(format!("cannot parse {bc}")); }
            let dl = (api.LLVMGetModuleDataLayout)(m);
            let mut md = Module { api, dl, funcs: vec![], fmap: HashMap::new(), fname: HashMap::new(), globals: vec![], gmap: HashMap::new(), tycache: Default::default(), cache: Default::default(), kinds: Default::default() };
            let mut f = (md.api.LLVMGetFirstFunction)(m);
            while !f.is_null() {
                let name = md.name(f);
                let decl = (md.api.LLVMIsDeclaration)(f) != 0;
                let mut intr = classify(&name);
                let rust = name.starts_with("_ZN") || name.starts_with("_R");
                if intr.is_none() && rust { intr = classify_rust(&name); }
                let id = md.funcs.len() as u32;
                md.fname.insert(name.clone(), id);
                md.funcs.push(FInfo { name, decl, r: f, intr, rust });
                md.fmap.insert(f as usize, id);
                f = (md.api.LLVMGetNextFunction)(f);
            }
            let mut g = (md.api.LLVMGetFirstGlobal)(m);
            let mut slot: u64 = 1;
            while !g.is_null() {
                let name = md.name(g);
                let ty = (md.api.LLVMGlobalGetValueType)(g);
                let size = (md.api.LLVMABISizeOfType)(md.dl, ty);
                let addr = slot << OBJ_SHIFT;
                slot += 1 + (size >> OBJ_SHIFT);
                let constant = (md.api.LLVMIsGlobalConstant)(g) != 0;
                md.gmap.insert(g as usize, md.globals.len());
                md.globals.push(GInfo { name, r: g, addr, size, constant });
                g = (md.api.LLVMGetNextGlobal)(g);
            }
            Ok(md)
        }
    }
    pub fn name(&self, v: P) -> String {
        let mut n = 0usize;
        unsafe {
            let p = (self.api.LLVMGetValueName2)(v, &mut n);
            String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).to_string()
        }
    }
    fn print(&self, v: P) -> String {
        unsafe { CStr::from_ptr((self.api.LLVMPrintValueToString)(v)).to_string_lossy().to_string() }
    }
    pub fn ty(&self, t: P) -> Ty {
        if let Some(x) = self.tycache.borrow().get(&(t as usize)) { return x.clone(); }
        let a = &self.api;
        let r = unsafe {
            match (a.LLVMGetTypeKind)(t) {
                0 => Ty::Void,
                2 => Ty::F(32),
                3 => Ty::F(64),
                8 => Ty::Int((a.LLVMGetIntTypeWidth)(t)),
                10 => {
                    let n = (a.LLVMCountStructElementTypes)(t);
                    let v = (0..n).map(|i| ((a.LLVMOffsetOfElement)(self.dl, t, i), self.ty((a.LLVMStructGetTypeAtIndex)(t, i)))).collect();
                    Ty::Struct(Rc::new(v), (a.LLVMABISizeOfType)(self.dl, t))
                }
                11 => {
                    let e = (a.LLVMGetElementType)(t);
                    Ty::Array(Rc::new(self.ty(e)), (a.LLVMGetArrayLength2)(t), (a.LLVMABISizeOfType)(self.dl, e))
                }
                12 => Ty::Ptr,
                13 => {
                    let e = (a.LLVMGetElementType)(t);
                    Ty::Vec(Rc::new(self.ty(e)), (a.LLVMGetVectorSize)(t) as u64, (a.LLVMStoreSizeOfType)(self.dl, e))
                }
                _ => Ty::Other,
            }
        };
        self.tycache.borrow_mut().insert(t as usize, r.clone());
        r
    }
    fn ty_of(&self, v: P) -> Ty { self.ty(unsafe { (self.api.LLVMTypeOf)(v) }) }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(&x.1)).collect())),
            Ty::Array(e, n, _) | Ty::Vec(e, n, _) => V::A(Rc::new((0..*n).map(|_| self.zero(e)).collect())),
            _ => V::C(0),
        }
    }
    fn undef(&self, t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.undef(&x.1)).collect())),
            Ty::Array(e, n, _) | Ty::Vec(e, n, _) => V::A(Rc::new((0..*n).map(|_| self.undef(e)).collect())),
            _ => V::U,
        }
    }
    pub fn func_addr(&self, id: u32) -> u64 { FUNC_BASE + id as u64 * 16 }
    // LLVMValueKind: Argument0 BasicBlock1 MemoryUse2 MemDef3 MemPhi4 Function5 GlobalAlias6 IFunc7 GlobalVar8 BlockAddress9
    // ConstExpr10 ConstArray11 ConstStruct12 ConstVector13 Undef14 AggZero15 DataArray16 DataVector17 Int18 FP19 NullPtr20 TokenNone21 MDasV22 InlineAsm23 Inst24 Poison25 ...
    /// stable numbering of value kinds, whatever enum the loaded LLVM uses
    fn kind(&self, v: P) -> u32 {
        let k = unsafe { (self.api.LLVMGetValueKind)(v) };
        if let Some(r) = self.kinds.borrow().get(&k) { return *r; }
        let a = &self.api;
        let r = unsafe {
            if !(a.LLVMIsAArgument)(v).is_null() { 0 }
            else if !(a.LLVMIsABasicBlock)(v).is_null() { 1 }
            else if !(a.LLVMIsAFunction)(v).is_null() { 5 }
            else if !(a.LLVMIsAGlobalAlias)(v).is_null() { 6 }
            else if !(a.LLVMIsAGlobalVariable)(v).is_null() { 8 }
            else if !(a.LLVMIsAConstantExpr)(v).is_null() { 10 }
            else if !(a.LLVMIsAConstantArray)(v).is_null() { 11 }
            else if !(a.LLVMIsAConstantStruct)(v).is_null() { 12 }
            else if !(a.LLVMIsAConstantVector)(v).is_null() { 13 }
            else if !(a.LLVMIsAUndefValue)(v).is_null() { 14 }
            else if !(a.LLVMIsAConstantAggregateZero)(v).is_null() { 15 }
            else if !(a.LLVMIsAConstantDataArray)(v).is_null() { 16 }
            else if !(a.LLVMIsAConstantDataVector)(v).is_null() { 17 }
            else if !(a.LLVMIsAConstantInt)(v).is_null() { 18 }
            else if !(a.LLVMIsAConstantFP)(v).is_null() { 19 }
            else if !(a.LLVMIsAConstantPointerNull)(v).is_null() { 20 }
            else if !(a.LLVMIsAInlineAsm)(v).is_null() { 23 }
            else if !(a.LLVMIsAInstruction)(v).is_null() { 24 }
            else { 22 }
        };
        self.kinds.borrow_mut().insert(k, r);
        r
    }
    pub fn konst(&self, v: P) -> Result<V, String> {
        let a = &self.api;
        unsafe {
            let k = self.kind(v);
            Ok(match k {
                5 => V::C(self.func_addr(self.fmap[&(v as usize)])),
                6 => self.konst((a.LLVMAliasGetAliasee)(v))?,
                8 => V::C(self.globals[self.gmap[&(v as usize)]].addr),
                10 => self.cexpr(v)?,
                11 | 12 | 13 => {
                    let n = (a.LLVMGetNumOperands)(v);
                    let mut r = vec![];
                    for i in 0..n { r.push(self.konst((a.LLVMGetOperand)(v, i as u32))?); }
                    V::A(Rc::new(r))
                }
                14 | 25 => self.undef(&self.ty_of(v)),
                15 => self.zero(&self.ty_of(v)),
                16 | 17 => {
                    let n = match self.ty_of(v) { Ty::Array(_, n, _) | Ty::Vec(_, n, _) => n, _ => return Err("data".into()) };
                    let mut r = vec![];
                    for i in 0..n { r.push(self.konst((a.LLVMGetAggregateElement)(v, i as u32))?); }
                    V::A(Rc::new(r))
                }
                18 => {
                    let t = self.ty_of(v);
                    let splat = |x: V| match &t { Ty::Vec(_, n, _) => V::A(Rc::new(vec![x; *n as usize])), _ => x };
                    let w = t.elem().bits();
                    if w <= 64 { splat(V::C((a.LLVMConstIntGetZExtValue)(v))) }
                    else {
                        let s = self.print(v);
                        let x: i128 = if let Some(s) = s.rsplit(' ').next() {
                            if let Ok(i) = s.parse::<i128>() { i } else { s.parse::<u128>().map_err(|e| format!("{e} {s}"))? as i128 }
                        } else { 0 };
                        if w > 128 { return Err(format!("wide const {w}")); }
                        V::c(x as u128 & mask(w))
                    }
                }
                19 => {
                    let t = self.ty_of(v);
                    let mut l = 0;
                    let d = (a.LLVMConstRealGetDouble)(v, &mut l);
                    let x = match t.elem() { Ty::F(32) => V::C((d as f32).to_bits() as u64), Ty::F(64) => V::C(d.to_bits()), _ => return Err("fp".into()) };
                    match &t { Ty::Vec(_, n, _) => V::A(Rc::new(vec![x; *n as usize])), _ => x }
                }
                20 => V::C(0),
                _ => return Err(format!("const kind {k}: {}", self.print(v))),
            })
        }
    }
    fn cexpr(&self, v: P) -> Result<V, String> {
        let a = &self.api;
        unsafe {
            let op = (a.LLVMGetConstOpcode)(v);
            let opd = |i: u32| (a.LLVMGetOperand)(v, i);
            match op {
                29 => {
                    // GEP
                    let base = self.konst(opd(0))?.conc().ok_or("gep base")?;
                    let mut off: i64 = 0;
                    let n = (a.LLVMGetNumOperands)(v) as u32;
                    let mut t = (a.LLVMGetGEPSourceElementType)(v);
                    for i in 1..n {
                        let w = self.ty_of(opd(i)).bits();
                        let idx = crate::term::sext(self.konst(opd(i))?.conc().ok_or("gep idx")?, w) as i64;
                        if i == 1 { off += idx * (a.LLVMABISizeOfType)(self.dl, t) as i64; }
                        else if (a.LLVMGetTypeKind)(t) == 10 {
                            off += (a.LLVMOffsetOfElement)(self.dl, t, idx as u32) as i64;
                            t = (a.LLVMStructGetTypeAtIndex)(t, idx as u32);
                        } else {
                            t = (a.LLVMGetElementType)(t);
                            off += idx * (a.LLVMABISizeOfType)(self.dl, t) as i64;
                        }
                    }
                    Ok(V::C((base as u64).wrapping_add(off as u64)))
                }
                39 | 40 | 41 | 60 => self.konst(opd(0)), // ptrtoint inttoptr bitcast addrspacecast
                30 => { let w = self.ty_of(v).bits(); Ok(V::c(self.konst(opd(0))?.conc().ok_or("trunc")? & mask(w))) }
                8 => Ok(V::C((self.konst(opd(0))?.conc().ok_or("add")? as u64).wrapping_add(self.konst(opd(1))?.conc().ok_or("add")? as u64))),
                10 => Ok(V::C((self.konst(opd(0))?.conc().ok_or("sub")? as u64).wrapping_sub(self.konst(opd(1))?.conc().ok_or("sub")? as u64))),
                _ => Err(format!("constexpr opcode {op}: {}", self.print(v))),
            }
        }
    }
    /// Writes the bytes of a constant; returns mask of undefined bytes through `undef`.
    pub fn write_const(&self, v: P, out: &mut [u8], undef: &mut [u8]) -> Result<(), String> {
        let a = &self.api;
        unsafe {
            let k = self.kind(v);
            let t = self.ty_of(v);
            match k {
                14 | 25 => { for b in undef.iter_mut().take(t.size() as usize) { *b = 1; } Ok(()) }
                15 | 20 => Ok(()),
                16 | 17 => {
                    let mut n = 0usize;
                    let p = (a.LLVMGetRawDataValues)(v, &mut n);
                    out[..n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
                    Ok(())
                }
                11 | 13 => {
                    let n = (a.LLVMGetNumOperands)(v);
                    let es = match t { Ty::Array(_, _, e) | Ty::Vec(_, _, e) => e as usize, _ => return Err("arr".into()) };
                    for i in 0..n {
                        let o = i as usize * es;
                        self.write_const((a.LLVMGetOperand)(v, i as u32), &mut out[o..o + es], &mut undef[o..o + es])?;
                    }
                    Ok(())
                }
                12 => {
                    let f = match &t { Ty::Struct(f, _) => f.clone(), _ => return Err("struct".into()) };
                    for (i, (o, ft)) in f.iter().enumerate() {
                        let (o, s) = (*o as usize, ft.size() as usize);
                        self.write_const((a.LLVMGetOperand)(v, i as u32), &mut out[o..o + s], &mut undef[o..o + s])?;
                    }
                    Ok(())
                }
                _ => {
                    let c = self.konst(v)?.conc().ok_or("nonscalar const")?;
                    let n = t.size() as usize;
                    out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
                    Ok(())
                }
            }
        }
    }

    pub fn func(&self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = self.cache.borrow().get(&id) { return Ok(f.clone()); }
        let f = Rc::new(self.decode(id)?);
        self.cache.borrow_mut().insert(id, f.clone());
        Ok(f)
    }
    fn decode(&self, id: u32) -> Result<Func, String> {
        let a = &self.api;
        let fr = self.funcs[id as usize].r;
        let mut regs: HashMap<usize, u32> = HashMap::new();
        let mut blocks: HashMap<usize, u32> = HashMap::new();
        let mut out = vec![];
        let mut lines = vec![];
        unsafe {
            let nargs = (a.LLVMCountParams)(fr);
            for i in 0..nargs { regs.insert((a.LLVMGetParam)(fr, i) as usize, i); }
            let mut nregs = nargs;
            let mut b = (a.LLVMGetFirstBasicBlock)(fr);
            while !b.is_null() {
                let n = blocks.len() as u32;
                blocks.insert(b as usize, n);
                let mut i = (a.LLVMGetFirstInstruction)(b);
                while !i.is_null() {
                    regs.insert(i as usize, nregs);
                    nregs += 1;
                    i = (a.LLVMGetNextInstruction)(i);
                }
                b = (a.LLVMGetNextBasicBlock)(b);
            }
            let opn = |v: P| -> Result<O, String> {
                if let Some(r) = regs.get(&(v as usize)) { return Ok(O::R(*r)); }
                Ok(O::K(self.konst(v)?))
            };
            let mut b = (a.LLVMGetFirstBasicBlock)(fr);
            while !b.is_null() {
                let mut phis = vec![];
                let mut ins = vec![];
                let mut ln = vec![];
                let mut i = (a.LLVMGetFirstInstruction)(b);
                while !i.is_null() {
                    let d = regs[&(i as usize)];
                    if (a.LLVMGetInstructionOpcode)(i) == 44 {
                        let n = (a.LLVMCountIncoming)(i);
                        let mut v = vec![];
                        for k in 0..n {
                            v.push((blocks[&((a.LLVMGetIncomingBlock)(i, k) as usize)], opn((a.LLVMGetIncomingValue)(i, k))?));
                        }
                        phis.push((d, v));
                    } else {
                        let x = match self.decode_inst(i, d, &opn, &blocks) { Ok(x) => x, Err(e) => I::Bad(e) };
                        ins.push(x);
                        ln.push((a.LLVMGetDebugLocLine)(i));
                        if (a.LLVMGetInstructionOpcode)(i) == 5 {
                            // invoke: a call followed by a jump to the normal destination (a panic ends the path)
                            ins.push(I::Br(blocks[&((a.LLVMGetSuccessor)(i, 0) as usize)]));
                            ln.push((a.LLVMGetDebugLocLine)(i));
                        }
                    }
                    i = (a.LLVMGetNextInstruction)(i);
                }
                out.push(Block { phis, ins });
                lines.push(ln);
                b = (a.LLVMGetNextBasicBlock)(b);
            }
            Ok(Func { id, nregs, nargs, blocks: out, lines })
        }
    }
    unsafe fn decode_inst(&self, i: P, d: u32, opn: &dyn Fn(P) -> Result<O, String>, blocks: &HashMap<usize, u32>) -> Result<I, String> {
        let a = &self.api;
        let op = (a.LLVMGetInstructionOpcode)(i);
        let opv = |k: u32| (a.LLVMGetOperand)(i, k);
        let o = |k: u32| opn((a.LLVMGetOperand)(i, k));
        let ty = self.ty_of(i);
        let bb = |p: P| blocks[&(p as usize)];
        let bin = |k: B| -> Result<I, String> { Ok(I::Bin(k, d, ty.clone(), o(0)?, o(1)?)) };
        let cast = |k: Cast| -> Result<I, String> { Ok(I::Cast(k, d, self.ty_of(opv(0)), ty.clone(), o(0)?)) };
        Ok(match op {
            1 => { let n = (a.LLVMGetNumOperands)(i); I::Ret(if n == 1 { Some(o(0)?) } else { None }) }
            _ if !(a.LLVMIsAUncondBrInst)(i).is_null() => I::Br(bb((a.LLVMGetSuccessor)(i, 0))),
            _ if !(a.LLVMIsACondBrInst)(i).is_null() => I::CondBr(o(0)?, bb((a.LLVMGetSuccessor)(i, 0)), bb((a.LLVMGetSuccessor)(i, 1))),
            3 => {
                let n = (a.LLVMGetNumSuccessors)(i);
                let def = bb((a.LLVMGetSwitchDefaultDest)(i));
                let mut v = vec![];
                for k in 1..n {
                    let c = self.konst((a.LLVMGetSwitchCaseValue)(i, k))?.conc().ok_or("case")?;
                    v.push((c, bb((a.LLVMGetSuccessor)(i, k))));
                }
                I::Switch(o(0)?, self.ty_of(opv(0)).bits(), v, def)
            }
            7 => I::Unreachable,
            66 => I::FNeg(d, ty.clone(), o(0)?),
            8 => bin(B::Add)?, 9 => bin(B::FAdd)?, 10 => bin(B::Sub)?, 11 => bin(B::FSub)?, 12 => bin(B::Mul)?, 13 => bin(B::FMul)?,
            14 => bin(B::UDiv)?, 15 => bin(B::SDiv)?, 16 => bin(B::FDiv)?, 17 => bin(B::URem)?, 18 => bin(B::SRem)?, 19 => bin(B::FRem)?,
            20 => bin(B::Shl)?, 21 => bin(B::LShr)?, 22 => bin(B::AShr)?, 23 => bin(B::And)?, 24 => bin(B::Or)?, 25 => bin(B::Xor)?,
            26 => {
                let t = self.ty((a.LLVMGetAllocatedType)(i));
                I::Alloca(d, t.size().max((a.LLVMABISizeOfType)(self.dl, (a.LLVMGetAllocatedType)(i))), o(0)?)
            }
            27 => I::Load(d, ty.clone(), o(0)?),
            28 => I::Store(self.ty_of(opv(0)), o(0)?, o(1)?),
            29 => {
                let n = (a.LLVMGetNumOperands)(i) as u32;
                let mut off: i64 = 0;
                let mut v: Vec<(O, u32, i64)> = vec![];
                let mut vv = vec![];
                let mut t = (a.LLVMGetGEPSourceElementType)(i);
                let isvec = matches!(ty, Ty::Vec(..));
                for k in 1..n {
                    let idx = o(k)?;
                    let it = self.ty_of(opv(k));
                    let w = it.elem().bits();
                    let mut scale = 0;
                    if k == 1 { scale = (a.LLVMABISizeOfType)(self.dl, t) as i64; }
                    else if (a.LLVMGetTypeKind)(t) == 10 {
                        let c = self.konst(opv(k))?;
                        let c = match &c { V::A(x) => x[0].conc(), c => c.conc() }.ok_or("gep struct idx")? as u32;
                        off += (a.LLVMOffsetOfElement)(self.dl, t, c) as i64;
                        t = (a.LLVMStructGetTypeAtIndex)(t, c);
                        continue;
                    } else {
                        t = (a.LLVMGetElementType)(t);
                        scale += (a.LLVMABISizeOfType)(self.dl, t) as i64;
                    }
                    let itv = matches!(it, Ty::Vec(..));
                    match &idx {
                        O::K(c) if c.conc().is_some() => off += crate::term::sext(c.conc().unwrap(), w) as i64 * scale,
                        _ => { vv.push((idx.clone(), w, scale, itv)); v.push((idx, w, scale)) }
                    }
                }
                if isvec {
                    let nl = match ty { Ty::Vec(_, n, _) => n, _ => 0 };
                    let bv = matches!(self.ty_of(opv(0)), Ty::Vec(..));
                    I::GepV(d, nl, o(0)?, off, vv, bv)
                } else { I::Gep(d, o(0)?, off, v) }
            }
            30 => cast(Cast::Trunc)?, 31 => cast(Cast::ZExt)?, 32 => cast(Cast::SExt)?, 33 => cast(Cast::FToUI)?, 34 => cast(Cast::FToSI)?,
            35 => cast(Cast::UIToF)?, 36 => cast(Cast::SIToF)?, 37 => cast(Cast::FTrunc)?, 38 => cast(Cast::FExt)?,
            39 | 40 | 41 | 60 => {
                let (f, t) = (self.ty_of(opv(0)), &ty);
                if op == 39 && t.elem().bits() < 64 { cast(Cast::Trunc)? }
                else if op == 40 && f.elem().bits() < 64 { cast(Cast::ZExt)? }
                else { cast(Cast::Bit)? }
            }
            42 => I::ICmp((a.LLVMGetICmpPredicate)(i), d, self.ty_of(opv(0)), o(0)?, o(1)?),
            43 => I::FCmp((a.LLVMGetFCmpPredicate)(i), d, self.ty_of(opv(0)), o(0)?, o(1)?),
            45 | 5 => {
                let n = (a.LLVMGetNumArgOperands)(i);
                let cv = (a.LLVMGetCalledValue)(i);
                let mut args = vec![];
                let mut tys = vec![];
                let mut is_nop = false;
                let callee = if self.kind(cv) == 5 {
                    let id = self.fmap[&(cv as usize)];
                    match self.funcs[id as usize].intr { Some(Intr::Nop) => { is_nop = true; Callee::Intr(Intr::Nop) } Some(Intr::FmtWrite) => Callee::Fn(id), Some(k) => Callee::Intr(k), None => Callee::Fn(id) }
                } else if self.kind(cv) == 23 && { let t = self.print(cv); t.contains("\"sqrtsd ${0:x}, ${0:x}\"") || t.contains("\"sqrtss ${0:x}, ${0:x}\"") } {
                    // the libm crate's correctly rounded square root
                    Callee::Intr(Intr::Sqrt)
                } else if self.kind(cv) == 23 {
                    return Ok(if self.print(cv).contains("asm sideeffect \"\"") || self.print(i).contains("\"\"") { I::Fence } else { I::Bad(format!("inline asm {}", self.print(i))) });
                } else { Callee::Ind(opn(cv)?) };
                if !is_nop {
                    for k in 0..n {
                        let x = opv(k);
                        // metadata operands
                        if self.kind(x) == 22 { args.push(O::K(V::U)); tys.push(Ty::Other); continue; }
                        args.push(opn(x)?);
                        tys.push(self.ty_of(x));
                    }
                }
                I::Call(if ty == Ty::Void { None } else { Some(d) }, callee, args, ty.clone(), tys)
            }
            46 => I::Select(d, o(0)?, o(1)?, o(2)?, ty.clone()),
            50 => I::ExtractE(d, o(0)?, o(1)?),
            51 => I::InsertE(d, o(0)?, o(1)?, o(2)?, ty.clone()),
            52 => {
                let n = (a.LLVMGetNumMaskElements)(i);
                let m = (0..n).map(|k| (a.LLVMGetMaskValue)(i, k)).collect();
                let l = match self.ty_of(opv(0)) { Ty::Vec(_, n, _) => n, _ => 0 };
                I::Shuffle(d, o(0)?, o(1)?, m, l)
            }
            53 | 54 => {
                let n = (a.LLVMGetNumIndices)(i);
                let p = (a.LLVMGetIndices)(i);
                let ix: Vec<u32> = (0..n as usize).map(|k| *p.add(k)).collect();
                if op == 53 { I::ExtractV(d, o(0)?, ix) } else { I::InsertV(d, o(0)?, o(1)?, ix, ty.clone()) }
            }
            68 => I::Freeze(d, o(0)?, ty.clone()),
            55 => I::Fence,
            56 => I::CmpXchg(d, self.ty_of(opv(1)), o(0)?, o(1)?, o(2)?),
            57 => I::Rmw((a.LLVMGetAtomicRMWBinOp)(i), d, ty.clone(), o(0)?, o(1)?),
            _ => I::Bad(format!("opcode {op}: {}", self.print(i))),
        })
    }
    pub fn find_global(&self, r: P) -> u64 { self.globals[self.gmap[&(r as usize)]].addr }
}

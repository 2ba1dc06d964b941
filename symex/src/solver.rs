//! z3 back end plus the cheap layers in front of it: independence slicing, a query
//! cache and re-use of recent models.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ast = *mut c_void;
type Ctx = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_interrupt(c: Ctx);
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_solver_for_logic(c: Ctx, l: *mut c_void) -> Solver;
    fn Z3_mk_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> *mut c_void;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvneg(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_bvmul_no_overflow(c: Ctx, a: Ast, b: Ast, signed: bool) -> Ast;
    fn Z3_mk_bvmul_no_underflow(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sort(c: Ctx, e: c_uint, s: c_uint) -> Sort;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, bv: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, t: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, r: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, r: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_func_decl(c: Ctx, s: *mut c_void, n: c_uint, d: *const Sort, r: Sort) -> *mut c_void;
    fn Z3_mk_app(c: Ctx, d: *mut c_void, n: c_uint, a: *const Ast) -> Ast;
}

extern "C" fn on_error(c: Ctx, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        if m.contains("canceled") || m.contains("timeout") || m.contains("max. memory") { return; }
        eprintln!("z3 error: {}", m);
        std::process::exit(3);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Sat(Model), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub model_hits: u64, pub z3_s: f64, pub table: u64 }

pub struct Smt {
    epoch: std::time::Instant,
    ctx: Ctx,
    bv: Solver,
    fp: Solver,
    bvc: HashMap<E, Ast, Fx>,
    boolc: HashMap<E, Ast, Fx>,
    fpnode: HashMap<E, bool, Fx>,
    cache: HashMap<Vec<E>, Res>,
    recent: Vec<Model>,
    pub st: Stats,
    sort_cache: HashMap<u16, Sort>,
    ufs: HashMap<u32, *mut c_void>,
    pub timeout_ms: u32,
    dump: Option<String>,
}

static UNTIL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("memory_max_size").unwrap();
            let v = CString::new("6000").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let sym = |s: &str| { let c = CString::new(s).unwrap(); Z3_mk_string_symbol(ctx, c.as_ptr()) };
            let bv = Z3_mk_solver_for_logic(ctx, sym("QF_BV"));
            Z3_solver_inc_ref(ctx, bv);
            let fp = Z3_mk_solver(ctx);
            Z3_solver_inc_ref(ctx, fp);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, sym("timeout"), timeout_ms);
            Z3_solver_set_params(ctx, bv, p);
            Z3_solver_set_params(ctx, fp, p);
            // z3 does not honour its own timeout in every phase.
            let epoch = std::time::Instant::now();
            let c = ctx as usize;
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(100));
                let u = UNTIL.load(std::sync::atomic::Ordering::SeqCst);
                if u != 0 && epoch.elapsed().as_millis() as u64 > u { Z3_interrupt(c as Ctx); }
            });
            Smt { epoch, ctx, bv, fp, bvc: HashMap::default(), boolc: HashMap::default(), fpnode: HashMap::default(), cache: HashMap::new(), recent: vec![], st: Stats::default(), sort_cache: HashMap::new(), ufs: HashMap::new(), timeout_ms, dump: None }
        }
    }
    fn keep(&self, a: Ast) -> Ast { unsafe { Z3_inc_ref(self.ctx, a) }; a }
    fn sort(&mut self, w: u16) -> Sort {
        if let Some(s) = self.sort_cache.get(&w) { return *s; }
        let s = self.keep(unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) });
        self.sort_cache.insert(w, s);
        s
    }
    fn num(&mut self, v: u128, w: u16) -> Ast {
        let s = CString::new(v.to_string()).unwrap();
        let t = self.sort(w);
        self.keep(unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), t) })
    }
    fn fsort(&mut self, w: u16) -> Sort {
        let k = 1000 + w;
        if let Some(s) = self.sort_cache.get(&k) { return *s; }
        let (e, s) = if w == 64 { (11, 53) } else { (8, 24) };
        let s = self.keep(unsafe { Z3_mk_fpa_sort(self.ctx, e, s) });
        self.sort_cache.insert(k, s);
        s
    }
    fn fpv(&mut self, e: E) -> Ast {
        let w = ar().w(e);
        let b = self.bv(e);
        let s = self.fsort(w);
        self.keep(unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, b, s) })
    }
    fn is_fp(&mut self, e: E) -> bool {
        if let Some(b) = self.fpnode.get(&e) { return *b; }
        let n = ar().n(e);
        let r = (n.op as u8) >= (Op::FAdd as u8) || { let args = [n.a, n.b, n.c]; (0..nargs(n.op)).any(|i| self.is_fp(args[i])) };
        self.fpnode.insert(e, r);
        r
    }
    fn boolv(&mut self, e: E) -> Ast {
        if let Some(a) = self.boolc.get(&e) { return *a; }
        let a = ar();
        let n = a.n(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => if a.cv(e) == Some(1) { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Not => { let x = self.boolv(n.a); Z3_mk_not(c, x) }
                Op::And => { let v = [self.boolv(n.a), self.boolv(n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.boolv(n.a), self.boolv(n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => { let (x, y) = (self.boolv(n.a), self.boolv(n.b)); Z3_mk_xor(c, x, y) }
                Op::Ite => { let (x, y, z) = (self.boolv(n.a), self.boolv(n.b), self.boolv(n.c)); Z3_mk_ite(c, x, y, z) }
                Op::Eq => if a.w(n.a) == 1 { let (x, y) = (self.boolv(n.a), self.boolv(n.b)); Z3_mk_eq(c, x, y) } else { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_eq(c, x, y) },
                Op::Ult => { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_bvult(c, x, y) }
                Op::Ule => { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_bvule(c, x, y) }
                Op::Slt => { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_bvslt(c, x, y) }
                Op::Sle => { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_bvsle(c, x, y) }
                Op::UMulO => { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_not(c, self.keep(Z3_mk_bvmul_no_overflow(c, x, y, false))) }
                Op::SMulO => { let (x, y) = (self.bv(n.a), self.bv(n.b)); let v = [self.keep(Z3_mk_bvmul_no_overflow(c, x, y, true)), self.keep(Z3_mk_bvmul_no_underflow(c, x, y))]; Z3_mk_not(c, self.keep(Z3_mk_and(c, 2, v.as_ptr()))) }
                Op::FEq => { let (x, y) = (self.fpv(n.a), self.fpv(n.b)); Z3_mk_fpa_eq(c, x, y) }
                Op::FLt => { let (x, y) = (self.fpv(n.a), self.fpv(n.b)); Z3_mk_fpa_lt(c, x, y) }
                Op::FLe => { let (x, y) = (self.fpv(n.a), self.fpv(n.b)); Z3_mk_fpa_leq(c, x, y) }
                Op::FIsNan => { let x = self.fpv(n.a); Z3_mk_fpa_is_nan(c, x) }
                _ => { let x = self.bv_raw(e); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
            }
        };
        let r = self.keep(r);
        self.boolc.insert(e, r);
        r
    }
    fn bv(&mut self, e: E) -> Ast {
        if ar().w(e) == 1 && !matches!(ar().n(e).op, Op::Var | Op::Extract | Op::Const) {
            if let Some(a) = self.bvc.get(&e) { return *a; }
            let b = self.boolv(e);
            let one = self.num(1, 1);
            let zero = self.num(0, 1);
            let r = self.keep(unsafe { Z3_mk_ite(self.ctx, b, one, zero) });
            self.bvc.insert(e, r);
            return r;
        }
        self.bv_raw(e)
    }
    fn bv_raw(&mut self, e: E) -> Ast {
        if let Some(a) = self.bvc.get(&e) { return *a; }
        let a = ar();
        let n = a.n(e);
        let c = self.ctx;
        let w = n.w;
        macro_rules! b2 { ($f:ident) => {{ let (x, y) = (self.bv(n.a), self.bv(n.b)); $f(c, x, y) }} }
        macro_rules! f2 { ($f:ident) => {{ let (x, y) = (self.fpv(n.a), self.fpv(n.b)); let r = self.keep(Z3_mk_fpa_rne(c)); let t = self.keep($f(c, r, x, y)); Z3_mk_fpa_to_ieee_bv(c, t) }} }
        macro_rules! rnd { ($f:ident) => {{ let x = self.fpv(n.a); let r = self.keep($f(c)); let t = self.keep(Z3_mk_fpa_round_to_integral(c, r, x)); Z3_mk_fpa_to_ieee_bv(c, t) }} }
        let r = unsafe {
            match n.op {
                Op::Const => self.num(a.cv(e).unwrap(), w),
                Op::Var => {
                    let s = CString::new(format!("v{}", n.a)).unwrap();
                    let t = self.sort(w);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), t)
                }
                Op::Not => { let x = self.bv(n.a); Z3_mk_bvnot(c, x) }
                Op::Neg => { let x = self.bv(n.a); Z3_mk_bvneg(c, x) }
                Op::Add => b2!(Z3_mk_bvadd),
                Op::Sub => b2!(Z3_mk_bvsub),
                Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv),
                Op::SDiv => b2!(Z3_mk_bvsdiv),
                Op::URem => b2!(Z3_mk_bvurem),
                Op::SRem => b2!(Z3_mk_bvsrem),
                Op::And => b2!(Z3_mk_bvand),
                Op::Or => b2!(Z3_mk_bvor),
                Op::Xor => b2!(Z3_mk_bvxor),
                Op::Shl => b2!(Z3_mk_bvshl),
                Op::LShr => b2!(Z3_mk_bvlshr),
                Op::AShr => b2!(Z3_mk_bvashr),
                Op::Ite => { let (x, y, z) = (self.boolv(n.a), self.bv(n.b), self.bv(n.c)); Z3_mk_ite(c, x, y, z) }
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => { let x = self.bv(n.a); Z3_mk_extract(c, n.b + w as u32 - 1, n.b, x) }
                Op::ZExt => { let x = self.bv(n.a); Z3_mk_zero_ext(c, (w - a.w(n.a)) as u32, x) }
                Op::SExt => { let x = self.bv(n.a); Z3_mk_sign_ext(c, (w - a.w(n.a)) as u32, x) }
                Op::FAdd => f2!(Z3_mk_fpa_add),
                Op::FSub => f2!(Z3_mk_fpa_sub),
                Op::FMul => f2!(Z3_mk_fpa_mul),
                Op::FDiv => f2!(Z3_mk_fpa_div),
                Op::FSqrt => { let x = self.fpv(n.a); let r = self.keep(Z3_mk_fpa_rne(c)); let t = self.keep(Z3_mk_fpa_sqrt(c, r, x)); Z3_mk_fpa_to_ieee_bv(c, t) }
                Op::FFloor => rnd!(Z3_mk_fpa_rtn),
                Op::FCeil => rnd!(Z3_mk_fpa_rtp),
                Op::FTrunc => rnd!(Z3_mk_fpa_rtz),
                Op::FRoundA => rnd!(Z3_mk_fpa_rna),
                Op::FRoundE => rnd!(Z3_mk_fpa_rne),
                Op::FpToSI => {
                    let aw = a.w(n.a);
                    let x = self.fpv(n.a);
                    let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    let bits = |v: f64| -> u128 { if aw == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 } };
                    // 2^(w-1) is exactly representable; MIN is exactly representable.
                    let hi = { let b = self.num(bits((1u128 << (w - 1)) as f64), aw); let s = self.fsort(aw); self.keep(Z3_mk_fpa_to_fp_bv(c, b, s)) };
                    let lo = { let b = self.num(bits(mn as f64), aw); let s = self.fsort(aw); self.keep(Z3_mk_fpa_to_fp_bv(c, b, s)) };
                    let nan = self.keep(Z3_mk_fpa_is_nan(c, x));
                    let ge = self.keep(Z3_mk_fpa_leq(c, hi, x));
                    let le = self.keep(Z3_mk_fpa_leq(c, x, lo));
                    let rtz = self.keep(Z3_mk_fpa_rtz(c));
                    let v = self.keep(Z3_mk_fpa_to_sbv(c, rtz, x, w as c_uint));
                    let z = self.num(0, w); let m1 = self.num(mn as u128 & mask(w), w); let m2 = self.num(mx as u128, w);
                    let i1 = self.keep(Z3_mk_ite(c, le, m1, v));
                    let i2 = self.keep(Z3_mk_ite(c, ge, m2, i1));
                    Z3_mk_ite(c, nan, z, i2)
                }
                Op::FpToUI => {
                    let aw = a.w(n.a);
                    let x = self.fpv(n.a);
                    let bits = |v: f64| -> u128 { if aw == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 } };
                    let hi = { let b = self.num(bits(if w >= 64 { 18446744073709551616.0 } else { (1u64 << w) as f64 }), aw); let s = self.fsort(aw); self.keep(Z3_mk_fpa_to_fp_bv(c, b, s)) };
                    let lo = { let b = self.num(0, aw); let s = self.fsort(aw); self.keep(Z3_mk_fpa_to_fp_bv(c, b, s)) };
                    let nan = self.keep(Z3_mk_fpa_is_nan(c, x));
                    let ge = self.keep(Z3_mk_fpa_leq(c, hi, x));
                    let le = self.keep(Z3_mk_fpa_leq(c, x, lo));
                    let rtz = self.keep(Z3_mk_fpa_rtz(c));
                    let v = self.keep(Z3_mk_fpa_to_ubv(c, rtz, x, w as c_uint));
                    let z = self.num(0, w); let m2 = self.num(mask(w), w);
                    let i1 = self.keep(Z3_mk_ite(c, le, z, v));
                    let i2 = self.keep(Z3_mk_ite(c, ge, m2, i1));
                    Z3_mk_ite(c, nan, z, i2)
                }
                Op::SIToFp => { let x = self.bv(n.a); let s = self.fsort(w); let r = self.keep(Z3_mk_fpa_rne(c)); let t = self.keep(Z3_mk_fpa_to_fp_signed(c, r, x, s)); Z3_mk_fpa_to_ieee_bv(c, t) }
                Op::UIToFp => { let x = self.bv(n.a); let s = self.fsort(w); let r = self.keep(Z3_mk_fpa_rne(c)); let t = self.keep(Z3_mk_fpa_to_fp_unsigned(c, r, x, s)); Z3_mk_fpa_to_ieee_bv(c, t) }
                Op::FpExt | Op::FpTrunc => { let x = self.fpv(n.a); let s = self.fsort(w); let r = self.keep(Z3_mk_fpa_rne(c)); let t = self.keep(Z3_mk_fpa_to_fp_float(c, r, x, s)); Z3_mk_fpa_to_ieee_bv(c, t) }
                Op::Uf | Op::FRem => {
                    let key = if n.op == Op::Uf { n.c } else { 9999 };
                    let s = self.sort(w);
                    let d = match self.ufs.get(&key) { Some(d) => *d, None => {
                        let nm = CString::new(format!("uf{}", key)).unwrap();
                        let dom = [s, s];
                        let d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm.as_ptr()), 2, dom.as_ptr(), s);
                        Z3_inc_ref(c, d);
                        self.ufs.insert(key, d);
                        d
                    } };
                    let (x, y) = (self.bv(n.a), self.bv(n.b));
                    let v = [x, y];
                    Z3_mk_app(c, d, 2, v.as_ptr())
                }
                _ => { let b = self.boolv(e); let one = self.num(1, 1); let zero = self.num(0, 1); Z3_mk_ite(c, b, one, zero) }
            }
        };
        let r = self.keep(r);
        self.bvc.insert(e, r);
        r
    }

    fn raw_check(&mut self, cs: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        let mut fp = false;
        for c in cs { if self.is_fp(*c) { fp = true; } }
        let s = if fp { self.fp } else { self.bv };
        let r = unsafe {
            Z3_solver_push(self.ctx, s);
            let mut vars: Vec<u32> = vec![];
            for c in cs {
                let b = self.boolv(*c);
                Z3_solver_assert(self.ctx, s, b);
                vars.extend(ar().support(*c).iter());
            }
            vars.sort_unstable();
            vars.dedup();
            let until = self.epoch.elapsed().as_millis() as u64 + self.timeout_ms as u64 * 5 / 4 + 500;
            UNTIL.store(until, std::sync::atomic::Ordering::SeqCst);
            let k = Z3_solver_check(self.ctx, s);
            UNTIL.store(0, std::sync::atomic::Ordering::SeqCst);
            let r = if k == 1 {
                let m = Z3_solver_get_model(self.ctx, s);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = Model::default();
                for v in vars {
                    let x = self.bv(ar().var_expr[v as usize]);
                    let mut val: Ast = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, m, x, true, &mut val) {
                        Z3_inc_ref(self.ctx, val);
                        let t = CStr::from_ptr(Z3_get_numeral_string(self.ctx, val)).to_string_lossy().to_string();
                        out.insert(v, t.parse::<u128>().unwrap_or(0));
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Res::Sat(out)
            } else if k == -1 { Res::Unsat } else { Res::Unknown };
            Z3_solver_pop(self.ctx, s, 1);
            r
        };
        self.st.z3_s += t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        match r { Res::Sat(_) => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        let _ = &self.dump;
        r
    }

    /// Is `pc /\ q` satisfiable?  Only the constraints sharing variables (transitively) with
    /// `q` are sent; the returned model covers just those variables.
    pub fn check(&mut self, pc: &[E], q: E) -> Res {
        let a = ar();
        if let Some(v) = a.cv(q) { if v == 0 { return Res::Unsat; } }
        let mut vars: std::collections::HashSet<u32, Fx> = a.support(q).iter().copied().collect();
        let mut picked = vec![false; pc.len()];
        let mut sel: Vec<E> = vec![q];
        loop {
            let mut changed = false;
            for (i, c) in pc.iter().enumerate() {
                if picked[i] { continue; }
                let s = a.sup[*c as usize];
                let hit = if s == 0 { false } else if s != u32::MAX { vars.contains(&(s - 1)) } else { a.support(*c).iter().any(|v| vars.contains(v)) };
                if hit {
                    picked[i] = true;
                    sel.push(*c);
                    if s == u32::MAX { for v in a.support(*c).iter() { if vars.insert(*v) { changed = true; } } }
                }
            }
            if !changed { break; }
        }
        sel.sort_unstable();
        sel.dedup();
        if let Some(r) = self.cache.get(&sel) { self.st.cache_hits += 1; return r.clone(); }
        // Recent models
        for m in self.recent.iter().rev() {
            let mut memo = HashMap::default();
            if sel.iter().all(|c| a.eval_memo(*c, m, &mut memo) != 0) {
                let mut out = Model::default();
                for v in vars.iter() { out.insert(*v, m.get(v).copied().unwrap_or(0)); }
                self.st.model_hits += 1;
                let r = Res::Sat(out);
                self.cache.insert(sel, r.clone());
                return r;
            }
        }
        let r = self.raw_check(&sel);
        if let Res::Sat(m) = &r {
            self.recent.push(m.clone());
            if self.recent.len() > 24 { self.recent.remove(0); }
        }
        if self.cache.len() > 400_000 { self.cache.clear(); }
        self.cache.insert(sel, r.clone());
        r
    }
}

//! Running BASIC text against the real compiler and VM, with symbolic values injected through
//! callables and every output captured.
use crate as rt;
use endbasic_core::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { B(bool), D(f64), I(i32), S(String), Missing, Sep(u8) }

impl V {
    /// Exact equality; doubles compare by value except that all NaNs are one.
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::B(a), V::B(b)) => a == b,
            (V::I(a), V::I(b)) => a == b,
            (V::D(a), V::D(b)) => same_f64(*a, *b),
            (V::S(a), V::S(b)) => a == b,
            (V::Missing, V::Missing) => true,
            (V::Sep(a), V::Sep(b)) => a == b,
            _ => false,
        }
    }
}

/// Same double: identical bits, or both NaN.
pub fn same_f64(a: f64, b: f64) -> bool { (a.to_bits() == b.to_bits()) | ((a != a) & (b != b)) }

#[derive(Default)]
pub struct World {
    pub outs: RefCell<Vec<V>>,
    pub ints: RefCell<Vec<i32>>,
    pub dbls: RefCell<Vec<f64>>,
    pub strs: RefCell<Vec<String>>,
    pub bools: RefCell<Vec<bool>>,
    pub fails: RefCell<Vec<bool>>,
    pub errs: RefCell<Vec<(usize, usize, String)>>,
    pub async_calls: Cell<usize>,
    pub stops: Cell<usize>,
    pub data: RefCell<Vec<Option<V>>>,
    pub poss: RefCell<Vec<(usize, usize)>>,
}

fn md(name: &'static str) -> CallableMetadataBuilder { CallableMetadataBuilder::new(name) }

pub fn seps(s: ArgSep) -> u8 { match s { ArgSep::End => 0, ArgSep::Short => 1, ArgSep::Long => 2, ArgSep::As => 3 } }

struct Out { m: Rc<CallableMetadata>, w: Rc<World>, with_seps: bool }
impl Callable for Out {
    fn metadata(&self) -> Rc<CallableMetadata> { self.m.clone() }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        let mut outs = self.w.outs.borrow_mut();
        if scope.nargs() == 0 { return Ok(()); }
        let mut reg = 0;
        loop {
            let sep = match scope.get_type(reg) {
                VarArgTag::Immediate(sep, t) => {
                    reg += 1;
                    outs.push(match t {
                        ExprType::Boolean => V::B(scope.get_boolean(reg)),
                        ExprType::Double => V::D(scope.get_double(reg)),
                        ExprType::Integer => V::I(scope.get_integer(reg)),
                        ExprType::Text => V::S(scope.get_string(reg).to_owned()),
                    });
                    sep
                }
                VarArgTag::Missing(sep) => { outs.push(V::Missing); sep }
                VarArgTag::Pointer(_) => panic!("pointer argument where a value was requested"),
            };
            reg += 1;
            if self.with_seps { outs.push(V::Sep(seps(sep))); }
            if sep == ArgSep::End { break; }
        }
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind { I, D, S, B, FailCmd, Fail0, FailFn, LastErr, Data, Set, Async, AsyncFail, TI, TB }
struct Src { m: Rc<CallableMetadata>, w: Rc<World>, k: Kind }
/// The value of an index, which programs out of arbitrary words may have beyond the last.
fn at<T: Clone>(v: &std::cell::RefCell<Vec<T>>, i: usize) -> T { let v = v.borrow(); v[i % v.len()].clone() }
impl Src {
    fn run(&self, mut scope: Scope<'_>) -> CallResult<()> {
        match self.k {
            Kind::I => { let i = scope.get_integer(0) as usize; let v = at(&self.w.ints, i); scope.return_integer(v) }
            Kind::D => { let i = scope.get_integer(0) as usize; let v = at(&self.w.dbls, i); scope.return_double(v) }
            Kind::S => { let i = scope.get_integer(0) as usize; let v = at(&self.w.strs, i).clone(); scope.return_string(v) }
            Kind::B => { let i = scope.get_integer(0) as usize; let v = at(&self.w.bools, i); scope.return_boolean(v) }
            Kind::FailCmd | Kind::AsyncFail => {
                let i = scope.get_integer(0) as usize;
                if at(&self.w.fails, i) { return Err(CallError::Eval(format!("failure {}", i))); }
                Ok(())
            }
            Kind::Fail0 => { if at(&self.w.fails, 0) { Err(CallError::Eval("failure 0".into())) } else { Ok(()) } }
            Kind::FailFn => {
                let i = scope.get_integer(0) as usize;
                if at(&self.w.fails, i) { return Err(CallError::Argument(format!("failure {}", i))); }
                scope.return_integer(100 + i as i32)
            }
            Kind::TI => { let i = scope.get_integer(0) as usize; self.w.outs.borrow_mut().push(V::S(format!("ti{}", i))); let v = at(&self.w.ints, i); scope.return_integer(v) }
            Kind::TB => { let i = scope.get_integer(0) as usize; self.w.outs.borrow_mut().push(V::S(format!("tb{}", i))); let v = at(&self.w.bools, i); scope.return_boolean(v) }
            Kind::LastErr => {
                let e = scope.last_error().map(|(p, m)| (p.line, p.col, m.to_owned()));
                if let Some(e) = e { self.w.errs.borrow_mut().push(e); scope.return_boolean(true) } else { scope.return_boolean(false) }
            }
            Kind::Data => {
                let d = scope.data().iter().map(|d| d.as_ref().map(from_datum)).collect();
                *self.w.data.borrow_mut() = d;
                Ok(())
            }
            Kind::Set => {
                let i = scope.get_integer(1) as usize;
                let mut r = scope.get_mut_ref(0);
                match r.vtype {
                    ExprType::Integer => { let v = at(&self.w.ints, i); r.set_integer(v); Ok(()) }
                    ExprType::Double => { let v = at(&self.w.dbls, i); r.set_double(v); Ok(()) }
                    ExprType::Boolean => { let v = at(&self.w.bools, i); r.set_boolean(v); Ok(()) }
                    ExprType::Text => { let v = at(&self.w.strs, i); r.set_string(v) }
                }
            }
            Kind::Async => {
                self.w.async_calls.set(self.w.async_calls.get() + 1);
                let i = scope.get_integer(0) as usize;
                let v = at(&self.w.ints, i);
                scope.return_integer(v)
            }
        }
    }
}
#[async_trait::async_trait(?Send)]
impl Callable for Src {
    fn metadata(&self) -> Rc<CallableMetadata> { self.m.clone() }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> { self.run(scope) }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> { self.run(scope) }
}

pub fn from_datum(d: &ConstantDatum) -> V {
    match d {
        ConstantDatum::Boolean(b) => V::B(*b),
        ConstantDatum::Double(x) => V::D(*x),
        ConstantDatum::Integer(i) => V::I(*i),
        ConstantDatum::Text(s) => V::S(s.clone()),
    }
}

macro_rules! arg1 {
    () => { &[(&[SingularArgSyntax::RequiredValue(RequiredValueSyntax { name: Cow::Borrowed("k"), vtype: ExprType::Integer }, ArgSepSyntax::End)], None)] };
}

pub type Callables = HashMap<SymbolKey, Rc<dyn Callable>>;

/// The standard set of probe callables, all reading from or writing to `w`.
pub fn callables(w: &Rc<World>) -> Callables {
    let mut m: Callables = HashMap::new();
    let mut add = |c: Rc<dyn Callable>| { m.insert(SymbolKey::from(c.metadata().name()), c); };
    for (n, ws) in [("OUT", false), ("OUTS", true)] {
        add(Rc::new(Out { m: md(n).with_syntax(&[(&[], Some(&RepeatedSyntax { name: Cow::Borrowed("a"), type_syn: RepeatedTypeSyntax::AnyValue,
            sep: ArgSepSyntax::OneOf(&[ArgSep::As, ArgSep::Long, ArgSep::Short]), require_one: false, allow_missing: true }))]).test_build(), w: w.clone(), with_seps: ws }));
    }
    let mut src = |n: &'static str, k: Kind, t: Option<ExprType>| {
        let mut b = md(n).with_async(matches!(k, Kind::Async | Kind::AsyncFail));
        if let Some(t) = t { b = b.with_return_type(t); }
        b = match k {
            Kind::LastErr | Kind::Data | Kind::Fail0 => b.with_syntax(&[(&[], None)]),
            Kind::Set => b.with_syntax(&[(&[
                SingularArgSyntax::RequiredRef(RequiredRefSyntax { name: Cow::Borrowed("r"), require_array: false, define_undefined: true }, ArgSepSyntax::Exactly(ArgSep::Long)),
                SingularArgSyntax::RequiredValue(RequiredValueSyntax { name: Cow::Borrowed("k"), vtype: ExprType::Integer }, ArgSepSyntax::End)], None)]),
            _ => b.with_syntax(arg1!()),
        };
        add(Rc::new(Src { m: b.test_build(), w: w.clone(), k }));
    };
    src("IV", Kind::I, Some(ExprType::Integer));
    src("DV", Kind::D, Some(ExprType::Double));
    src("SV", Kind::S, Some(ExprType::Text));
    src("BV", Kind::B, Some(ExprType::Boolean));
    src("TI", Kind::TI, Some(ExprType::Integer));
    src("TB", Kind::TB, Some(ExprType::Boolean));
    src("FAIL", Kind::FailCmd, None);
    src("FAIL0", Kind::Fail0, None);
    src("AFAIL", Kind::AsyncFail, None);
    src("FAILF", Kind::FailFn, Some(ExprType::Integer));
    src("LASTERR", Kind::LastErr, Some(ExprType::Boolean));
    src("GETDATA", Kind::Data, None);
    src("SETV", Kind::Set, None);
    src("AV", Kind::Async, Some(ExprType::Integer));
    m
}

#[derive(Clone, Debug)]
pub enum Outcome { Compile(usize, usize, String), End(i32), Eof, Exc(usize, usize, String), Stuck }

impl Outcome {
    pub fn code(&self) -> u64 {
        match self {
            Outcome::Compile(..) => 1 << 32,
            Outcome::End(c) => 2 << 32 | (*c as u32 as u64),
            Outcome::Eof => 3 << 32,
            Outcome::Exc(l, c, _) => 4 << 32 | (*l as u64) << 16 | *c as u64,
            Outcome::Stuck => 5 << 32,
        }
    }
    pub fn msg(&self) -> &str { match self { Outcome::Compile(_, _, m) | Outcome::Exc(_, _, m) => m, _ => "" } }
    pub fn is_exc(&self, m: &str) -> bool { matches!(self, Outcome::Exc(_, _, x) if x == m) }
    pub fn ok(&self) -> bool { matches!(self, Outcome::Eof | Outcome::End(0)) }
}

pub struct Machine { pub w: Rc<World>, pub img: Image, pub comp: Compiler, pub vm: Vm, pub max_stops: usize }

impl Machine {
    pub fn new(w: &Rc<World>) -> Machine { Machine::with(w, &[], Limits::default()) }
    pub fn with(w: &Rc<World>, globals: &[GlobalDef], limits: Limits) -> Machine {
        Machine::with_callables(w, callables(w), globals, limits)
    }
    pub fn with_callables(w: &Rc<World>, c: Callables, globals: &[GlobalDef], limits: Limits) -> Machine {
        let comp = Compiler::new(&c, globals).expect("globals are well defined");
        Machine { w: w.clone(), img: Image::default(), comp, vm: Vm::new_with_limits(c, limits), max_stops: 200 }
    }
    /// Compiles one more chunk; on failure says where and why.
    pub fn compile(&mut self, src: &[u8]) -> Result<(), Outcome> {
        match self.comp.compile_more(&mut self.img, &mut &src[..]) {
            Ok(()) => Ok(()),
            Err(e) => { let p = e.pos(); Err(Outcome::Compile(p.line, p.col, e.message_without_pos())) }
        }
    }
    /// Runs to the next end of program, servicing yields and asynchronous calls.
    pub fn exec(&mut self) -> Outcome {
        let mut n = 0;
        loop {
            match self.vm.exec(&self.img) {
                StopReason::End(c) => return Outcome::End(c.to_i32()),
                StopReason::Eof => return Outcome::Eof,
                StopReason::Exception(p, m) => return Outcome::Exc(p.line, p.col, m),
                StopReason::UpcallAsync(h) => {
                    if let Err(e) = rt::block_on(h.invoke()) { let (p, m) = e.parts(); return Outcome::Exc(p.line, p.col, m); }
                }
                StopReason::Yield => (),
            }
            n += 1;
            self.w.stops.set(self.w.stops.get() + 1);
            if n > self.max_stops { return Outcome::Stuck; }
        }
    }
    pub fn run(&mut self, src: &[u8]) -> Outcome {
        match self.compile(src) { Ok(()) => self.exec(), Err(e) => e }
    }
}

/// Compiles and runs one program in a fresh machine.
pub fn run(w: &Rc<World>, src: &str) -> Outcome { Machine::new(w).run(src.as_bytes()) }

pub fn world() -> Rc<World> { Rc::new(World::default()) }
/// A world whose IV(0)..IV(n-1) are arbitrary integers.
pub fn world_i(n: usize) -> Rc<World> {
    let w = world();
    for _ in 0..n { w.ints.borrow_mut().push(rt::i32_()); }
    w
}
pub fn world_d(n: usize) -> Rc<World> {
    let w = world();
    for _ in 0..n { w.dbls.borrow_mut().push(rt::f64_()); }
    w
}

/// Asserts that the outputs are exactly `want`, in order.
pub fn expect_outs(w: &World, want: &[V], label: &str) {
    let outs = w.outs.borrow();
    for (i, o) in outs.iter().enumerate() {
        match o { V::I(x) => rt::observe("out", *x as u32 as u64), V::B(b) => rt::observe("out", *b as u64), V::S(s) => rt::observe_str("out", s), _ => () }
        if i >= want.len() { rt::fail(label); }
        rt::check(o.same(&want[i]), label);
    }
    rt::check(outs.len() == want.len(), label);
}

//! The symbolic executor: states, memory, instruction semantics.

use crate::expr::*;
use crate::ir::*;
use crate::solver::{Res, Smt};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), S(E), A(Rc<Vec<Val>>) }

pub fn fe(e: E) -> Val {
    let a = ar();
    if a.w(e) <= 64 { if let Some(c) = a.cv(e) { return Val::C(c as u64); } }
    Val::S(e)
}
pub fn te(v: &Val, w: u16) -> E {
    match v { Val::C(c) => ar().constant(*c as u128, w), Val::S(e) => { debug_assert_eq!(ar().w(*e), w); *e } Val::A(_) => panic!("aggregate as scalar") }
}
impl Val {
    #[inline]
    pub fn c(&self) -> Option<u64> { if let Val::C(c) = self { Some(*c) } else { None } }
}

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<Vec<(E, u8)>>>, pub ro: bool, pub heap: bool }
type Chunk = [Option<Rc<Obj>>; 64];
const NONE_OBJ: Option<Rc<Obj>> = None;
const EMPTY: Chunk = [NONE_OBJ; 64];

#[derive(Clone)]
pub struct Mem { chunks: Vec<Option<Rc<Chunk>>>, pub next: u32 }

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, block: u32, ip: u32, regs: Vec<Val>, allocas: Vec<u32>, dst: Option<u32>, normal: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub fr: Frame,
    stack: Vec<Rc<Frame>>,
    /// The other thread of the program, if there is one; they take turns.
    other: Option<Box<(Frame, Vec<Rc<Frame>>)>>,
    turn: bool,
    second: bool,
    tls: Rc<HashMap<u32, u64, Fx>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    /// Every decision taken on the way here, in order.
    pub path: Vec<E>,
    dom: Rc<HashMap<u32, [u64; 4], Fx>>,
    multi: Rc<std::collections::HashSet<u32, Fx>>,
    pub model: Rc<Model>,
    pub inputs: Vec<E>,
    pub obs: Vec<(Rc<str>, Val, u16)>,
    steps: u64,
    clock: u64,
    label: Rc<str>,
    forks: u32,
    /// Values whose decimal text was taken from the model (see `pin_float`).
    pins: Vec<E>,
}

pub enum Stop { Done, Infeasible, Viol(&'static str, String), Incomplete(String) }
type R<T> = Result<T, Stop>;

pub struct Violation { pub loose: bool, pub kind: String, pub msg: String, pub label: String, pub stack: Vec<String>, pub inputs: Vec<(u16, u128)>, pub obs: Vec<String> }

#[derive(Default)]
pub struct Cov { pub decisions: u64, pub decisions_covered: u64, pub pinned: u64, pub paths: u64, pub assumed_away: u64, pub checks: u64, pub checks_const: u64, pub discharged: u64, pub forks: u64, pub insts: u64, pub covers: std::collections::BTreeMap<String, u64>, pub incomplete: std::collections::BTreeMap<String, u64> }

pub struct Engine {
    pub m: Module,
    pub smt: Smt,
    pub work: Vec<State>,
    gcache: Vec<Option<Rc<Obj>>>,
    nat: Vec<Option<u16>>,
    pub viol: Vec<Violation>,
    pub cov: Cov,
    pub samples: Vec<(Vec<(u16, u128)>, Vec<String>, String)>,
    pub executed: Vec<bool>,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub max_viol: usize,
    pub rng: u64,
    pub nsamples: usize,
    pub verbose: bool,
    pub prof: Option<Vec<u64>>,
    pub forkprof: HashMap<String, u64>,
    pub viol_keys: std::collections::HashSet<String>,
    /// Concrete values for the first inputs, when replaying inside the executor.
    pub fixed: Vec<u128>,
    tree: Tree,
    assumed: std::collections::HashSet<E, Fx>,
    choice_vars: Vec<Option<E>>,
}

include!("natives.rs");

impl Engine {
    pub fn new(m: Module, smt: Smt) -> Engine {
        let n = m.globals.len();
        Engine { m, smt, work: vec![], gcache: vec![None; n], nat: vec![None; n], viol: vec![], cov: Cov::default(), samples: vec![], executed: vec![false; n], max_steps: 30_000_000, deadline: std::time::Instant::now(), max_viol: 1, rng: 88172645463325252, nsamples: 12, verbose: false, prof: None, forkprof: HashMap::new(), viol_keys: Default::default(), fixed: vec![], tree: Tree::default(), assumed: Default::default(), choice_vars: vec![] }
    }

    fn resolve_alias(&self, g: u32) -> u32 { self.m.alias_target(g).map(|t| self.resolve_alias(t)).unwrap_or(g) }

    // ---------------------------------------------------------------- constants
    fn const_addr(&self, c: &Const) -> u64 {
        match c {
            Const::Int(v) => *v as u64,
            Const::Zero => 0,
            Const::Global(g) => (self.resolve_alias(*g) as u64) << 32,
            Const::Add(b, o) => self.const_addr(b).wrapping_add(*o as u64),
            Const::SubC(a, b) => self.const_addr(a).wrapping_sub(self.const_addr(b)),
            Const::Trunc(a, w) => self.const_addr(a) & mask64(*w),
            c => panic!("const_addr {:?}", c),
        }
    }
    fn const_val(&self, t: &Ty, c: &Const) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => match c { Const::Int(v) => Val::S(ar().constant(*v, *w)), Const::Zero => Val::S(ar().constant(0, *w)), c => Val::S(ar().constant(self.const_addr(c) as u128, *w)) },
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => Val::C(self.const_addr(c)),
            Ty::Arr(n, et) | Ty::Vec(n, et) => match c {
                Const::Zero => Val::A(Rc::new((0..*n).map(|_| self.const_val(et, &Const::Zero)).collect())),
                Const::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| self.const_val(t, c)).collect())),
                Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
                c => panic!("const {:?}", c),
            },
            Ty::Struct(_, f) => match c {
                Const::Zero => Val::A(Rc::new(f.iter().map(|t| self.const_val(t, &Const::Zero)).collect())),
                Const::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| self.const_val(t, c)).collect())),
                c => panic!("const {:?}", c),
            },
            _ => Val::C(0),
        }
    }
    fn const_bytes(&self, out: &mut [u8], t: &Ty, c: &Const) {
        match (t, c) {
            (_, Const::Zero) => (),
            (_, Const::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (Ty::Int(w), Const::Int(v)) => { let n = ((*w + 7) / 8) as usize; out[..n].copy_from_slice(&v.to_le_bytes()[..n]); }
            (t, Const::Agg(v)) => for (i, (et, ec)) in v.iter().enumerate() { let (o, _) = t.field(i as u64); let s = et.size(); self.const_bytes(&mut out[o as usize..(o + s) as usize], et, ec); },
            (t, c) => { let n = t.store() as usize; out[..n].copy_from_slice(&self.const_addr(c).to_le_bytes()[..n]); }
        }
    }
    fn global_obj(&mut self, g: u32) -> Option<Rc<Obj>> {
        if let Some(o) = &self.gcache[g as usize] { return Some(o.clone()); }
        let constant = match &self.m.globals[g as usize].1 { GKind::Var { constant, .. } => *constant, _ => return None };
        if g == 0 { return None; }
        let (t, c) = self.m.global_init(g);
        let size = if c.is_none() { t.size().max(64) } else { t.size() };
        let mut data = vec![0u8; size as usize];
        if let Some(c) = &c { self.const_bytes(&mut data, &t, c); }
        let o = Rc::new(Obj { data, sym: None, ro: constant, heap: false });
        self.gcache[g as usize] = Some(o.clone());
        Some(o)
    }

    // ---------------------------------------------------------------- memory
    fn new_obj(&self, st: &mut State, size: u64, heap: bool) -> u64 {
        let id = st.mem.next;
        st.mem.next += 1;
        let ch = (id >> 6) as usize;
        while st.mem.chunks.len() <= ch { st.mem.chunks.push(None); }
        let c = st.mem.chunks[ch].get_or_insert_with(|| Rc::new(EMPTY));
        Rc::make_mut(c)[(id & 63) as usize] = Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false, heap }));
        (id as u64) << 32
    }
    fn kill_obj(&self, st: &mut State, id: u32) {
        let ch = (id >> 6) as usize;
        if let Some(c) = &mut st.mem.chunks[ch] {
            let c = Rc::make_mut(c);
            c[(id & 63) as usize] = None;
            if st.mem.next >> 6 != ch as u32 && c.iter().all(|o| o.is_none()) { st.mem.chunks[ch] = None; }
        }
    }
    #[inline]
    fn obj<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<&'a Obj> {
        let id = (addr >> 32) as u32;
        let ch = (id >> 6) as usize;
        let have = matches!(st.mem.chunks.get(ch), Some(Some(c)) if c[(id & 63) as usize].is_some());
        if !have { self.bring(st, id, addr)?; }
        let o = st.mem.chunks[ch].as_ref().unwrap()[(id & 63) as usize].as_ref().unwrap();
        if (addr & 0xffff_ffff) + n > o.data.len() as u64 { return Err(Stop::Viol("oob", format!("out-of-bounds read of {} bytes at offset {} of a {}-byte object", n, addr as u32 as i32, o.data.len()))); }
        Ok(o)
    }
    fn bring(&mut self, st: &mut State, id: u32, addr: u64) -> R<()> {
        if (id as usize) < self.m.globals.len() && id != 0 {
            if let Some(o) = self.global_obj(id) {
                let ch = (id >> 6) as usize;
                while st.mem.chunks.len() <= ch { st.mem.chunks.push(None); }
                let c = st.mem.chunks[ch].get_or_insert_with(|| Rc::new(EMPTY));
                Rc::make_mut(c)[(id & 63) as usize] = Some(o);
                return Ok(());
            }
        }
        Err(Stop::Viol("ptr", format!("access through an invalid or dangling pointer {:#x}", addr)))
    }
    #[inline]
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<&'a mut Obj> {
        let id = (addr >> 32) as u32;
        let ch = (id >> 6) as usize;
        let have = matches!(st.mem.chunks.get(ch), Some(Some(c)) if c[(id & 63) as usize].is_some());
        if !have { self.bring(st, id, addr)?; }
        let c = st.mem.chunks[ch].as_mut().unwrap();
        let o = Rc::make_mut(Rc::make_mut(c)[(id & 63) as usize].as_mut().unwrap());
        if o.ro { return Err(Stop::Viol("ptr", "write to read-only memory".into())); }
        if (addr & 0xffff_ffff) + n > o.data.len() as u64 { return Err(Stop::Viol("oob", format!("out-of-bounds write of {} bytes at offset {} of a {}-byte object", n, addr as u32 as i32, o.data.len()))); }
        Ok(o)
    }
    fn load_bits(o: &Obj, off: usize, n: usize) -> Val {
        if let Some(s) = &o.sym {
            let s = &s[off..off + n];
            if s.iter().any(|x| x.0 != 0) {
                let a = ar();
                let (e0, i0) = s[0];
                if e0 != 0 && i0 == 0 && a.w(e0) as usize == n * 8 && s.iter().enumerate().all(|(i, x)| x.0 == e0 && x.1 as usize == i) { return Val::S(e0); }
                let mut acc: Option<E> = None;
                let mut i = 0;
                while i < n {
                    let (e, k) = s[i];
                    let mut j = i + 1;
                    let part = if e == 0 {
                        while j < n && s[j].0 == 0 && j - i < 16 { j += 1; }
                        let mut v = 0u128;
                        for q in (i..j).rev() { v = (v << 8) | o.data[off + q] as u128; }
                        a.constant(v, ((j - i) * 8) as u16)
                    } else {
                        while j < n && s[j].0 == e && s[j].1 as usize == k as usize + (j - i) { j += 1; }
                        a.extract(e, k as u16 * 8, ((j - i) * 8) as u16)
                    };
                    acc = Some(match acc { None => part, Some(x) => a.concat(part, x) });
                    i = j;
                }
                return fe(acc.unwrap());
            }
        }
        let d = &o.data[off..off + n];
        match n {
            8 => Val::C(u64::from_le_bytes(d.try_into().unwrap())),
            4 => Val::C(u32::from_le_bytes(d.try_into().unwrap()) as u64),
            1 => Val::C(d[0] as u64),
            2 => Val::C(u16::from_le_bytes(d.try_into().unwrap()) as u64),
            _ => {
                let mut v = 0u128;
                for x in d.iter().rev() { v = (v << 8) | *x as u128; }
                if n > 8 { Val::S(ar().constant(v, (n * 8) as u16)) } else { Val::C(v as u64) }
            }
        }
    }
    fn store_bits(o: &mut Obj, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(c) => {
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = (0, 0); } }
            }
            Val::S(e) => {
                let a = ar();
                if let Some(c) = a.cv(*e) {
                    o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = (0, 0); } }
                    return;
                }
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| Box::new(vec![(0, 0); len]));
                for i in 0..n { s[off + i] = (*e, i as u8); }
            }
            Val::A(_) => panic!("store agg"),
        }
    }
    pub fn load_n(&mut self, st: &mut State, addr: u64, n: usize) -> R<Val> {
        let o = self.obj(st, addr, n as u64)?;
        Ok(Self::load_bits(o, (addr & 0xffff_ffff) as usize, n))
    }
    pub fn store_n(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        let o = self.obj_mut(st, addr, n as u64)?;
        Self::store_bits(o, (addr & 0xffff_ffff) as usize, n, v);
        Ok(())
    }
    fn load_ty(&mut self, st: &mut State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                let v = self.load_n(st, addr, n)?;
                if *w as usize == n * 8 { return Ok(v); }
                Ok(match v { Val::C(c) => Val::C(c & mask64(*w)), Val::S(e) => fe(ar().extract(e, 0, *w)), v => v })
            }
            Ty::F32 => self.load_n(st, addr, 4),
            Ty::F64 | Ty::Ptr => self.load_n(st, addr, 8),
            Ty::Arr(n, et) | Ty::Vec(n, et) => { let s = et.size(); let mut v = vec![]; for i in 0..*n { v.push(self.load_ty(st, addr + i * s, et)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Struct(_, f) => { let mut v = vec![]; for i in 0..f.len() { let (o, ft) = t.field(i as u64); v.push(self.load_ty(st, addr + o, &ft)?); } Ok(Val::A(Rc::new(v))) }
            _ => panic!("load {:?}", t),
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                if *w as usize == n * 8 { return self.store_n(st, addr, n, v); }
                let v = match v { Val::S(e) => fe(ar().zext(*e, (n * 8) as u16)), v => v.clone() };
                self.store_n(st, addr, n, &v)
            }
            Ty::F32 => self.store_n(st, addr, 4, v),
            Ty::F64 | Ty::Ptr => self.store_n(st, addr, 8, v),
            Ty::Vec(_, et) if !matches!(**et, Ty::Int(w) if w % 8 != 0) => { let s = et.size(); if let Val::A(x) = v { for (i, y) in x.iter().enumerate() { self.store_ty(st, addr + i as u64 * s, et, y)?; } } Ok(()) }
            Ty::Arr(_, et) => { let s = et.size(); if let Val::A(x) = v { for (i, y) in x.iter().enumerate() { self.store_ty(st, addr + i as u64 * s, et, y)?; } } Ok(()) }
            Ty::Struct(..) => { if let Val::A(x) = v { for (i, y) in x.iter().enumerate() { let (o, ft) = t.field(i as u64); self.store_ty(st, addr + o, &ft, y)?; } } Ok(()) }
            _ => panic!("store {:?}", t),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let so = self.obj(st, s, n)?;
        let o = (s & 0xffff_ffff) as usize;
        let n = n as usize;
        let data = so.data[o..o + n].to_vec();
        let sym = so.sym.as_ref().and_then(|x| { let x = &x[o..o + n]; if x.iter().any(|y| y.0 != 0) { Some(x.to_vec()) } else { None } });
        let dobj = self.obj_mut(st, d, n as u64)?;
        let p = (d & 0xffff_ffff) as usize;
        dobj.data[p..p + n].copy_from_slice(&data);
        match sym {
            Some(sv) => { let len = dobj.data.len(); let x = dobj.sym.get_or_insert_with(|| Box::new(vec![(0, 0); len])); x[p..p + n].copy_from_slice(&sv); }
            None => if let Some(x) = &mut dobj.sym { for y in &mut x[p..p + n] { *y = (0, 0); } },
        }
        Ok(())
    }
    pub fn read_str(&mut self, st: &mut State, addr: u64, n: u64) -> R<String> {
        let o = self.obj(st, addr, n)?;
        let p = (addr & 0xffff_ffff) as usize;
        Ok(String::from_utf8_lossy(&o.data[p..p + n as usize]).to_string())
    }

    // ---------------------------------------------------------------- path conditions
    fn add(&mut self, st: &mut State, c: E) {
        let a = ar();
        if a.cv(c).is_some() { return; }
        let n = a.n(c);
        if n.op == Op::And { self.add(st, n.a); self.add(st, n.b); return; }
        if st.pc.contains(&c) { return; }
        st.pc.push(c);
        if let Some((v, t)) = a.table(c) {
            let d = Rc::make_mut(&mut st.dom).entry(v).or_insert([u64::MAX; 4]);
            for i in 0..4 { d[i] &= t[i]; }
        } else {
            let s = a.support(c);
            if !s.iter().all(|v| st.multi.contains(v)) { let m = Rc::make_mut(&mut st.multi); for v in s.iter() { m.insert(*v); } }
        }
    }
    /// Sat(model) gives a full model for the state plus `c`; None on unknown.
    fn sat_with(&mut self, st: &State, c: E) -> Option<Option<Rc<Model>>> {
        let a = ar();
        if let Some(v) = a.cv(c) { return Some(if v != 0 { Some(st.model.clone()) } else { None }); }
        if let Some((v, t)) = a.table(c) {
            let d = st.dom.get(&v).copied().unwrap_or_else(|| { let w = a.var_width[v as usize]; let mut d = [0; 4]; for x in 0..(1usize << w) { d[x >> 6] |= 1 << (x & 63); } d });
            let mut r = [0; 4];
            for i in 0..4 { r[i] = d[i] & t[i]; }
            self.smt.st.table += 1;
            if r == [0; 4] { return Some(None); }
            if !st.multi.contains(&v) {
                let cur = st.model.get(&v).copied().unwrap_or(0) as usize;
                if r[cur >> 6] >> (cur & 63) & 1 == 1 { return Some(Some(st.model.clone())); }
                let mut pick = None;
                for x in (0x20..0x7f).chain(0..256) { if r[x >> 6] >> (x & 63) & 1 == 1 { pick = Some(x); break; } }
                let mut m = (*st.model).clone();
                m.insert(v, pick.unwrap() as u128);
                return Some(Some(Rc::new(m)));
            }
        }
        if a.eval(c, &st.model) != 0 { return Some(Some(st.model.clone())); }
        if st.pc.contains(&a.not(c)) { return Some(None); }
        match self.smt.check(&st.pc, c) {
            Res::Unsat => Some(None),
            Res::Unknown => { if std::env::var_os("SYMEX_DEBUG").is_some() { eprintln!("unknown in {} <- {}", st.fr.f.name, st.stack.iter().rev().take(5).map(|f| f.f.name.as_str()).collect::<Vec<_>>().join(" <- ")); } *self.cov.incomplete.entry("solver gave no answer".into()).or_default() += 1; None }
            Res::Sat(m) => { let mut x = (*st.model).clone(); for (k, v) in m { x.insert(k, v); }
                // Guard the invariant that a state's model satisfies its path condition.
                if a.eval(c, &x) == 0 || !st.pc.iter().all(|p| a.eval(*p, &x) != 0) { *self.cov.incomplete.entry("solver model does not validate".into()).or_default() += 1; return None; }
                Some(Some(Rc::new(x))) }
        }
    }
    fn note_fork(&mut self, st: &State) {
        self.cov.forks += 1;
        if self.prof.is_some() { let k = format!("{} <- {}", st.fr.f.name, st.stack.iter().rev().take(3).map(|f| f.f.name.as_str()).collect::<Vec<_>>().join(" <- ")); *self.forkprof.entry(k).or_default() += 1; }
    }
    /// Decide a 1-bit condition, forking when both outcomes are possible.  The state pushed
    /// for the other outcome re-executes the current instruction.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        let a = ar();
        if let Some(v) = a.cv(c) { return Ok(v != 0); }
        let side = a.eval(c, &st.model) != 0;
        let (yes, no) = if side { (c, a.not(c)) } else { (a.not(c), c) };
        match self.sat_with(st, no) {
            Some(Some(m)) => {
                self.note_fork(st);
                let mut o = st.clone();
                o.model = m;
                o.forks += 1;
                self.add(&mut o, no);
                o.path.push(no);
                self.work.push(o);
                self.add(st, yes);
                st.path.push(yes);
            }
            // Undecided: only the side the model takes is explored, and the gap is reported.
            None => self.add(st, yes),
            Some(None) => (),
        }
        Ok(side)
    }
    pub fn conc(&mut self, st: &mut State, v: &Val, w: u16) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                let a = ar();
                let x = a.eval(*e, &st.model);
                let k = a.constant(x, w);
                let c = a.eq(*e, k);
                let b = self.branch(st, c)?;
                debug_assert!(b);
                Ok(x as u64)
            }
            Val::A(_) => panic!("conc agg"),
        }
    }

    // symbolic address handling: returns the candidate concrete addresses with conditions,
    // or a single one.
    fn sym_addr(&mut self, st: &mut State, e: E, n: u64, store: bool) -> R<Vec<(u64, E)>> {
        let a = ar();
        let a0 = a.eval(e, &st.model) as u64;
        let base = a0 >> 32 << 32;
        let size = match self.obj(st, a0, n) { Ok(o) => o.data.len() as u64, Err(x) => {
            // The model's own address is invalid: pin it and report.
            let k = a.constant(a0 as u128, 64); let c = a.eq(e, k); self.add(st, c); return Err(x);
        } };
        let kb = a.constant((base as u128).wrapping_neg(), 64);
        let off = a.bin(Op::Add, e, kb);
        let lim = a.constant((size - n + 1) as u128, 64);
        let inb = a.ult(off, lim);
        let ok = self.branch(st, inb)?;
        debug_assert!(ok);
        let tz = trailing_zeros(off, 0).min(4);
        let r = a.range(off);
        let lo = (r.0.min(size as u128)) as u64;
        let hi = (r.1.min((size - n) as u128)) as u64;
        let stride = 1u64 << tz;
        let cnt = if hi >= lo { (hi - lo) / stride + 1 } else { 0 };
        let max = if store { 64 } else { 600 };
        if cnt == 0 || cnt > max || (store && stride < n) {
            let x = self.conc(st, &Val::S(e), 64)?;
            let t = a.tt();
            return Ok(vec![(x, t)]);
        }
        let mut v = vec![];
        let mut o = (lo + stride - 1) / stride * stride;
        while o <= hi {
            let k = a.constant(o as u128, 64);
            let c = a.eq(off, k);
            if a.cv(c) != Some(0) { v.push((base + o, c)); }
            o += stride;
        }
        Ok(v)
    }

    // ---------------------------------------------------------------- operands
    #[inline]
    fn val(&self, st: &State, o: &Opd) -> Val {
        match o { Opd::Reg(r) => st.fr.regs[*r as usize].clone(), Opd::C(c) => Val::C(*c), Opd::K(k) => self.const_val(&k.0, &k.1) }
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: Val) { st.fr.regs[d as usize] = v; }

    fn bin1(op: Op, w: u16, x: &Val, y: &Val) -> Val {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            if w <= 64 {
                let (a, b) = (*a, *b);
                let m = mask64(w);
                return Val::C(match op {
                    Op::Add => a.wrapping_add(b) & m,
                    Op::Sub => a.wrapping_sub(b) & m,
                    Op::Mul => a.wrapping_mul(b) & m,
                    Op::And => a & b,
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
                    Op::LShr => if b >= w as u64 { 0 } else { a >> b },
                    _ => fold(op, w, w, a as u128, b as u128, 0, 0) as u64,
                });
            }
        }
        if let (Val::A(p), Val::A(q)) = (x, y) { return Val::A(Rc::new(p.iter().zip(q.iter()).map(|(a, b)| Self::bin1(op, w, a, b)).collect())); }
        fe(ar().bin(op, te(x, w), te(y, w)))
    }
    fn icmp1(p: Pred, w: u16, x: &Val, y: &Val) -> Val {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let s = |v: u64| -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } };
            return Val::C(match p {
                Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
                Pred::Sgt => s(a) > s(b), Pred::Sge => s(a) >= s(b), Pred::Slt => s(a) < s(b), Pred::Sle => s(a) <= s(b),
            } as u64);
        }
        if let (Val::A(p1), Val::A(q)) = (x, y) { return Val::A(Rc::new(p1.iter().zip(q.iter()).map(|(a, b)| Self::icmp1(p, w, a, b)).collect())); }
        let a = ar();
        let (x, y) = (te(x, w), te(y, w));
        fe(match p {
            Pred::Eq => a.eq(x, y), Pred::Ne => { let t = a.eq(x, y); a.not(t) }
            Pred::Ugt => a.ult(y, x), Pred::Uge => a.ule(y, x), Pred::Ult => a.ult(x, y), Pred::Ule => a.ule(x, y),
            Pred::Sgt => a.slt(y, x), Pred::Sge => a.sle(y, x), Pred::Slt => a.slt(x, y), Pred::Sle => a.sle(x, y),
        })
    }
    fn fcmp1(p: FPred, w: u16, x: &Val, y: &Val) -> Val {
        let a = ar();
        let (x, y) = (te(x, w), te(y, w));
        let mut nan = || { let p = a.fun(Op::FIsNan, x, 1); let q = a.fun(Op::FIsNan, y, 1); a.or(p, q) };
        fe(match p {
            FPred::False => a.ff(), FPred::True => a.tt(),
            FPred::Oeq => a.fcmp(Op::FEq, x, y),
            FPred::Une => { let t = a.fcmp(Op::FEq, x, y); a.not(t) }
            FPred::Olt => a.fcmp(Op::FLt, x, y), FPred::Ogt => a.fcmp(Op::FLt, y, x),
            FPred::Ole => a.fcmp(Op::FLe, x, y), FPred::Oge => a.fcmp(Op::FLe, y, x),
            FPred::Uno => nan(), FPred::Ord => { let t = nan(); a.not(t) }
            FPred::Ueq => { let n = nan(); let t = a.fcmp(Op::FEq, x, y); a.or(n, t) }
            FPred::One => { let n = nan(); let t = a.fcmp(Op::FEq, x, y); let t = a.or(n, t); a.not(t) }
            FPred::Ult => { let t = a.fcmp(Op::FLe, y, x); a.not(t) }
            FPred::Ule => { let t = a.fcmp(Op::FLt, y, x); a.not(t) }
            FPred::Ugt => { let t = a.fcmp(Op::FLe, x, y); a.not(t) }
            FPred::Uge => { let t = a.fcmp(Op::FLt, x, y); a.not(t) }
        })
    }
    fn cast1(k: CastK, fw: u16, tw: u16, x: &Val) -> Val {
        if let Val::A(p) = x { return Val::A(Rc::new(p.iter().map(|a| Self::cast1(k, fw, tw, a)).collect())); }
        if let Val::C(c) = x {
            if tw <= 64 {
                match k {
                    CastK::Trunc => return Val::C(c & mask64(tw)),
                    CastK::ZExt | CastK::Bit => return Val::C(*c),
                    CastK::SExt => return Val::C((sx(*c as u128, fw) as u64) & mask64(tw)),
                    _ => (),
                }
            }
        }
        let a = ar();
        let e = te(x, fw);
        fe(match k {
            CastK::Trunc => a.extract(e, 0, tw),
            CastK::ZExt => a.zext(e, tw),
            CastK::SExt => a.sext(e, tw),
            CastK::Bit => e,
            CastK::FpToSI => a.fun(Op::FpToSI, e, tw),
            CastK::FpToUI => a.fun(Op::FpToUI, e, tw),
            CastK::SIToFp => a.fun(Op::SIToFp, e, tw),
            CastK::UIToFp => a.fun(Op::UIToFp, e, tw),
            CastK::FpExt => a.fun(Op::FpExt, e, tw),
            CastK::FpTrunc => a.fun(Op::FpTrunc, e, tw),
        })
    }
    fn elem(t: &Ty) -> u16 { match t { Ty::Vec(_, e) => e.width(), t => t.width() } }
    fn bits_of(v: &Val, t: &Ty) -> E {
        match (v, t) {
            (Val::A(p), Ty::Vec(_, et)) => { let w = et.width(); let mut acc: Option<E> = None; for x in p.iter() { let e = te(x, w); acc = Some(match acc { None => e, Some(y) => ar().concat(e, y) }); } acc.unwrap() }
            _ => te(v, t.width()),
        }
    }
    fn from_bits(e: E, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) => { let w = et.width(); Val::A(Rc::new((0..*n).map(|i| fe(ar().extract(e, i as u16 * w, w))).collect())) }
            _ => fe(e),
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) {
        let prev = st.fr.block;
        let f = st.fr.f;
        st.fr.block = b;
        st.fr.ip = 0;
        let ph = &f.blocks[b as usize].phis;
        if ph.is_empty() { return; }
        if ph.len() == 1 {
            let v = self.val(st, &ph[0].inc.iter().find(|x| x.0 == prev).unwrap().1);
            Self::set(st, ph[0].dst, v);
            return;
        }
        let vals: Vec<Val> = ph.iter().map(|p| self.val(st, &p.inc.iter().find(|x| x.0 == prev).unwrap().1)).collect();
        for (p, v) in ph.iter().zip(vals) { Self::set(st, p.dst, v); }
    }

    pub fn call_fn(&mut self, st: &mut State, f: &'static Func, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        if st.stack.len() > 3000 { return Err(Stop::Viol("stack", "call depth exceeds 3000 frames".into())); }
        self.executed[f.gid as usize] = true;
        let mut regs = args;
        regs.resize(f.nregs, Val::C(0));
        let nf = Frame { f, block: 0, ip: 0, regs, allocas: vec![], dst, normal };
        let old = std::mem::replace(&mut st.fr, nf);
        st.stack.push(Rc::new(old));
        Ok(())
    }
    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) {
        if let (Some(d), Some(v)) = (dst, v) { Self::set(st, d, v); }
        match normal { Some(b) => self.goto(st, b), None => st.fr.ip += 1 }
    }

    /// Execute one instruction of the state.
    fn step(&mut self, st: &mut State) -> R<()> {
        let f = st.fr.f;
        let inst = &f.blocks[st.fr.block as usize].insts[st.fr.ip as usize];
        match inst {
            Inst::Bin(op, t, d, a, b) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let w = Self::elem(t);
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    // Rust checks before dividing, so a zero divisor here is undefined behaviour.
                    let chk = |v: &Val| -> bool { matches!(v, Val::C(0)) };
                    if chk(&y) { return Err(Stop::Viol("ub", "division by zero".into())); }
                }
                let v = Self::bin1(*op, w, &x, &y);
                Self::set(st, *d, v);
            }
            Inst::ICmp(p, t, d, a, b) => { let (x, y) = (self.val(st, a), self.val(st, b)); let v = Self::icmp1(*p, Self::elem(t), &x, &y); Self::set(st, *d, v); }
            Inst::Gep(d, base, off, idx) => {
                let b = self.val(st, base);
                if let Val::C(b) = b {
                    let mut r = b.wrapping_add(*off as u64);
                    let mut ok = true;
                    for (o, w, s) in idx { match self.val(st, o) { Val::C(c) => r = r.wrapping_add((sx(c as u128, *w) as i64).wrapping_mul(*s) as u64), _ => { ok = false; break; } } }
                    if ok { Self::set(st, *d, Val::C(r)); st.fr.ip += 1; return Ok(()); }
                }
                let a = ar();
                let k = a.constant(*off as u64 as u128, 64);
                let mut e = a.bin(Op::Add, te(&b, 64), k);
                for (o, w, s) in idx {
                    let v = self.val(st, o);
                    let x = te(&v, *w);
                    let x = if *w < 64 { a.sext(x, 64) } else { a.extract(x, 0, 64) };
                    let k = a.constant(*s as u64 as u128, 64);
                    let x = a.bin(Op::Mul, x, k);
                    e = a.bin(Op::Add, e, x);
                }
                Self::set(st, *d, fe(e));
            }
            Inst::Load(t, d, p) => {
                let v = match self.val(st, p) {
                    Val::C(addr) => self.load_ty(st, addr, t)?,
                    Val::S(e) => {
                        let c = self.sym_addr(st, e, t.store(), false)?;
                        if c.len() == 1 { self.load_ty(st, c[0].0, t)? } else {
                            if !t.is_scalar() { let x = self.conc(st, &Val::S(e), 64)?; self.load_ty(st, x, t)? } else {
                                let w = t.width();
                                let mut acc: Option<E> = None;
                                for (addr, cond) in c.iter().rev() {
                                    let v = self.load_ty(st, *addr, t)?;
                                    let v = te(&v, w);
                                    acc = Some(match acc { None => v, Some(x) => ar().ite(*cond, v, x) });
                                }
                                fe(acc.unwrap())
                            }
                        }
                    }
                    _ => panic!(),
                };
                Self::set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let x = self.val(st, v);
                match self.val(st, p) {
                    Val::C(addr) => self.store_ty(st, addr, t, &x)?,
                    Val::S(e) => {
                        let c = self.sym_addr(st, e, t.store(), true)?;
                        if c.len() == 1 { self.store_ty(st, c[0].0, t, &x)?; } else if !t.is_scalar() { let a = self.conc(st, &Val::S(e), 64)?; self.store_ty(st, a, t, &x)?; } else {
                            let w = t.width();
                            let nv = te(&x, w);
                            for (addr, cond) in c {
                                let old = self.load_ty(st, addr, t)?;
                                let r = ar().ite(cond, nv, te(&old, w));
                                self.store_ty(st, addr, t, &fe(r))?;
                            }
                        }
                    }
                    _ => panic!(),
                }
            }
            Inst::Br(b) => { self.goto(st, *b); return Ok(()); }
            Inst::CondBr(c, a, b) => {
                let t = match self.val(st, c) { Val::C(c) => c != 0, Val::S(e) => self.branch(st, e)?, _ => panic!() };
                self.goto(st, if t { *a } else { *b });
                return Ok(());
            }
            Inst::Switch(w, v, d, cases) => {
                let x = self.val(st, v);
                let b = match x {
                    Val::C(c) => cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*d),
                    Val::S(e) => {
                        let a = ar();
                        let cur = a.eval(e, &st.model) as u64;
                        // Group by target block: one fork per distinct successor.
                        let target = cases.iter().find(|k| k.0 == cur).map(|k| k.1).unwrap_or(*d);
                        let mut cond = if target == *d { a.tt() } else { a.ff() };
                        for (k, b) in cases {
                            let kk = a.constant(*k as u128, *w);
                            let q = a.eq(e, kk);
                            if target == *d { if *b != target { let nq = a.not(q); cond = a.and(cond, nq); } }
                            else if *b == target { cond = a.or(cond, q); }
                        }
                        let ok = self.branch(st, cond)?;
                        debug_assert!(ok);
                        target
                    }
                    _ => panic!(),
                };
                self.goto(st, b);
                return Ok(());
            }
            Inst::Select(ct, t, d, c, a, b) => {
                let cv = self.val(st, c);
                let (x, y) = (self.val(st, a), self.val(st, b));
                let v = match cv {
                    Val::C(c) => if c != 0 { x } else { y },
                    Val::S(e) => {
                        match (&x, &y) {
                            (Val::A(_), _) | (_, Val::A(_)) => if self.branch(st, e)? { x } else { y },
                            _ => { let w = t.width();
                                // Selecting between two distinct objects: fork instead of making a symbolic base pointer.
                                if *t == Ty::Ptr && is_split_ptr(&x, &y) { if self.branch(st, e)? { x } else { y } }
                                else { fe(ar().ite(e, te(&x, w), te(&y, w))) } }
                        }
                    }
                    Val::A(cs) => {
                        let _ = ct;
                        let (p, q) = match (&x, &y) { (Val::A(p), Val::A(q)) => (p, q), _ => panic!() };
                        let w = Self::elem(t);
                        Val::A(Rc::new(cs.iter().enumerate().map(|(i, c)| match c { Val::C(c) => if *c != 0 { p[i].clone() } else { q[i].clone() }, Val::S(e) => fe(ar().ite(*e, te(&p[i], w), te(&q[i], w))), _ => panic!() }).collect()))
                    }
                };
                Self::set(st, *d, v);
            }
            Inst::Cast(k, t, t2, d, a) => {
                let x = self.val(st, a);
                let v = match (t, t2) {
                    (Ty::Vec(..), _) | (_, Ty::Vec(..)) if *k == CastK::Bit => {
                        let e = Self::bits_of(&x, t);
                        Self::from_bits(e, t2)
                    }
                    _ => Self::cast1(*k, Self::elem(t), Self::elem(t2), &x),
                };
                Self::set(st, *d, v);
            }
            Inst::FBin(op, t, d, a, b) => { let w = t.width(); let (x, y) = (self.val(st, a), self.val(st, b)); let v = fe(ar().fbin(*op, te(&x, w), te(&y, w))); Self::set(st, *d, v); }
            Inst::FNeg(t, d, a) => { let w = t.width(); let x = self.val(st, a); let k = ar().constant(1u128 << (w - 1), w); let v = fe(ar().bin(Op::Xor, te(&x, w), k)); Self::set(st, *d, v); }
            Inst::FCmp(p, t, d, a, b) => { let (x, y) = (self.val(st, a), self.val(st, b)); let v = Self::fcmp1(*p, t.width(), &x, &y); Self::set(st, *d, v); }
            Inst::Alloca(d, n) => {
                let a = self.new_obj(st, *n, false);
                st.fr.allocas.push((a >> 32) as u32);
                Self::set(st, *d, Val::C(a));
            }
            Inst::Call { dst, ret, callee, args, normal } => {
                let g = match callee {
                    Callee::Asm => { self.finish_call(st, *dst, *normal, Some(Val::C(0))); return Ok(()); }
                    Callee::Direct(g) => *g,
                    Callee::Indirect(o) => {
                        let v = self.val(st, o);
                        let a = self.conc(st, &v, 64)?;
                        if a as u32 != 0 || a >> 32 >= self.m.globals.len() as u64 || a == 0 { return Err(Stop::Viol("ptr", format!("call through an invalid pointer {:#x}", a))); }
                        (a >> 32) as u32
                    }
                };
                let k = match self.nat[g as usize] { Some(k) => k, None => { let k = native_id(self.m.globals[g as usize].0);
                    // Harnesses may bring their own model of the system calls.
                    let k = if (30..=38).contains(&k) && self.m.func(self.resolve_alias(g)).is_some() { 0 } else { k };
                    self.nat[g as usize] = Some(k); k } };
                if k != 0 {
                    let r = self.native(st, k, g, args, ret)?;
                    self.finish_call(st, *dst, *normal, r);
                    if std::mem::take(&mut st.turn) {
                        st.second = !st.second;
                        let o = st.other.as_mut().unwrap();
                        std::mem::swap(&mut o.0, &mut st.fr);
                        std::mem::swap(&mut o.1, &mut st.stack);
                    }
                    return Ok(());
                }
                let g = self.resolve_alias(g);
                let pin = if self.m.globals[g as usize].0.contains("4core3fmt5float") { self.pin_float(st, args)? } else { vec![] };
                match self.m.func(g) {
                    Some(nf) => {
                        let mut av = Vec::with_capacity(nf.nregs);
                        for (_, o) in args { av.push(self.val(st, o)); }
                        for (i, v) in pin { av[i] = v; }
                        av.truncate(nf.nparams);
                        self.call_fn(st, nf, av, *dst, *normal)?;
                    }
                    None => {
                        return Err(Stop::Incomplete(format!("external function {}", self.m.globals[g as usize].0)));
                    }
                }
                return Ok(());
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|o| self.val(st, o));
                let al = std::mem::take(&mut st.fr.allocas);
                for a in al { self.kill_obj(st, a); }
                let (dst, normal) = (st.fr.dst, st.fr.normal);
                match st.stack.pop() {
                    None => return Err(Stop::Done),
                    Some(p) => { st.fr = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone()); }
                }
                self.finish_call(st, dst, normal, r);
                return Ok(());
            }
            Inst::Unreachable => return Err(Stop::Viol("ub", "reached code the compiler assumed unreachable".into())),
            Inst::Extract(d, a, ix) => { let mut v = self.val(st, a); for i in ix { v = match v { Val::A(p) => p[*i as usize].clone(), v => v }; } Self::set(st, *d, v); }
            Inst::Insert(d, _t, a, v, ix) => {
                let mut agg = self.val(st, a);
                let x = self.val(st, v);
                fn ins(a: &mut Val, ix: &[u32], x: Val) { if ix.is_empty() { *a = x; return; } if let Val::A(p) = a { ins(&mut Rc::make_mut(p)[ix[0] as usize], &ix[1..], x); } else { panic!() } }
                ins(&mut agg, ix, x);
                Self::set(st, *d, agg);
            }
            Inst::ExtElem(d, a, i) => { let v = self.val(st, a); let iv = self.val(st, i); let k = self.conc(st, &iv, 64)?; let v = match v { Val::A(p) => p[k as usize].clone(), v => v }; Self::set(st, *d, v); }
            Inst::InsElem(d, _t, a, v, i) => { let mut agg = self.val(st, a); let x = self.val(st, v); let iv = self.val(st, i); let k = self.conc(st, &iv, 64)?; if let Val::A(p) = &mut agg { Rc::make_mut(p)[k as usize] = x; } Self::set(st, *d, agg); }
            Inst::Shuffle(d, a, b, m, n1) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let (p, q) = match (&x, &y) { (Val::A(p), Val::A(q)) => (p, q), _ => panic!() };
                let v = m.iter().map(|i| if (*i as u64) < *n1 { p[*i as usize].clone() } else { q[(*i as u64 - n1) as usize].clone() }).collect();
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Inst::RmwI(o, t, d, p, v) => {
                let pv = self.val(st, p);
                let a = self.conc(st, &pv, 64)?;
                let w = t.width();
                let old = self.load_ty(st, a, t)?;
                let x = self.val(st, v);
                let n = match o {
                    Rmw::Xchg => x,
                    Rmw::Add => Self::bin1(Op::Add, w, &old, &x), Rmw::Sub => Self::bin1(Op::Sub, w, &old, &x),
                    Rmw::And => Self::bin1(Op::And, w, &old, &x), Rmw::Or => Self::bin1(Op::Or, w, &old, &x), Rmw::Xor => Self::bin1(Op::Xor, w, &old, &x),
                    _ => return Err(Stop::Incomplete("atomicrmw min/max".into())),
                };
                self.store_ty(st, a, t, &n)?;
                Self::set(st, *d, old);
            }
            Inst::CmpXchg(t, d, p, c, n) => {
                let pv = self.val(st, p);
                let a = self.conc(st, &pv, 64)?;
                let old = self.load_ty(st, a, t)?;
                let (c, n) = (self.val(st, c), self.val(st, n));
                let e = Self::icmp1(Pred::Eq, t.width(), &old, &c);
                let ok = self.conc(st, &e, 1)?;
                if ok != 0 { self.store_ty(st, a, t, &n)?; }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::C(ok)])));
            }
            Inst::Copy(d, a) => { let v = self.val(st, a); Self::set(st, *d, v); }
            Inst::Nop => (),
        }
        st.fr.ip += 1;
        Ok(())
    }

    // ---------------------------------------------------------------- driver
    pub fn start(&mut self, entry: &str, case: u32) -> Result<State, String> {
        let g = *self.m.names.get(entry).ok_or_else(|| format!("no entry point {}", entry))?;
        let f = self.m.func(g).ok_or("entry has no body")?;
        self.executed[f.gid as usize] = true;
        let mut regs = vec![Val::C(case as u64)];
        regs.truncate(f.nparams);
        regs.resize(f.nregs, Val::C(0));
        let next = (self.m.globals.len() as u32 + 64) & !63;
        Ok(State { fr: Frame { f, block: 0, ip: 0, regs, allocas: vec![], dst: None, normal: None }, stack: vec![], other: None, turn: false, second: false, tls: Default::default(), mem: Mem { chunks: vec![], next }, pc: vec![], path: vec![], dom: Default::default(), multi: Default::default(), model: Default::default(), inputs: vec![], obs: vec![], steps: 0, clock: 1_000_000, label: "".into(), forks: 0, pins: vec![] })
    }
    fn inputs_of(&self, st: &State) -> Vec<(u16, u128)> { let a = ar(); st.inputs.iter().map(|e| (a.w(*e), a.eval(*e, &st.model))).collect() }
    fn obs_of(&self, st: &State) -> Vec<String> { let a = ar(); st.obs.iter().map(|(l, v, w)| { let x = match v { Val::C(c) => *c as u128, v => a.eval(te(v, *w), &st.model) }; format!("{}={}", l, x) }).collect() }
    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![st.fr.f.name.clone()];
        for f in st.stack.iter().rev().take(14) { v.push(f.f.name.clone()); }
        v
    }
    /// A model of the path in which the values whose text was taken have that very text.
    fn firm(&mut self, st: &State, c: E) -> Option<Rc<Model>> {
        let a = ar();
        let mut x = c;
        for p in &st.pins { x = a.and(x, *p); }
        if a.eval(x, &st.model) != 0 { return Some(st.model.clone()); }
        self.sat_with(st, x).flatten()
    }
    fn record(&mut self, st: &State, kind: &str, msg: String) {
        let tr = self.trace(st);
        let key = format!("{}|{}|{}", kind, msg, tr.iter().take(3).cloned().collect::<Vec<_>>().join("|"));
        if !self.viol_keys.insert(key) { return; }
        let t = ar().constant(1, 1);
        let f = self.firm(st, t);
        let mut o = st.clone();
        let loose = match f { Some(m) => { o.model = m; false } None => true };
        let v = Violation { loose, kind: kind.into(), msg, label: st.label.to_string(), stack: tr, inputs: self.inputs_of(&o), obs: self.obs_of(&o) };
        self.viol.push(v);
    }
    /// The decimal text of an arbitrary double is outside the encoding: the path goes on with
    /// the text of one representative value, while the value itself stays symbolic. What such a
    /// path reports is "loose": preferably with that value, and otherwise only if it replays.
    fn pin_float(&mut self, st: &mut State, args: &[(Ty, Opd)]) -> R<Vec<(usize, Val)>> {
        let mut out = vec![];
        for (i, (t, o)) in args.iter().enumerate() {
            let v = self.val(st, o);
            let e = match (t, &v) {
                (Ty::F64, Val::S(e)) => *e,
                (Ty::Ptr, Val::C(p)) if i < 2 => match self.load_n(st, *p, 8) { Ok(Val::S(e)) => e, _ => continue },
                _ => continue,
            };
            if ar().cv(e).is_some() { continue; }
            let x = ar().eval(e, &st.model);
            let k = ar().constant(x, 64);
            let c = ar().eq(e, k);
            st.pins.push(c);
            self.cov.pinned += 1;
            match &v { Val::C(p) => self.store_n(st, *p, 8, &Val::C(x as u64))?, _ => out.push((i, Val::C(x as u64))) }
        }
        Ok(out)
    }
    pub fn check(&mut self, st: &mut State, c: E, label: String) -> R<()> {
        let a = ar();
        self.cov.checks += 1;
        match a.cv(c) {
            Some(0) => { return Err(Stop::Viol("check", label)); }
            Some(_) => { self.cov.checks_const += 1; return Ok(()); }
            None => (),
        }
        if self.verbose { eprintln!("CHECK {} {}", label, a.show(c, 9)); }
        let n = a.not(c);
        match self.sat_with(st, n) {
            Some(None) => { self.cov.discharged += 1; Ok(()) }
            None => { if self.verbose { eprintln!("UNDECIDED {}", a.show(c, 14)); } *self.cov.incomplete.entry(format!("undecided check: {}", label)).or_default() += 1; self.add(st, c); Ok(()) }
            Some(Some(m)) => {
                let mut o = st.clone();
                o.model = match if st.pins.is_empty() { None } else { self.firm(st, n) } { Some(f) => f, None => m };
                self.record(&o, "check", label);
                // continue with the part of the space on which the check holds
                match self.sat_with(st, c) { Some(Some(m)) => { st.model = m; self.add(st, c); Ok(()) } _ => Err(Stop::Infeasible) }
            }
        }
    }
    pub fn run(&mut self, entry: &str, case: u32) -> Result<(), String> {
        let s = self.start(entry, case)?;
        self.work.push(s);
        while let Some(mut st) = self.work.pop() {
            let mut n = 0u32;
            let stop = loop {
                match self.step(&mut st) { Ok(()) => (), Err(s) => break s }
                n += 1;
                self.cov.insts += 1;
                if let Some(p) = &mut self.prof { p[st.fr.f.gid as usize] += 1; }
                if n & 0xfff == 0 {
                    st.steps += 0x1000;
                    if st.steps > self.max_steps { break Stop::Viol("hang", format!("path exceeds {} instructions", self.max_steps)); }
                    if std::time::Instant::now() > self.deadline { break Stop::Incomplete("time budget exhausted".into()); }
                }
            };
            if !matches!(stop, Stop::Incomplete(_)) { self.tree.insert(&st.path); }
            match stop {
                Stop::Done => {
                    self.cov.paths += 1;
                    self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                    let k = self.cov.paths;
                    let slot = if self.samples.len() < self.nsamples { Some(self.samples.len()) } else { let r = (self.rng % k) as usize; if r < self.nsamples { Some(r) } else { None } };
                    let t = ar().constant(1, 1);
                    let firm = if slot.is_some() { self.firm(&st, t) } else { None };
                    if let (Some(i), Some(m)) = (slot, firm) {
                        st.model = m;
                        let i = i.min(self.samples.len());
                        let s = (self.inputs_of(&st), self.obs_of(&st), st.label.to_string());
                        if i == self.samples.len() { self.samples.push(s); } else { self.samples[i] = s; }
                    }
                }
                Stop::Infeasible => self.cov.assumed_away += 1,
                Stop::Viol(k, m) => { self.cov.paths += 1; self.record(&st, k, m); }
                Stop::Incomplete(m) => {
                    if self.verbose { eprintln!("incomplete: {} in {:?}", m, self.trace(&st)); }
                    *self.cov.incomplete.entry(m).or_default() += 1;
                }
            }
            if self.viol.len() >= self.max_viol { if !self.work.is_empty() { *self.cov.incomplete.entry("stopped at the first violation".into()).or_default() += 1; } break; }
            if std::time::Instant::now() > self.deadline { if !self.work.is_empty() { *self.cov.incomplete.entry("time budget exhausted".into()).or_default() += 1; } break; }
        }
        if self.viol.is_empty() && self.cov.incomplete.is_empty() && self.fixed.is_empty() { self.audit(); }
        Ok(())
    }
    /// Asks the solver whether any input leaves the tree of explored paths: at every decision,
    /// whether the decisions taken before it and none of its explored outcomes can hold together.
    fn audit(&mut self) {
        let tree = std::mem::take(&mut self.tree);
        let a = ar();
        let mut pre: Vec<E> = vec![];
        let mut stack: Vec<(u32, usize)> = vec![(0, 0)];
        while let Some((n, i)) = stack.pop() {
            let kids = &tree.kids[n as usize];
            if i == 0 && !kids.is_empty() && !(kids.len() == 1 && self.assumed.contains(&kids[0].0)) {
                self.cov.decisions += 1;
                let mut none = a.constant(1, 1);
                for (c, _) in kids { let x = a.not(*c); none = a.bin(Op::And, none, x); }
                let r = self.smt.check(&pre, none);
                match r {
                    Res::Unsat => self.cov.decisions_covered += 1,
                    Res::Sat(_) => *self.cov.incomplete.entry("an input is on no explored path".into()).or_default() += 1,
                    Res::Unknown => *self.cov.incomplete.entry("coverage not decided".into()).or_default() += 1,
                }
                if std::time::Instant::now() > self.deadline { *self.cov.incomplete.entry("coverage not decided".into()).or_default() += 1; return; }
            }
            if i > 0 { pre.pop(); }
            if let Some((c, k)) = kids.get(i) {
                pre.push(*c);
                stack.push((n, i + 1));
                stack.push((*k, 0));
            }
        }
    }
}

/// The decisions of all finished paths.
pub struct Tree { ids: HashMap<(u32, E), u32, Fx>, kids: Vec<Vec<(E, u32)>> }
impl Default for Tree { fn default() -> Self { Tree { ids: HashMap::default(), kids: vec![vec![]] } } }
impl Tree {
    fn insert(&mut self, path: &[E]) {
        let mut n = 0u32;
        for c in path {
            n = match self.ids.get(&(n, *c)) {
                Some(k) => *k,
                None => {
                    let k = self.kids.len() as u32;
                    self.kids.push(vec![]);
                    self.kids[n as usize].push((*c, k));
                    self.ids.insert((n, *c), k);
                    k
                }
            };
        }
    }
}

fn is_split_ptr(x: &Val, y: &Val) -> bool {
    match (x, y) { (Val::C(a), Val::C(b)) => a >> 32 != b >> 32, _ => true }
}

fn trailing_zeros(e: E, d: u32) -> u32 {
    let a = ar();
    if let Some(c) = a.cv(e) { return c.trailing_zeros(); }
    if d > 20 { return 0; }
    let n = a.n(e);
    match n.op {
        Op::Add | Op::Sub | Op::Or => trailing_zeros(n.a, d + 1).min(trailing_zeros(n.b, d + 1)),
        Op::Mul => trailing_zeros(n.a, d + 1) + trailing_zeros(n.b, d + 1),
        Op::Concat => { let t = trailing_zeros(n.b, d + 1); if t >= a.w(n.b) as u32 { a.w(n.b) as u32 + trailing_zeros(n.a, d + 1) } else { t } }
        Op::ZExt | Op::SExt => trailing_zeros(n.a, d + 1),
        Op::Ite => trailing_zeros(n.b, d + 1).min(trailing_zeros(n.c, d + 1)),
        _ => 0,
    }
}

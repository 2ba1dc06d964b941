//! Lazy parser for textual LLVM IR.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), F32, F64, Ptr, Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(bool, Rc<Vec<Ty>>), Other }

impl Ty {
    pub fn size(&self) -> u64 { // alloc size
        let s = self.store();
        let a = self.align();
        (s + a - 1) / a * a
    }
    pub fn store(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t { Ty::Int(w) => (n * *w as u64 + 7) / 8, t => n * t.store() },
            Ty::Struct(packed, f) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store().next_power_of_two(),
            Ty::Struct(p, f) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(packed, f) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k as u64 == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn width(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, t => panic!("width of {:?}", t) }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr) }
}

/// Constant initialiser / operand.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Bytes(Vec<u8>),
    Global(u32),
    Zero,
    Agg(Vec<(Ty, Const)>),
    /// pointer arithmetic on a constant: base + offset
    Add(Box<Const>, i64),
    SubC(Box<Const>, Box<Const>),
    Trunc(Box<Const>, u16),
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), C(u64), K(Rc<(Ty, Const)>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Uno, Ueq, Ugt, Uge, Ult, Ule, Une, True }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK { Trunc, ZExt, SExt, Bit, FpToSI, FpToUI, SIToFp, UIToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Debug)]
pub enum Callee { Direct(u32), Indirect(Opd), Asm }

#[derive(Debug)]
pub enum Inst {
    Bin(crate::expr::Op, Ty, u32, Opd, Opd),
    ICmp(Pred, Ty, u32, Opd, Opd),
    FBin(crate::expr::Op, Ty, u32, Opd, Opd),
    FNeg(Ty, u32, Opd),
    FCmp(FPred, Ty, u32, Opd, Opd),
    Cast(CastK, Ty, Ty, u32, Opd),
    Select(Ty, Ty, u32, Opd, Opd, Opd),
    Load(Ty, u32, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u16, i64)>),
    Alloca(u32, u64),
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Ty, Opd, Opd, Vec<u32>),
    ExtElem(u32, Opd, Opd),
    InsElem(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<u32>, u64),
    RmwI(Rmw, Ty, u32, Opd, Opd),
    CmpXchg(Ty, u32, Opd, Opd, Opd),
    Copy(u32, Opd),
    Nop,
}

#[derive(Debug)]
pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Opd)> }
#[derive(Debug)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }
#[derive(Debug)]
pub struct Func { pub name: String, pub gid: u32, pub nparams: usize, pub nregs: usize, pub blocks: Vec<Block>, pub ninst: usize }

#[derive(Clone, Debug)]
pub enum GKind { Func { body: Option<(usize, usize)>, header: (usize, usize) }, Var { text: (usize, usize), constant: bool, external: bool }, Alias { text: (usize, usize) } }

pub struct Module {
    pub text: &'static str,
    pub names: HashMap<&'static str, u32>,
    pub globals: Vec<(&'static str, GKind)>,
    pub types: HashMap<&'static str, (usize, usize)>,
    pub funcs: Vec<Option<&'static Func>>,
}

fn tok_name_end(b: &[u8], mut i: usize) -> usize {
    // at '@' or '%'
    i += 1;
    if b[i] == b'"' { i += 1; while b[i] != b'"' { i += 1; } return i + 1; }
    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || b[i] == b'$' || b[i] == b'-') { i += 1; }
    i
}
fn strip(n: &'static str) -> &'static str {
    let n = &n[1..];
    if n.starts_with('"') { &n[1..n.len() - 1] } else { n }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read IR").into_boxed_str());
        let b = text.as_bytes();
        let mut m = Module { text, names: HashMap::new(), globals: vec![("", GKind::Var { text: (0, 0), constant: true, external: true })], types: HashMap::new(), funcs: vec![] };
        let mut i = 0;
        while i < b.len() {
            let e = match memchr(b, b'\n', i) { Some(e) => e, None => b.len() };
            match b[i] {
                b'@' => {
                    let ne = tok_name_end(b, i);
                    let name = strip(&text[i..ne]);
                    let body = &text[ne..e];
                    let kind = if body.contains(" alias ") && !body.contains(" constant ") && !body.contains(" global ") { GKind::Alias { text: (ne, e) } } else {
                        GKind::Var { text: (ne, e), constant: body.contains("constant ") && !body.split("constant ").next().unwrap().contains("global "), external: body.contains(" external ") || body.contains(" extern_weak ") }
                    };
                    m.add(name, kind);
                }
                b'%' => { let ne = tok_name_end(b, i); m.types.insert(&text[i..ne], (ne, e)); }
                b'd' if text[i..].starts_with("define ") || text[i..].starts_with("declare ") => {
                    let at = memchr(b, b'@', i).unwrap();
                    let ne = tok_name_end(b, at);
                    let name = strip(&text[at..ne]);
                    if b[i + 2] == b'f' {
                        // body until line "}"
                        let mut j = e + 1;
                        let start = j;
                        loop {
                            let le = memchr(b, b'\n', j).unwrap();
                            if &text[j..le] == "}" { m.add(name, GKind::Func { body: Some((start, j)), header: (ne, e) }); j = le + 1; break; }
                            j = le + 1;
                        }
                        i = j;
                        continue;
                    } else { m.add(name, GKind::Func { body: None, header: (ne, e) }); }
                }
                _ => (),
            }
            i = e + 1;
        }
        m.funcs = vec![None; m.globals.len()];
        m
    }
    fn add(&mut self, name: &'static str, k: GKind) {
        let id = self.globals.len() as u32;
        self.globals.push((name, k));
        self.names.insert(name, id);
    }
    pub fn func(&mut self, gid: u32) -> Option<&'static Func> {
        if let Some(f) = self.funcs[gid as usize] { return Some(f); }
        let f = match &self.globals[gid as usize].1 {
            GKind::Func { body: Some(b), header } => { let (b, h) = (*b, *header); self.parse_func(gid, h, b) }
            _ => return None,
        };
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[gid as usize] = Some(f);
        Some(f)
    }
    pub fn global_init(&self, gid: u32) -> (Ty, Option<Const>) {
        match &self.globals[gid as usize].1 {
            GKind::Var { text, external, .. } => {
                let mut p = P::new(self, &self.text[text.0..text.1]);
                loop {
                    p.ws();
                    let w = p.peek_word();
                    if w == "global" || w == "constant" { p.word(); break; }
                    if p.eat('=') { continue; }
                    let w = p.word();
                    if w.is_empty() { panic!("global {}", self.globals[gid as usize].0); }
                    p.ws();
                    if p.peek() == b'(' { p.balanced(); }
                }
                let t = p.ty();
                if *external { return (t, None); }
                let c = p.constant(&t);
                (t, Some(c))
            }
            _ => panic!("global_init"),
        }
    }
    pub fn alias_target(&self, gid: u32) -> Option<u32> {
        match &self.globals[gid as usize].1 {
            GKind::Alias { text } => {
                let s = &self.text[text.0..text.1];
                let at = s.rfind('@')?;
                let ne = tok_name_end(s.as_bytes(), at);
                let n = strip(unsafe { std::mem::transmute::<&str, &'static str>(&s[at..ne]) });
                self.names.get(n).copied()
            }
            _ => None,
        }
    }

    fn parse_func(&self, gid: u32, header: (usize, usize), body: (usize, usize)) -> Func {
        let name = self.globals[gid as usize].0.to_string();
        let mut fp = FP { m: self, regs: HashMap::new(), labels: HashMap::new(), nlabels: 0 };
        let mut p = P::new(self, &self.text[header.0..header.1]);
        p.ws();
        assert!(p.eat('('), "{}", name);
        let mut nparams = 0;
        let mut unnamed = 0;
        loop {
            p.ws();
            if p.eat(')') { break; }
            if p.eat(',') { continue; }
            if p.s[p.i..].starts_with("...") { p.i += 3; continue; }
            let _t = p.ty();
            p.attrs();
            let reg = if p.peek() == b'%' { let n = p.name(); if n.as_bytes()[1].is_ascii_digit() { unnamed += 1; } n.to_string() } else { let s = format!("%{}", unnamed); unnamed += 1; s };
            fp.reg(&reg);
            nparams += 1;
        }
        // Split the body in logical lines.
        let text = &self.text[body.0..body.1];
        let mut lines: Vec<String> = vec![];
        let mut it = text.lines();
        while let Some(l) = it.next() {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') { continue; }
            let indented = l.starts_with(' ');
            if indented && t.starts_with("switch ") {
                let mut s = t.to_string();
                while !s.trim_end().ends_with(']') && !s.contains("], !") && !s.contains("\n ]") { let n = it.next().unwrap(); s.push('\n'); s.push_str(n.trim_start()); if n.trim_start().starts_with(']') { break; } }
                lines.push(s);
            } else if indented && (t.starts_with("invoke ") || t.contains("= invoke ")) {
                let mut s = t.to_string();
                let n = it.next().unwrap();
                s.push(' ');
                s.push_str(n.trim_start());
                lines.push(s);
            } else if indented { lines.push(t.to_string()); } else {
                // label
                let lab = if t.starts_with('"') { let e = t[1..].find('"').unwrap(); t[..e + 2].to_string() } else { t[..t.find(':').unwrap()].to_string() };
                lines.push(format!("\u{1}{}", lab));
            }
        }
        if !lines.is_empty() && !lines[0].starts_with('\u{1}') { lines.insert(0, format!("\u{1}{}", unnamed)); }
        // Assign label ids
        for l in &lines { if let Some(n) = l.strip_prefix('\u{1}') { fp.label(&format!("%{}", n)); } }
        let mut blocks: Vec<Block> = vec![];
        let mut dead = false;
        let mut ninst = 0;
        for l in &lines {
            if l.starts_with('\u{1}') { blocks.push(Block { phis: vec![], insts: vec![] }); dead = false; continue; }
            if dead { continue; }
            let b = blocks.last_mut().unwrap();
            let l: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(l.as_str()) };
            match fp.inst(l) {
                Parsed::Phi(ph) => b.phis.push(ph),
                Parsed::Inst(Inst::Nop) => (),
                Parsed::Inst(i) => { ninst += 1; b.insts.push(i) }
                Parsed::Dead => { b.insts.push(Inst::Unreachable); dead = true; }
            }
        }
        Func { name, gid, nparams, nregs: fp.regs.len(), blocks, ninst }
    }
}

pub fn memchr(b: &[u8], c: u8, from: usize) -> Option<usize> { b[from..].iter().position(|x| *x == c).map(|p| p + from) }

struct FP<'a> { m: &'a Module, regs: HashMap<String, u32>, labels: HashMap<String, u32>, nlabels: u32 }
enum Parsed { Phi(Phi), Inst(Inst), Dead }

struct P<'a> { m: &'a Module, s: &'a str, i: usize }

impl<'a> P<'a> {
    fn new(m: &'a Module, s: &'a str) -> P<'a> { P { m, s, i: 0 } }
    fn b(&self) -> &'a [u8] { self.s.as_bytes() }
    fn peek(&self) -> u8 { *self.b().get(self.i).unwrap_or(&0) }
    fn ws(&mut self) { while self.i < self.s.len() && self.b()[self.i].is_ascii_whitespace() { self.i += 1; } }
    fn eat(&mut self, c: char) -> bool { self.ws(); if self.peek() == c as u8 { self.i += 1; true } else { false } }
    fn expect(&mut self, c: char) { if !self.eat(c) { panic!("expected {} at {:?}", c, &self.s[self.i..].chars().take(60).collect::<String>()); } }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        let b = self.b();
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.' || b[j] == b'-' || b[j] == b'+') { j += 1; }
        &self.s[self.i..j]
    }
    fn word(&mut self) -> &'a str { let w = self.peek_word(); self.i += w.len(); w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    fn name(&mut self) -> &'a str { self.ws(); let e = tok_name_end(self.b(), self.i); let s = &self.s[self.i..e]; self.i = e; s }
    fn balanced(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() { b'(' => d += 1, b')' => { d -= 1; } b'"' => { self.i += 1; while self.peek() != b'"' { self.i += 1; } } 0 => panic!("unbalanced"), _ => () }
            self.i += 1;
            if d == 0 { break; }
        }
    }
    fn is_ty(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'[' | b'<' | b'{' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "fp128" | "x86_fp80") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'[' => { self.i += 1; let n: u64 = self.word().parse().unwrap(); assert!(self.eat_word("x")); let t = self.ty(); self.expect(']'); Ty::Arr(n, Rc::new(t)) }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' { let mut t = self.ty(); self.expect('>'); if let Ty::Struct(p, _) = &mut t { *p = true; } return t; }
                let n: u64 = self.word().parse().unwrap(); assert!(self.eat_word("x")); let t = self.ty(); self.expect('>'); Ty::Vec(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop { if self.eat('}') { break; } if self.eat(',') { continue; } v.push(self.ty()); }
                Ty::Struct(false, Rc::new(v))
            }
            b'%' => {
                let n = self.name();
                let (s, e) = *self.m.types.get(n).unwrap_or_else(|| panic!("type {}", n));
                let mut p = P::new(self.m, &self.m.text[s..e]);
                p.expect('=');
                assert!(p.eat_word("type"));
                if p.peek_word() == "opaque" { return Ty::Other; }
                p.ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => { if self.peek_word() == "addrspace" { self.word(); self.balanced(); } Ty::Ptr }
                    "void" => Ty::Void, "float" => Ty::F32, "double" => Ty::F64,
                    "label" | "metadata" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type? {:?}", &self.s[self.i.saturating_sub(20)..].chars().take(80).collect::<String>()),
                }
            }
        }
    }
    /// Skip attributes until an operand, ',' or ')'.
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if !(c.is_ascii_alphabetic()) && c != b'#' && c != b'"' { return; }
            if c == b'#' { self.i += 1; self.word(); continue; }
            if c == b'"' { self.i += 1; while self.peek() != b'"' { self.i += 1; } self.i += 1; if self.eat('=') { self.ws(); self.i += 1; while self.peek() != b'"' { self.i += 1; } self.i += 1; } continue; }
            let w = self.peek_word();
            if matches!(w, "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "sub" | "add" | "trunc" | "bitcast" | "splat" | "c" | "xor" | "icmp" | "to" | "unwind") { return; }
            self.word();
            if w == "align" && !{ self.ws(); self.peek() == b'(' } { self.word(); continue; }
            if self.peek() == b'(' { self.balanced(); }
        }
    }
    fn int_lit(w: &str) -> u128 {
        if let Some(n) = w.strip_prefix('-') { (n.parse::<u128>().unwrap()).wrapping_neg() } else { w.parse::<u128>().unwrap_or_else(|_| panic!("int {}", w)) }
    }
    fn constant(&mut self, t: &Ty) -> Const {
        self.ws();
        let c = self.peek();
        match c {
            b'@' => { let n = self.name(); let n: &'static str = strip(unsafe { std::mem::transmute::<&str, &'static str>(n) }); return Const::Global(*self.m.names.get(n).unwrap_or_else(|| panic!("global {}", n))); }
            b'c' if self.s[self.i..].starts_with("c\"") => {
                self.i += 2;
                let mut v = vec![];
                loop {
                    let ch = self.peek();
                    if ch == b'"' { self.i += 1; break; }
                    if ch == b'\\' {
                        if self.b()[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue; }
                        v.push(u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap());
                        self.i += 3;
                    } else { v.push(ch); self.i += 1; }
                }
                return Const::Bytes(v);
            }
            b'[' | b'{' | b'<' => {
                self.i += 1;
                let mut close = match c { b'[' => ']', b'{' => '}', _ => '>' };
                let mut packed = false;
                if c == b'<' { self.ws(); if self.peek() == b'{' { self.i += 1; close = '}'; packed = true; } }
                let mut v = vec![];
                loop {
                    if self.eat(close) { break; }
                    if self.eat(',') { continue; }
                    let t = self.ty();
                    let k = self.constant(&t);
                    v.push((t, k));
                }
                if packed { self.expect('>'); }
                return Const::Agg(v);
            }
            _ => (),
        }
        let w = self.word();
        match w {
            "null" | "zeroinitializer" | "undef" | "poison" | "none" => Const::Zero,
            "true" => Const::Int(1),
            "false" => Const::Int(0),
            "splat" => {
                self.expect('(');
                let et = self.ty();
                let k = self.constant(&et);
                self.expect(')');
                let n = if let Ty::Vec(n, _) = t { *n } else { panic!("splat") };
                Const::Agg((0..n).map(|_| (et.clone(), k.clone())).collect())
            }
            "getelementptr" => {
                loop { let x = self.peek_word(); if x == "inbounds" || x == "nuw" || x == "nusw" { self.word(); } else if x == "inrange" { self.word(); self.ws(); if self.peek() == b'(' { self.balanced(); } } else { break; } }
                self.expect('(');
                let st = self.ty();
                self.expect(',');
                let bt = self.ty();
                let base = self.constant(&bt);
                let mut off = 0i64;
                let mut first = true;
                let mut cur = st;
                while self.eat(',') {
                    let it = self.ty();
                    let k = match self.constant(&it) { Const::Int(v) => crate::expr::sx(v & crate::expr::mask(it.width()), it.width()) as i64, Const::Zero => 0, _ => panic!("gep const idx") };
                    if first { off += k * cur.size() as i64; first = false; } else { let (o, t) = cur.field(k as u64); off += o as i64; cur = t; }
                }
                self.expect(')');
                Const::Add(Box::new(base), off)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                self.expect('(');
                let t1 = self.ty();
                let k = self.constant(&t1);
                assert!(self.eat_word("to"));
                let t2 = self.ty();
                self.expect(')');
                if t2.is_scalar() && t2.width() < 64 { Const::Trunc(Box::new(k), t2.width()) } else { k }
            }
            "sub" | "add" => {
                while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); }
                self.expect('(');
                let t1 = self.ty();
                let a = self.constant(&t1);
                self.expect(',');
                let t2 = self.ty();
                let b = self.constant(&t2);
                self.expect(')');
                if w == "sub" { Const::SubC(Box::new(a), Box::new(b)) } else { match b { Const::Int(v) => Const::Add(Box::new(a), v as i64), _ => match a { Const::Int(v) => Const::Add(Box::new(b), v as i64), _ => panic!("add const") } } }
            }
            _ => match t {
                Ty::F64 | Ty::F32 => {
                    if let Some(h) = w.strip_prefix("0x") {
                        let bits = u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("fp {}", w));
                        if *t == Ty::F64 { Const::Int(bits as u128) } else { Const::Int((f64::from_bits(bits) as f32).to_bits() as u128) }
                    } else if let Some(h) = w.strip_prefix('f').and_then(|x| x.strip_prefix("0x")) {
                        Const::Int(u128::from_str_radix(h, 16).unwrap())
                    } else {
                        let f: f64 = match w { "+inf" | "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "+qnan" | "qnan" | "nan" => f64::NAN, "-qnan" => -f64::NAN, _ => w.parse().unwrap_or_else(|_| panic!("float {}", w)) };
                        if *t == Ty::F64 { Const::Int(f.to_bits() as u128) } else { Const::Int((f as f32).to_bits() as u128) }
                    }
                }
                Ty::Int(n) => Const::Int(Self::int_lit(w) & crate::expr::mask(*n)),
                _ => panic!("const {:?} {:?} near {:?}", t, w, &self.s[self.i..].chars().take(60).collect::<String>()),
            },
        }
    }
}

impl<'a> FP<'a> {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn label(&mut self, n: &str) -> u32 {
        let k = self.nlabels;
        let mut new = false;
        let r = *self.labels.entry(n.to_string()).or_insert_with(|| { new = true; k });
        if new { self.nlabels += 1; }
        r
    }
    fn opd(&mut self, p: &mut P, t: &Ty) -> Opd {
        p.ws();
        if p.peek() == b'%' { let n = p.name(); return Opd::Reg(self.reg(n)); }
        let k = p.constant(t);
        match (&k, t) {
            (Const::Int(v), t) if t.is_scalar() && t.width() <= 64 => Opd::C(*v as u64),
            (Const::Zero, t) if t.is_scalar() && t.width() <= 64 => Opd::C(0),
            _ => Opd::K(Rc::new((t.clone(), k))),
        }
    }
    fn lab(&mut self, p: &mut P) -> u32 { assert!(p.eat_word("label")); p.ws(); let n = p.name(); *self.labels.get(n).unwrap_or_else(|| panic!("label {}", n)) }
    fn inst(&mut self, l: &'static str) -> Parsed {
        let m = self.m;
        let mut p = P::new(m, l);
        let mut dst = None;
        if p.peek() == b'%' { let n = p.name(); dst = Some(self.reg(n)); p.expect('='); }
        let op = p.word();
        use crate::expr::Op as O;
        let d = dst.unwrap_or(u32::MAX);
        let r = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") { p.word(); }
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                p.expect(',');
                let b = self.opd(&mut p, &t);
                let o = match op { "add" => O::Add, "sub" => O::Sub, "mul" => O::Mul, "udiv" => O::UDiv, "sdiv" => O::SDiv, "urem" => O::URem, "srem" => O::SRem, "and" => O::And, "or" => O::Or, "xor" => O::Xor, "shl" => O::Shl, "lshr" => O::LShr, _ => O::AShr };
                Inst::Bin(o, t, d, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !p.is_ty() { p.word(); }
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                p.expect(',');
                let b = self.opd(&mut p, &t);
                let o = match op { "fadd" => O::FAdd, "fsub" => O::FSub, "fmul" => O::FMul, "fdiv" => O::FDiv, _ => O::FRem };
                Inst::FBin(o, t, d, a, b)
            }
            "fneg" => { while !p.is_ty() { p.word(); } let t = p.ty(); let a = self.opd(&mut p, &t); Inst::FNeg(t, d, a) }
            "icmp" => {
                if p.peek_word() == "samesign" { p.word(); }
                let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x) };
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                p.expect(',');
                let b = self.opd(&mut p, &t);
                Inst::ICmp(pr, t, d, a, b)
            }
            "fcmp" => {
                while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p.word(); }
                let pr = match p.word() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "uno" => FPred::Uno, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "true" => FPred::True, x => panic!("fcmp {}", x) };
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                p.expect(',');
                let b = self.opd(&mut p, &t);
                Inst::FCmp(pr, t, d, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                while !p.is_ty() { p.word(); }
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                assert!(p.eat_word("to"));
                let t2 = p.ty();
                let k = match op { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "fptosi" => CastK::FpToSI, "fptoui" => CastK::FpToUI, "sitofp" => CastK::SIToFp, "uitofp" => CastK::UIToFp, "fpext" => CastK::FpExt, "fptrunc" => CastK::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" if t.is_scalar() && t2.is_scalar() => if t2.width() < t.width() { CastK::Trunc } else if t2.width() > t.width() { CastK::ZExt } else { CastK::Bit },
                    _ => CastK::Bit };
                Inst::Cast(k, t, t2, d, a)
            }
            "select" => {
                while !p.is_ty() { p.word(); }
                let ct = p.ty();
                let c = self.opd(&mut p, &ct);
                p.expect(',');
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                p.expect(',');
                let t2 = p.ty();
                let b = self.opd(&mut p, &t2);
                Inst::Select(ct, t, d, c, a, b)
            }
            "load" => {
                while matches!(p.peek_word(), "atomic" | "volatile") { p.word(); }
                let t = p.ty();
                p.expect(',');
                let pt = p.ty();
                let a = self.opd(&mut p, &pt);
                Inst::Load(t, d, a)
            }
            "store" => {
                while matches!(p.peek_word(), "atomic" | "volatile") { p.word(); }
                let t = p.ty();
                let v = self.opd(&mut p, &t);
                p.expect(',');
                let pt = p.ty();
                let a = self.opd(&mut p, &pt);
                Inst::Store(t, v, a)
            }
            "getelementptr" => {
                loop { let x = p.peek_word(); if x == "inbounds" || x == "nuw" || x == "nusw" { p.word(); } else { break; } }
                let st = p.ty();
                p.expect(',');
                let bt = p.ty();
                if let Ty::Vec(..) = bt { panic!("vector gep"); }
                let base = self.opd(&mut p, &bt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = st;
                let mut first = true;
                while p.eat(',') {
                    p.ws();
                    if p.peek() == b'!' { break; }
                    let it = p.ty();
                    let o = self.opd(&mut p, &it);
                    let w = it.width();
                    let scale;
                    if first { scale = cur.size() as i64; first = false; } else {
                        match &cur {
                            Ty::Struct(..) => { let k = if let Opd::C(k) = o { k } else { panic!("struct idx") }; let (fo, t) = cur.field(k); off += fo as i64; cur = t; continue; }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => { scale = t.size() as i64; let t = (**t).clone(); cur = t; }
                            _ => panic!("gep"),
                        }
                    }
                    if let Opd::C(k) = o { off = off.wrapping_add((crate::expr::sx(k as u128, w) as i64).wrapping_mul(scale)); } else { idx.push((o, w, scale)); }
                }
                Inst::Gep(d, base, off, idx)
            }
            "alloca" => {
                while matches!(p.peek_word(), "inalloca") { p.word(); }
                let t = p.ty();
                let mut n = 1;
                if p.eat(',') && p.is_ty() { let it = p.ty(); if let Opd::C(k) = self.opd(&mut p, &it) { n = k; } else { panic!("dynamic alloca") } }
                Inst::Alloca(d, t.size() * n)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { assert!(p.eat_word("call")); }
                let invoke = op == "invoke";
                // calling convention, attributes, fast-math flags
                while !p.is_ty() {
                    p.ws();
                    if p.peek() == b'#' { p.i += 1; p.word(); continue; }
                    let w = p.word();
                    if w == "cc" || w == "align" { p.ws(); if p.peek() == b'(' { p.balanced(); } else { p.word(); } continue; }
                    if w.is_empty() { panic!("call? {}", l); }
                    if p.peek() == b'(' { p.balanced(); }
                }
                let ret = p.ty();
                p.ws();
                if p.peek() == b'(' { p.balanced(); } // function type
                p.ws();
                let callee = match p.peek() {
                    b'@' => { let n = p.name(); let n: &'static str = strip(unsafe { std::mem::transmute::<&str, &'static str>(n) }); Callee::Direct(*m.names.get(n).unwrap_or_else(|| panic!("callee {}", n))) }
                    b'%' => { let n = p.name(); Callee::Indirect(Opd::Reg(self.reg(n))) }
                    _ => {
                        if p.peek_word() == "asm" { while p.peek() != b'(' { if p.peek() == b'"' { p.i += 1; while p.peek() != b'"' { p.i += 1; } } p.i += 1; } Callee::Asm }
                        else { let k = p.constant(&Ty::Ptr); Callee::Indirect(Opd::K(Rc::new((Ty::Ptr, k)))) }
                    }
                };
                p.expect('(');
                let mut args = vec![];
                loop {
                    p.ws();
                    if p.eat(')') { break; }
                    if p.eat(',') { continue; }
                    let t = p.ty();
                    if let Ty::Other = t {
                        let mut dep = 0;
                        loop { let c = p.peek(); if (c == b',' || c == b')') && dep == 0 { break; } if c == b'(' || c == b'{' { dep += 1; } if c == b')' || c == b'}' { dep -= 1; } p.i += 1; }
                        args.push((t, Opd::C(0)));
                        continue;
                    }
                    p.attrs();
                    let o = self.opd(&mut p, &t);
                    args.push((t, o));
                }
                let mut normal = None;
                if invoke {
                    let k = p.s[p.i..].find(" to label ").unwrap() + p.i;
                    p.i = k + 4;
                    normal = Some(self.lab(&mut p));
                }
                if let Callee::Direct(g) = &callee {
                    let n = m.globals[*g as usize].0;
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.donothing" || n.starts_with("llvm.prefetch") { return Parsed::Inst(Inst::Nop); }
                    if n == "llvm.assume" { return Parsed::Inst(Inst::Nop); }
                }
                Inst::Call { dst: if ret == Ty::Void { None } else { dst }, ret, callee, args, normal }
            }
            "br" => {
                if p.peek_word() == "label" { Inst::Br(self.lab(&mut p)) } else {
                    let t = p.ty();
                    let c = self.opd(&mut p, &t);
                    p.expect(',');
                    let a = self.lab(&mut p);
                    p.expect(',');
                    let b = self.lab(&mut p);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = p.ty();
                let v = self.opd(&mut p, &t);
                p.expect(',');
                let dflt = self.lab(&mut p);
                p.expect('[');
                let mut cases = vec![];
                loop {
                    if p.eat(']') { break; }
                    let ct = p.ty();
                    let k = match p.constant(&ct) { Const::Int(v) => v, Const::Zero => 0, _ => panic!("switch") };
                    p.expect(',');
                    let b = self.lab(&mut p);
                    cases.push((k as u64, b));
                }
                Inst::Switch(t.width(), v, dflt, cases)
            }
            "ret" => { let t = p.ty(); if t == Ty::Void { Inst::Ret(None) } else { let v = self.opd(&mut p, &t); Inst::Ret(Some(v)) } }
            "unreachable" => Inst::Unreachable,
            "resume" | "landingpad" | "cleanuppad" | "catchswitch" => return Parsed::Dead,
            "phi" => {
                while !p.is_ty() { p.word(); }
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.expect('[');
                    let o = self.opd(&mut p, &t);
                    p.expect(',');
                    p.ws();
                    let n = p.name();
                    let b = *self.labels.get(n).unwrap_or_else(|| panic!("phi label {}", n));
                    p.expect(']');
                    inc.push((b, o));
                    if !p.eat(',') { break; }
                    p.ws();
                    if p.peek() == b'!' { break; }
                }
                return Parsed::Phi(Phi { dst: d, inc });
            }
            "extractvalue" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                let mut ix = vec![];
                while p.eat(',') { p.ws(); if p.peek() == b'!' { break; } ix.push(p.word().parse().unwrap()); }
                Inst::Extract(d, a, ix)
            }
            "insertvalue" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                p.expect(',');
                let vt = p.ty();
                let v = self.opd(&mut p, &vt);
                let mut ix = vec![];
                while p.eat(',') { p.ws(); if p.peek() == b'!' { break; } ix.push(p.word().parse().unwrap()); }
                Inst::Insert(d, t, a, v, ix)
            }
            "extractelement" => { let t = p.ty(); let a = self.opd(&mut p, &t); p.expect(','); let it = p.ty(); let i = self.opd(&mut p, &it); Inst::ExtElem(d, a, i) }
            "insertelement" => { let t = p.ty(); let a = self.opd(&mut p, &t); p.expect(','); let vt = p.ty(); let v = self.opd(&mut p, &vt); p.expect(','); let it = p.ty(); let i = self.opd(&mut p, &it); Inst::InsElem(d, t, a, v, i) }
            "shufflevector" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t);
                p.expect(',');
                let t2 = p.ty();
                let b = self.opd(&mut p, &t2);
                p.expect(',');
                let mt = p.ty();
                let n = if let Ty::Vec(n, _) = &mt { *n } else { panic!() };
                let n1 = if let Ty::Vec(n, _) = &t { *n } else { panic!() };
                let mask = match p.constant(&mt) { Const::Zero => vec![0; n as usize], Const::Agg(v) => v.iter().map(|(_, k)| match k { Const::Int(x) => *x as u32, _ => 0 }).collect(), _ => panic!() };
                Inst::Shuffle(d, a, b, mask, n1)
            }
            "atomicrmw" => {
                if p.peek_word() == "volatile" { p.word(); }
                let o = match p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "nand" => Rmw::Nand, x => panic!("rmw {}", x) };
                let pt = p.ty();
                let a = self.opd(&mut p, &pt);
                p.expect(',');
                let t = p.ty();
                let v = self.opd(&mut p, &t);
                Inst::RmwI(o, t, d, a, v)
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "weak" | "volatile") { p.word(); }
                let pt = p.ty();
                let a = self.opd(&mut p, &pt);
                p.expect(',');
                let t = p.ty();
                let c = self.opd(&mut p, &t);
                p.expect(',');
                let t2 = p.ty();
                let n = self.opd(&mut p, &t2);
                Inst::CmpXchg(t, d, a, c, n)
            }
            "freeze" => { let t = p.ty(); let a = self.opd(&mut p, &t); Inst::Copy(d, a) }
            "fence" => Inst::Nop,
            x => panic!("unknown instruction {:?} in {:?}", x, l),
        };
        Parsed::Inst(r)
    }
}

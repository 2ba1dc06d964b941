//! Hash-consed bit-vector / floating-point expression arena with local simplification.
//!
//! Every expression is a bit-vector of `w` bits (booleans are 1-bit).  Floating-point
//! operations take and return the IEEE bit patterns.

use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, Neg, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, UMulO, SMulO,
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFloor, FCeil, FTrunc, FRoundA, FRoundE,
    FEq, FLt, FLe, FIsNan, FpToSI, FpToUI, SIToFp, UIToFp, FpExt, FpTrunc, Uf,
}

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, Fx>,
    consts: Vec<u128>,
    const_map: HashMap<(u128, u16), E, Fx>,
    /// Support: 0 none, v+1 a single variable v, u32::MAX several.
    pub sup: Vec<u32>,
    sups: HashMap<E, std::rc::Rc<Vec<u32>>, Fx>,
    ranges: HashMap<E, (u128, u128), Fx>,
    pub var_names: Vec<String>,
    pub var_width: Vec<u16>,
    pub var_expr: Vec<E>,
    pub uf_names: Vec<String>,
    tables: HashMap<E, [u64; 4], Fx>,
    vals: HashMap<E, std::rc::Rc<[u64; 256]>, Fx>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH { FxH(0) }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}

static mut ARENA: Option<Arena> = None;
#[allow(static_mut_refs)]
#[inline]
pub fn ar() -> &'static mut Arena {
    unsafe { ARENA.get_or_insert_with(Arena::new) }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn mask64(w: u16) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
#[inline]
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub type Model = HashMap<u32, u128, Fx>;

fn f64of(v: u128) -> f64 { f64::from_bits(v as u64) }
fn f32of(v: u128) -> f32 { f32::from_bits(v as u32) }

/// Concrete semantics of every operator: `w` is the result width, `aw` the width of operand a.
pub fn fold(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128, lo: u32) -> u128 {
    let m = mask(w);
    macro_rules! fbin { ($o:tt) => { if w == 64 { (f64of(a) $o f64of(b)).to_bits() as u128 } else { (f32of(a) $o f32of(b)).to_bits() as u128 } } }
    macro_rules! fun { ($f:ident) => { if w == 64 { f64of(a).$f().to_bits() as u128 } else { f32of(a).$f().to_bits() as u128 } } }
    macro_rules! fcmp { ($o:tt) => { if aw == 64 { (f64of(a) $o f64of(b)) as u128 } else { (f32of(a) $o f32of(b)) as u128 } } }
    let r = match op {
        Op::Const | Op::Var | Op::Uf => unreachable!(),
        Op::Not => !a,
        Op::Neg => a.wrapping_neg(),
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (sx(a, w) >> s) as u128 }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::Concat => unreachable!(),
        Op::Extract => a >> lo,
        Op::ZExt => a,
        Op::SExt => sx(a, aw) as u128,
        Op::UMulO => a.checked_mul(b).map_or(true, |p| p > mask(aw)) as u128,
        Op::SMulO => sx(a, aw).checked_mul(sx(b, aw)).map_or(true, |p| sx(p as u128 & mask(aw), aw) != p) as u128,
        Op::FAdd => fbin!(+),
        Op::FSub => fbin!(-),
        Op::FMul => fbin!(*),
        Op::FDiv => fbin!(/),
        Op::FRem => fbin!(%),
        Op::FSqrt => fun!(sqrt),
        Op::FFloor => fun!(floor),
        Op::FCeil => fun!(ceil),
        Op::FTrunc => fun!(trunc),
        Op::FRoundA => fun!(round),
        Op::FRoundE => fun!(round_ties_even),
        Op::FEq => fcmp!(==),
        Op::FLt => fcmp!(<),
        Op::FLe => fcmp!(<=),
        Op::FIsNan => if aw == 64 { f64of(a).is_nan() as u128 } else { f32of(a).is_nan() as u128 },
        Op::FpToSI => {
            let x = if aw == 64 { f64of(a) } else { f32of(a) as f64 };
            let v = x as i128; // saturating
            let (mn, mx) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
            v.max(mn).min(mx) as u128
        }
        Op::FpToUI => {
            let x = if aw == 64 { f64of(a) } else { f32of(a) as f64 };
            (x as u128).min(m)
        }
        Op::SIToFp => if w == 64 { (sx(a, aw) as f64).to_bits() as u128 } else { (sx(a, aw) as f32).to_bits() as u128 },
        Op::UIToFp => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::FpExt => (f32of(a) as f64).to_bits() as u128,
        Op::FpTrunc => (f64of(a) as f32).to_bits() as u128,
    };
    r & m
}

pub fn uf_apply(name: &str, a: u128, b: u128) -> u128 {
    let (x, y) = (f64of(a), f64of(b));
    let r = match name {
        "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "atan" => x.atan(), "acos" => x.acos(), "asin" => x.asin(), "exp" => x.exp(),
        "log" => x.ln(), "log10" => x.log10(), "log2" => x.log2(), "pow" => x.powf(y), "exp2" => x.exp2(),
        "atan2" => x.atan2(y), "powi" => x.powi(b as u32 as i32),
        _ => panic!("uf {}", name),
    };
    r.to_bits() as u128
}

impl Arena {
    fn new() -> Self {
        let mut a = Arena {
            nodes: vec![], map: HashMap::default(), consts: vec![], const_map: HashMap::default(),
            sup: vec![], sups: HashMap::default(), ranges: HashMap::default(), var_names: vec![],
            var_width: vec![], var_expr: vec![], uf_names: vec![], tables: HashMap::default(), vals: HashMap::default(),
        };
        a.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0 }); // id 0 reserved
        a.consts.push(0);
        a.sup.push(0);
        a
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    #[inline]
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    pub fn constant(&mut self, v: u128, w: u16) -> E {
        let v = v & mask(w);
        if let Some(e) = self.const_map.get(&(v, w)) { return *e; }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w, a: i, b: 0, c: 0 });
        self.sup.push(0);
        self.const_map.insert((v, w), e);
        e
    }
    pub fn var(&mut self, name: &str, w: u16) -> E {
        let v = self.var_names.len() as u32;
        self.var_names.push(name.to_string());
        self.var_width.push(w);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Var, w, a: v, b: 0, c: 0 });
        self.sup.push(v + 1);
        self.var_expr.push(e);
        e
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(e) = self.map.get(&n) { return *e; }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        let nargs = nargs(op);
        let mut s = self.sup[a as usize];
        if nargs >= 2 { s = join(s, self.sup[b as usize]); }
        if nargs >= 3 { s = join(s, self.sup[c as usize]); }
        self.sup.push(s);
        self.map.insert(n, e);
        e
    }
    pub fn support(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        let s = self.sup[e as usize];
        if s == 0 { return std::rc::Rc::new(vec![]); }
        if s != u32::MAX { return std::rc::Rc::new(vec![s - 1]); }
        if let Some(r) = self.sups.get(&e) { return r.clone(); }
        let n = self.n(e);
        let mut v: Vec<u32> = vec![];
        for (i, x) in [n.a, n.b, n.c].iter().enumerate() {
            if i < nargs(n.op) { v.extend(self.support(*x).iter()); }
        }
        v.sort_unstable();
        v.dedup();
        let r = std::rc::Rc::new(v);
        self.sups.insert(e, r.clone());
        r
    }
    /// The values of an expression of up to 64 bits for every value of its single 8-bit variable.
    fn all_values(&mut self, e: E) -> Option<std::rc::Rc<[u64; 256]>> {
        let n = self.nodes[e as usize];
        if n.w > 64 { return None; }
        if let Some(r) = self.vals.get(&e) { return Some(r.clone()); }
        let mut r = [0u64; 256];
        match n.op {
            Op::Const => r = [self.consts[n.a as usize] as u64; 256],
            Op::Var => for (x, v) in r.iter_mut().enumerate() { *v = x as u64 & mask(n.w) as u64; },
            Op::Ite => {
                let (a, b, c) = (self.all_values(n.a)?, self.all_values(n.b)?, self.all_values(n.c)?);
                for x in 0..256 { r[x] = if a[x] != 0 { b[x] } else { c[x] }; }
            }
            Op::Concat => {
                let (a, b, w) = (self.all_values(n.a)?, self.all_values(n.b)?, self.w(n.b));
                for x in 0..256 { r[x] = a[x] << w | b[x]; }
            }
            Op::Extract => {
                let a = self.all_values(n.a)?;
                for x in 0..256 { r[x] = ((a[x] as u128 >> n.b) & mask(n.w)) as u64; }
            }
            Op::Uf => return None,
            op => {
                let (a, b) = (self.all_values(n.a)?, if nargs(op) >= 2 { self.all_values(n.b)? } else { std::rc::Rc::new([0; 256]) });
                let w = self.w(n.a);
                for x in 0..256 { r[x] = fold(op, n.w, w, a[x] as u128, b[x] as u128, 0, 0) as u64; }
            }
        }
        if self.vals.len() > 40_000 { self.vals.clear(); }
        let r = std::rc::Rc::new(r);
        if !matches!(n.op, Op::Const) { self.vals.insert(e, r.clone()); }
        Some(r)
    }
    /// Truth table of a boolean over its single 8-bit variable.
    pub fn table(&mut self, e: E) -> Option<(u32, [u64; 4])> {
        let s = self.sup[e as usize];
        if s == 0 || s == u32::MAX { return None; }
        let v = s - 1;
        let w = self.var_width[v as usize];
        if w > 8 { return None; }
        if let Some(t) = self.tables.get(&e) { return Some((v, *t)); }
        let mut t = [0u64; 4];
        if let Some(r) = self.all_values(e) {
            for x in 0..1usize << w { if r[x] != 0 { t[x >> 6] |= 1 << (x & 63); } }
        } else {
            let mut memo = HashMap::default();
            for x in 0..(1u128 << w) {
                memo.clear();
                let mut m = Model::default();
                m.insert(v, x);
                if self.eval_memo(e, &m, &mut memo) != 0 { t[(x >> 6) as usize] |= 1 << (x & 63); }
            }
        }
        self.tables.insert(e, t);
        Some((v, t))
    }
    pub fn eval(&self, e: E, m: &Model) -> u128 {
        if let Some(c) = self.cv(e) { return c; }
        let mut memo = HashMap::default();
        self.eval_memo(e, m, &mut memo)
    }
    pub fn eval_memo(&self, e: E, m: &Model, memo: &mut HashMap<E, u128, Fx>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return m.get(&n.a).copied().unwrap_or(0) & mask(n.w),
            _ => (),
        }
        if let Some(v) = memo.get(&e) { return *v; }
        let a = self.eval_memo(n.a, m, memo);
        let r = match n.op {
            Op::Ite => if a != 0 { self.eval_memo(n.b, m, memo) } else { self.eval_memo(n.c, m, memo) },
            Op::Concat => { let b = self.eval_memo(n.b, m, memo); (a << self.w(n.b)) | b }
            Op::Extract => (a >> n.b) & mask(n.w),
            Op::Uf => { let b = self.eval_memo(n.b, m, memo); uf_apply(&self.uf_names[n.c as usize], a, b) }
            op => {
                let b = if nargs(op) >= 2 { self.eval_memo(n.b, m, memo) } else { 0 };
                fold(op, n.w, self.w(n.a), a, b, 0, 0)
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn range(&mut self, e: E) -> (u128, u128) { self.range_d(e, 0) }
    fn range_d(&mut self, e: E, d: u32) -> (u128, u128) {
        let n = self.n(e);
        let m = mask(n.w);
        if let Op::Const = n.op { let v = self.consts[n.a as usize]; return (v, v); }
        if let Op::Var = n.op { return (0, m); }
        if n.w > 64 || d > 40 { return (0, m); }
        if let Some(r) = self.ranges.get(&e) { return *r; }
        let r = match n.op {
            Op::ZExt => self.range_d(n.a, d + 1),
            Op::Ite => { let x = self.range_d(n.b, d + 1); let y = self.range_d(n.c, d + 1); (x.0.min(y.0), x.1.max(y.1)) }
            Op::Add => { let x = self.range_d(n.a, d + 1); let y = self.range_d(n.b, d + 1); if x.1 + y.1 <= m { (x.0 + y.0, x.1 + y.1) } else if x.0 + y.0 > m && x.1 + y.1 <= 2 * m + 1 { (x.0 + y.0 - m - 1, x.1 + y.1 - m - 1) } else { (0, m) } }
            Op::Mul => { let x = self.range_d(n.a, d + 1); let y = self.range_d(n.b, d + 1); match x.1.checked_mul(y.1) { Some(h) if h <= m => (x.0 * y.0, h), _ => (0, m) } }
            Op::And => { let x = self.range_d(n.a, d + 1); let y = self.range_d(n.b, d + 1); (0, x.1.min(y.1)) }
            Op::Or | Op::Xor => { let x = self.range_d(n.a, d + 1); let y = self.range_d(n.b, d + 1); let h = x.1 | y.1; let h = if h == 0 { 0 } else { mask((128 - h.leading_zeros()) as u16) }; (if n.op == Op::Or { x.0.max(y.0) } else { 0 }, h) }
            Op::UDiv => { let x = self.range_d(n.a, d + 1); let y = self.range_d(n.b, d + 1); if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { (0, m) } }
            Op::URem => { let x = self.range_d(n.a, d + 1); let y = self.range_d(n.b, d + 1); if y.0 > 0 { (0, x.1.min(y.1 - 1)) } else { (0, x.1) } }
            Op::Extract => { let x = self.range_d(n.a, d + 1); if n.b == 0 && x.1 <= m { x } else if n.b > 0 && (x.1 >> n.b) <= m { (x.0 >> n.b, x.1 >> n.b) } else { (0, m) } }
            Op::Concat => { let x = self.range_d(n.a, d + 1); let y = self.range_d(n.b, d + 1); let s = self.w(n.b); ((x.0 << s) + y.0, (x.1 << s) + y.1) }
            Op::LShr => { let x = self.range_d(n.a, d + 1); (0, x.1) }
            _ => (0, m),
        };
        self.ranges.insert(e, r);
        r
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; self.constant(!v, n.w) }
            Op::Not => n.a,
            Op::Ult if n.w == 1 => self.ule(n.b, n.a),
            Op::Ule => self.ult(n.b, n.a),
            Op::Slt => self.sle(n.b, n.a),
            Op::Sle => self.slt(n.b, n.a),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.not(n.b); let y = self.not(n.c); self.ite(n.a, x, y) }
            _ => self.mk(Op::Not, n.w, a, 0, 0),
        }
    }
    pub fn tt(&mut self) -> E { self.constant(1, 1) }
    pub fn ff(&mut self) -> E { self.constant(0, 1) }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.constant(fold(op, w, w, x, y, 0, 0), w);
        }
        let m = mask(w);
        // Push an operation with one constant through an ite of constants.
        if w <= 64 && !matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            if let Some(y) = cb { if let Some((c, x1, x2)) = self.ite_consts(a) {
                let p = self.constant(fold(op, w, w, x1, y, 0, 0), w);
                let q = self.constant(fold(op, w, w, x2, y, 0, 0), w);
                return self.ite(c, p, q);
            } }
            if let Some(x) = ca { if let Some((c, y1, y2)) = self.ite_consts(b) {
                let p = self.constant(fold(op, w, w, x, y1, 0, 0), w);
                let q = self.constant(fold(op, w, w, x, y2, 0, 0), w);
                return self.ite(c, p, q);
            } }
        }
        match op {
            Op::Add => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    let n = self.n(a);
                    if n.op == Op::Add { if let Some(z) = self.cv(n.b) { let k = self.constant(y.wrapping_add(z), w); return self.bin(Op::Add, n.a, k); } }
                    return self.mk(Op::Add, w, a, b, 0);
                }
                // (x + k) + y -> (x + y) + k
                let n = self.n(a);
                if n.op == Op::Add && self.cv(n.b).is_some() { let t = self.bin(Op::Add, n.a, b); return self.bin(Op::Add, t, n.b); }
                let n = self.n(b);
                if n.op == Op::Add && self.cv(n.b).is_some() { let t = self.bin(Op::Add, a, n.a); return self.bin(Op::Add, t, n.b); }
                // x + (y - x) -> y
                if n.op == Op::Sub && n.b == a { return n.a; }
                if n.op == Op::Neg { return self.bin(Op::Sub, a, n.a); }
                let n = self.n(a);
                if n.op == Op::Sub && n.b == b { return n.a; }
                if n.op == Op::Neg { return self.bin(Op::Sub, b, n.a); }
                let (a, b) = if a > b { (b, a) } else { (a, b) };
                self.mk(Op::Add, w, a, b, 0)
            }
            Op::Sub => {
                if a == b { return self.constant(0, w); }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(y) = cb { let k = self.constant(y.wrapping_neg(), w); return self.bin(Op::Add, a, k); }
                if ca == Some(0) { return self.neg(b); }
                let na = self.n(a);
                let nb = self.n(b);
                if nb.op == Op::Add { if let Some(k) = self.cv(nb.b) { let t = self.bin(Op::Sub, a, nb.a); let k = self.constant(k.wrapping_neg(), w); return self.bin(Op::Add, t, k); } }
                if na.op == Op::Add {
                    if self.cv(na.b).is_some() { let t = self.bin(Op::Sub, na.a, b); return self.bin(Op::Add, t, na.b); }
                    if na.a == b { return na.b; }
                    if na.b == b { return na.a; }
                }
                if nb.op == Op::Add {
                    if nb.a == a { return self.neg(nb.b); }
                    if nb.b == a { return self.neg(nb.a); }
                }
                self.mk(Op::Sub, w, a, b, 0)
            }
            Op::Mul => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if let Some(y) = cb {
                    if y == 0 { return b; }
                    if y == 1 { return a; }
                    if y == m { return self.neg(a); }
                    if y.is_power_of_two() { let k = self.constant(y.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, k); }
                    let tz = y.trailing_zeros();
                    if tz > 0 {
                        let q = self.constant((sx(y, w) >> tz) as u128 & m, w);
                        let p = self.bin(Op::Mul, a, q);
                        let k = self.constant(tz as u128, w);
                        return self.bin(Op::Shl, p, k);
                    }
                    return self.mk(Op::Mul, w, a, b, 0);
                }
                // A product of negations: pull the signs out.
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::Neg && nb.op == Op::Neg { return self.bin(Op::Mul, na.a, nb.a); }
                if na.op == Op::Neg { let p = self.bin(Op::Mul, na.a, b); return self.neg(p); }
                if nb.op == Op::Neg { let p = self.bin(Op::Mul, a, nb.a); return self.neg(p); }
                let (a, b) = if a > b { (b, a) } else { (a, b) };
                self.mk(Op::Mul, w, a, b, 0)
            }
            Op::And => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return b; }
                    if y == m { return a; }
                    // low mask
                    if (y & (y + 1)) == 0 {
                        let k = (128 - y.leading_zeros()) as u16;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    let n = self.n(a);
                    if n.op == Op::And { if let Some(z) = self.cv(n.b) { let k = self.constant(y & z, w); return self.bin(Op::And, n.a, k); } }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let k = self.constant(y, iw);
                        let t = self.bin(Op::And, n.a, k);
                        return self.zext(t, w);
                    }
                    // single contiguous mask: extract+concat
                    let tz = y.trailing_zeros() as u16;
                    let yy = y >> tz;
                    if tz > 0 && (yy & (yy + 1)) == 0 {
                        let k = (128 - yy.leading_zeros()) as u16;
                        let x = self.extract(a, tz, k);
                        let z = self.constant(0, tz);
                        let x = self.concat(x, z);
                        return self.zext(x, w);
                    }
                    return self.mk(Op::And, w, a, b, 0);
                }
                if self.is_not_of(a, b) { return self.constant(0, w); }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.bin(Op::And, na.a, nb.a); return self.zext(t, w); }
                let (a, b) = if a > b { (b, a) } else { (a, b) };
                self.mk(Op::And, w, a, b, 0)
            }
            Op::Or => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y == m { return b; }
                }
                if self.is_not_of(a, b) { return self.constant(m, w); }
                if w > 1 {
                    if let Some(r) = self.or_disjoint(a, b) { return r; }
                    if let Some(r) = self.or_disjoint(b, a) { return r; }
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.bin(Op::Or, na.a, nb.a); return self.zext(t, w); }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(Op::Or, w, a, b, 0)
            }
            Op::Xor => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if a == b { return self.constant(0, w); }
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y == m { return self.not(a); }
                    let n = self.n(a);
                    if n.op == Op::Xor { if let Some(z) = self.cv(n.b) { let k = self.constant(y ^ z, w); return self.bin(Op::Xor, n.a, k); } }
                    if n.op == Op::ZExt && y <= mask(self.w(n.a)) {
                        let iw = self.w(n.a);
                        let k = self.constant(y, iw);
                        let t = self.bin(Op::Xor, n.a, k);
                        return self.zext(t, w);
                    }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if w == 1 && na.op == Op::Not { let t = self.bin(Op::Xor, na.a, b); return self.not(t); }
                if w == 1 && nb.op == Op::Not { let t = self.bin(Op::Xor, a, nb.a); return self.not(t); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.bin(Op::Xor, na.a, nb.a); return self.zext(t, w); }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(Op::Xor, w, a, b, 0)
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y >= w as u128 { return self.constant(0, w); }
                    let x = self.extract(a, 0, w - y as u16);
                    let z = self.constant(0, y as u16);
                    return self.concat(x, z);
                }
                if ca == Some(0) { return a; }
                self.mk(Op::Shl, w, a, b, 0)
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y >= w as u128 { return self.constant(0, w); }
                    let x = self.extract(a, y as u16, w - y as u16);
                    return self.zext(x, w);
                }
                if ca == Some(0) { return a; }
                self.mk(Op::LShr, w, a, b, 0)
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    let y = y.min(w as u128 - 1);
                    let x = self.extract(a, y as u16, w - y as u16);
                    return self.sext(x, w);
                }
                if ca == Some(0) { return a; }
                self.mk(Op::AShr, w, a, b, 0)
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 { return a; }
                    if y.is_power_of_two() { let k = self.constant(y.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k); }
                }
                let na = self.n(a);
                if na.op == Op::ZExt && w > 8 {
                    let iw = self.w(na.a);
                    if let Some(y) = cb { if y <= mask(iw) && y > 0 { let k = self.constant(y, iw); let t = self.bin(Op::UDiv, na.a, k); return self.zext(t, w); } }
                }
                self.mk(Op::UDiv, w, a, b, 0)
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y == 1 { return self.constant(0, w); }
                    if y.is_power_of_two() { let k = self.constant(y - 1, w); return self.bin(Op::And, a, k); }
                }
                let na = self.n(a);
                if na.op == Op::ZExt && w > 8 {
                    let iw = self.w(na.a);
                    if let Some(y) = cb { if y <= mask(iw) && y > 0 { let k = self.constant(y, iw); let t = self.bin(Op::URem, na.a, k); return self.zext(t, w); } }
                }
                self.mk(Op::URem, w, a, b, 0)
            }
            _ => self.mk(op, w, a, b, 0),
        }
    }
    fn ite_consts(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n(e);
        if n.op == Op::Ite { if let (Some(x), Some(y)) = (self.cv(n.b), self.cv(n.c)) { return Some((n.a, x, y)); } }
        // zext of a 1-bit value is an ite in disguise; leave it alone.
        None
    }
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        // a = Concat(y, 0_k) [maybe zext'ed]; b fits in k bits.
        let w = self.w(a);
        let n0 = self.n(a);
        let (inner, n) = if n0.op == Op::ZExt { (n0.a, self.n(n0.a)) } else { (a, n0) };
        if n.op != Op::Concat { return None; }
        if self.cv(n.b) != Some(0) { return None; }
        let k = self.w(n.b);
        let r = self.range(b);
        if w <= 64 && r.1 <= mask(k) {
            let lo = self.extract(b, 0, k);
            let t = self.concat(n.a, lo);
            debug_assert_eq!(self.w(t), self.w(inner));
            return Some(self.zext(t, w));
        }
        if w > 64 {
            let nb = self.n(b);
            let ok = (nb.op == Op::ZExt && self.w(nb.a) <= k) || self.cv(b).map_or(false, |v| v <= mask(k));
            if ok { let lo = self.extract(b, 0, k); let t = self.concat(n.a, lo); return Some(self.zext(t, w)); }
        }
        None
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (x, y) = (self.n(a), self.n(b));
        (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.cv(a) { return self.constant(x.wrapping_neg(), w); }
        let n = self.n(a);
        if n.op == Op::Neg { return n.a; }
        if n.op == Op::Sub { return self.bin(Op::Sub, n.b, n.a); }
        if let Some((c, x, y)) = self.ite_consts(a) { let p = self.constant(x.wrapping_neg(), w); let q = self.constant(y.wrapping_neg(), w); return self.ite(c, p, q); }
        self.mk(Op::Neg, w, a, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        let n = self.n(a);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.constant(v >> lo, w); }
            Op::Extract => return self.extract(n.a, lo + n.b as u16, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.constant(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, w); }
            }
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - bw);
                let l = self.extract(n.b, lo, bw - lo);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => { let x = self.extract(n.a, lo, w); return self.not(x); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => if let Some(k) = self.cv(n.b) {
                // (x << k) is x's low bits over k zeros
                let k = k as u16;
                if k < aw {
                    if lo >= k { return self.extract(n.a, lo - k, w); }
                    if lo + w <= k { return self.constant(0, w); }
                }
            },
            Op::Neg if lo == 0 => { let x = self.extract(n.a, 0, w); return self.neg(x); }
            _ => (),
        }
        self.mk(Op::Extract, w, a, lo as u32, 0)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(aw <= w);
        if aw == w { return a; }
        let n = self.n(a);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; self.constant(v, w) }
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.zext(n.b, w); let y = self.zext(n.c, w); self.ite(n.a, x, y) }
            _ => self.mk(Op::ZExt, w, a, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        let n = self.n(a);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; self.constant(sx(v, aw) as u128, w) }
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let x = self.sext(n.b, w); let y = self.sext(n.c, w); self.ite(n.a, x, y) }
            _ => {
                if aw > 1 && aw <= 64 && self.range(a).1 < (1u128 << (aw - 1)) { return self.zext(a, w); }
                self.mk(Op::SExt, w, a, 0, 0)
            }
        }
    }
    /// `a` supplies the high bits.
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (aw, bw) = (self.w(a), self.w(b));
        let w = aw + bw;
        if w <= 128 { if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.constant((x << bw) | y, w); } }
        if self.cv(a) == Some(0) { return self.zext(b, w); }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Concat { let t = self.concat(na.b, b); return self.concat(na.a, t); }
        if let Some(t) = self.merge(a, b) { return t; }
        if nb.op == Op::Concat { if let Some(t) = self.merge(a, nb.a) { return self.concat(t, nb.b); } }
        self.mk(Op::Concat, w, a, b, 0)
    }
    fn merge(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Extract {
            if nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + nb.w as u32 { return Some(self.extract(na.a, nb.b as u16, na.w + nb.w)); }
            if na.a == b && na.b == nb.w as u32 { return None; }
            let ni = self.n(na.a);
            if ni.op == Op::SExt && ni.a == b && na.b == nb.w as u32 { return Some(self.sext(b, na.w + nb.w)); }
        }
        if let (Some((c, x1, x2)), Some((d, y1, y2))) = (self.ite_consts(a), self.ite_consts(b)) {
            if c == d && na.w + nb.w <= 128 {
                let w = na.w + nb.w;
                let p = self.constant((x1 << nb.w) | y1, w);
                let q = self.constant((x2 << nb.w) | y2, w);
                return Some(self.ite(c, p, q));
            }
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => (),
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let t = self.or(c, nb.a); return self.ite(t, a, nb.c); }
        // x == k ? k : x  ->  x
        if nc.op == Op::Eq && ((nc.a == a && nc.b == b) || (nc.a == b && nc.b == a)) { return b; }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tt(); }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        let n = self.n(a);
        if let Some(y) = self.cv(b) {
            if self.cv(a).is_some() { return self.ff(); }
            if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            match n.op {
                Op::ZExt => { let iw = self.w(n.a); if y > mask(iw) { return self.ff(); } let k = self.constant(y, iw); return self.eq(n.a, k); }
                Op::SExt => { let iw = self.w(n.a); if sx(y & mask(iw), iw) as u128 & mask(w) != y { return self.ff(); } let k = self.constant(y, iw); return self.eq(n.a, k); }
                Op::Concat => {
                    let bw = self.w(n.b);
                    let kh = self.constant(y >> bw, w - bw);
                    let kl = self.constant(y, bw);
                    let p = self.eq(n.a, kh);
                    let q = self.eq(n.b, kl);
                    return self.and(p, q);
                }
                Op::Add => { if let Some(z) = self.cv(n.b) { let k = self.constant(y.wrapping_sub(z), w); return self.eq(n.a, k); } }
                Op::Xor => { if let Some(z) = self.cv(n.b) { let k = self.constant(y ^ z, w); return self.eq(n.a, k); } if y == 0 { return self.eq(n.a, n.b); } }
                Op::Sub if y == 0 => return self.eq(n.a, n.b),
                Op::Not => { let k = self.constant(!y, w); return self.eq(n.a, k); }
                Op::Neg => { let k = self.constant(y.wrapping_neg(), w); return self.eq(n.a, k); }
                Op::Ite => {
                    let (p, q) = (self.cv(n.b), self.cv(n.c));
                    if p.is_some() || q.is_some() {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.c, b);
                        return self.ite(n.a, p, q);
                    }
                }
                Op::Or if y == 0 => { let z = self.constant(0, w); let p = self.eq(n.a, z); let q = self.eq(n.b, z); return self.and(p, q); }
                _ => (),
            }
            if w <= 64 { let r = self.range(a); if y < r.0 || y > r.1 { return self.ff(); } }
            return self.mk(Op::Eq, 1, a, b, 0);
        }
        let nb = self.n(b);
        if n.op == nb.op && (n.op == Op::ZExt || n.op == Op::SExt) && self.w(n.a) == self.w(nb.a) { return self.eq(n.a, nb.a); }
        if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) { let p = self.eq(n.a, nb.a); let q = self.eq(n.b, nb.b); return self.and(p, q); }
        if n.op == Op::Add && nb.op == Op::Add && n.b == nb.b { return self.eq(n.a, nb.a); }
        if w == 1 { let t = self.bin(Op::Xor, a, b); return self.not(t); }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.ff(); }
        let (ra, rb) = (self.range(a), self.range(b));
        let w = self.w(a);
        if w <= 64 || (self.cv(a).is_some() && self.cv(b).is_some()) {
            if ra.1 < rb.0 { return self.tt(); }
            if ra.0 >= rb.1 { return self.ff(); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(y) = self.cv(b) {
            if y == 0 { return self.ff(); }
            if y == 1 { let z = self.constant(0, w); return self.eq(a, z); }
            if y == mask(w) { let t = self.eq(a, b); return self.not(t); }
            if na.op == Op::ZExt { let iw = self.w(na.a); if y > mask(iw) { return self.tt(); } let k = self.constant(y, iw); return self.ult(na.a, k); }
        }
        if let Some(x) = self.cv(a) {
            if x == mask(w) { return self.ff(); }
            if x == 0 { let t = self.eq(a, b); return self.not(t); }
            if nb.op == Op::ZExt { let iw = self.w(nb.a); if x >= mask(iw) { return self.ff(); } let k = self.constant(x, iw); return self.ult(k, nb.a); }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.ult(na.a, nb.a); }
        if let (Some((c, x, y)), Some(k)) = (self.ite_consts(a), self.cv(b)) { let p = self.constant((x < k) as u128, 1); let q = self.constant((y < k) as u128, 1); return self.ite(c, p, q); }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.tt(); }
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == mask(w) { return self.tt(); }
            let k = self.constant(y + 1, w);
            return self.ult(a, k);
        }
        if let Some(x) = self.cv(a) {
            if x == 0 { return self.tt(); }
            let k = self.constant(x - 1, w);
            return self.ult(k, b);
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if w <= 64 {
            if ra.1 <= rb.0 { return self.tt(); }
            if ra.0 > rb.1 { return self.ff(); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.ule(na.a, nb.a); }
        self.mk(Op::Ule, 1, a, b, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.ff(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.constant((sx(x, w) < sx(y, w)) as u128, 1); }
        let (na, nb) = (self.n(a), self.n(b));
        if w <= 64 {
            let h = 1u128 << (w - 1);
            let (ra, rb) = (self.range(a), self.range(b));
            if ra.1 < h && rb.1 < h { return self.ult(a, b); }
            if ra.1 < h && rb.0 >= h { return self.ff(); }
            if ra.0 >= h && rb.1 < h { return self.tt(); }
            if ra.0 >= h && rb.0 >= h { return self.ult(a, b); }
        }
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.slt(na.a, nb.a); }
        if na.op == Op::SExt { if let Some(y) = self.cv(b) {
            let iw = self.w(na.a);
            let y = sx(y, w);
            let (mn, mx) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
            if y > mx { return self.tt(); }
            if y <= mn { return self.ff(); }
            let k = self.constant(y as u128, iw);
            return self.slt(na.a, k);
        } }
        if nb.op == Op::SExt { if let Some(x) = self.cv(a) {
            let iw = self.w(nb.a);
            let x = sx(x, w);
            let (mn, mx) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
            if x < mn { return self.tt(); }
            if x >= mx { return self.ff(); }
            let k = self.constant(x as u128, iw);
            return self.slt(k, nb.a);
        } }
        if let Some(y) = self.cv(b) {
            if let Some((c, x1, x2)) = self.ite_consts(a) { let p = self.constant((sx(x1, w) < sx(y, w)) as u128, 1); let q = self.constant((sx(x2, w) < sx(y, w)) as u128, 1); return self.ite(c, p, q); }
        }
        if let Some(x) = self.cv(a) {
            if let Some((c, y1, y2)) = self.ite_consts(b) { let p = self.constant((sx(x, w) < sx(y1, w)) as u128, 1); let q = self.constant((sx(x, w) < sx(y2, w)) as u128, 1); return self.ite(c, p, q); }
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return self.tt(); }
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if sx(y, w) == sx(mask(w) >> 1, w) { return self.tt(); }
            let k = self.constant(y.wrapping_add(1), w);
            return self.slt(a, k);
        }
        if let Some(x) = self.cv(a) {
            if x == 1u128 << (w - 1) { return self.tt(); }
            let k = self.constant(x.wrapping_sub(1), w);
            return self.slt(k, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.sle(na.a, nb.a); }
        if w <= 64 {
            let h = 1u128 << (w - 1);
            let (ra, rb) = (self.range(a), self.range(b));
            if ra.1 < h && rb.1 < h { return self.ule(a, b); }
            if ra.1 < h && rb.0 >= h { return self.ff(); }
            if ra.0 >= h && rb.1 < h { return self.tt(); }
        }
        self.mk(Op::Sle, 1, a, b, 0)
    }
    pub fn mulo(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.constant(fold(op, 1, w, x, y, 0, 0), 1); }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.cv(x) {
                if k == 0 || k == 1 { return self.ff(); }
                if op == Op::UMulO { let lim = self.constant(mask(w) / k, w); return self.ult(lim, y); }
                // signed by a positive constant
                let s = sx(k, w);
                if s > 1 {
                    let mx = (mask(w) >> 1) as i128;
                    let mn = -mx - 1;
                    let hi = self.constant((mx / s) as u128, w);
                    let lo = self.constant((mn / s) as u128, w);
                    let p = self.slt(hi, y);
                    let q = self.slt(y, lo);
                    return self.or(p, q);
                }
            }
        }
        if op == Op::UMulO && w <= 64 { let (x, y) = (self.range(a), self.range(b)); if x.1.checked_mul(y.1).map_or(false, |p| p <= mask(w)) { return self.ff(); } }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(op, 1, a, b, 0)
    }
    /// Floating-point unary/conversion with result width w.
    pub fn fun(&mut self, op: Op, a: E, w: u16) -> E {
        let aw = self.w(a);
        if let Some(x) = self.cv(a) { return self.constant(fold(op, w, aw, x, 0, 0, 0), w); }
        let n = self.n(a);
        if (op == Op::SIToFp && n.op == Op::SExt) || (op == Op::SIToFp && n.op == Op::ZExt) {
            // sitofp of an extension of x equals the conversion of x when exact; keep one form.
            if n.op == Op::ZExt { return self.fun(Op::UIToFp, n.a, w); }
            return self.fun(Op::SIToFp, n.a, w);
        }
        if op == Op::UIToFp && n.op == Op::ZExt { return self.fun(Op::UIToFp, n.a, w); }
        if op == Op::FIsNan && self.not_nan(a, 4) { return self.ff(); }
        // An integral value (or NaN, or infinity) is its own rounding.
        let integral = |o: Op| matches!(o, Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRoundA | Op::FRoundE | Op::SIToFp | Op::UIToFp);
        if matches!(op, Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRoundA | Op::FRoundE) && integral(n.op) { return a; }
        if op == Op::FpToSI && n.op == Op::SIToFp {
            let iw = self.w(n.a);
            let exact = if aw == 64 { 53 } else { 24 };
            if iw <= exact && iw <= w { return self.sext(n.a, w); }
        }
        if let Some((c, x, y)) = self.ite_consts(a) { let p = self.constant(fold(op, w, aw, x, 0, 0, 0), w); let q = self.constant(fold(op, w, aw, y, 0, 0, 0), w); return self.ite(c, p, q); }
        self.mk(op, w, a, 0, 0)
    }
    fn not_nan(&self, e: E, d: u32) -> bool {
        if let Some(c) = self.cv(e) { return self.w(e) == 64 && !f64of(c).is_nan(); }
        let n = self.n(e);
        let plain = |x: E| self.w(e) == 64 && self.cv(x).map_or(false, |c| f64of(c).is_finite() && f64of(c) != 0.0);
        match n.op {
            Op::SIToFp | Op::UIToFp => true,
            _ if d == 0 => false,
            Op::FDiv => plain(n.b) && self.not_nan(n.a, d - 1),
            Op::FMul => plain(n.b) && self.not_nan(n.a, d - 1) || plain(n.a) && self.not_nan(n.b, d - 1),
            Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRoundA | Op::FRoundE => self.not_nan(n.a, d - 1),
            _ => false,
        }
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.constant(fold(op, w, w, x, y, 0, 0), w); }
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul) && a > b { (b, a) } else { (a, b) };
        self.mk(op, w, a, b, 0)
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.constant(fold(op, 1, w, x, y, 0, 0), 1); }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SIToFp && nb.op == Op::SIToFp && self.w(na.a) == self.w(nb.a) && w == 64 && self.w(na.a) <= 32 {
            return match op { Op::FEq => self.eq(na.a, nb.a), Op::FLt => self.slt(na.a, nb.a), Op::FLe => self.sle(na.a, nb.a), _ => unreachable!() };
        }
        if a == b && self.not_nan(a, 4) { return if op == Op::FLt { self.ff() } else { self.tt() }; }
        let (a, b) = if op == Op::FEq && a > b { (b, a) } else { (a, b) };
        self.mk(op, 1, a, b, 0)
    }
    pub fn uf(&mut self, name: &str, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.constant(uf_apply(name, x, y), 64); }
        let i = match self.uf_names.iter().position(|n| n == name) { Some(i) => i, None => { self.uf_names.push(name.to_string()); self.uf_names.len() - 1 } };
        self.mk(Op::Uf, 64, a, b, i as u32)
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if let Some(c) = self.cv(e) { return format!("{:#x}:{}", c, n.w); }
        if n.op == Op::Var { return self.var_names[n.a as usize].clone(); }
        if d == 0 { return "..".into(); }
        let mut s = format!("({:?}", n.op);
        if n.op == Op::Extract { s += &format!("[{}+{}] {}", n.b, n.w, self.show(n.a, d - 1)); }
        else { for (i, x) in [n.a, n.b, n.c].iter().enumerate() { if i < nargs(n.op) { s += " "; s += &self.show(*x, d - 1); } } }
        if matches!(n.op, Op::ZExt | Op::SExt) { s += &format!("->{}", n.w); }
        s + ")"
    }
}

fn join(a: u32, b: u32) -> u32 {
    if a == 0 { b } else if b == 0 || a == b { a } else { u32::MAX }
}

pub fn nargs(op: Op) -> usize {
    match op {
        Op::Const | Op::Var => 0,
        Op::Not | Op::Neg | Op::Extract | Op::ZExt | Op::SExt | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc
        | Op::FRoundA | Op::FRoundE | Op::FIsNan | Op::FpToSI | Op::FpToUI | Op::SIToFp | Op::UIToFp | Op::FpExt | Op::FpTrunc => 1,
        Op::Ite => 3,
        _ => 2,
    }
}

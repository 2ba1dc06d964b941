//! The language: control flow, arrays, callables, errors, data, incremental compilation.
use rt::lang::*;
use std::rc::Rc;

fn ti(k: usize) -> V { V::S(format!("ti{}", k)) }
fn tb(k: usize) -> V { V::S(format!("tb{}", k)) }
fn ints(w: &World) -> Vec<i32> { w.ints.borrow().clone() }
fn push_int(w: &World, v: i32) { w.ints.borrow_mut().push(v); }
fn push_bool(w: &World, v: bool) { w.bools.borrow_mut().push(v); }
fn small(lo: i32, hi: i32) -> i32 { let v = rt::i32_(); rt::assume((v >= lo) & (v <= hi)); v }

/// Joins statements with newlines or with colons, as the case selects.
fn join(lines: &[String], colon: bool) -> String { lines.join(if colon { ": " } else { "\n" }) }

// ---------------------------------------------------------------------------- control flow

#[derive(Clone)]
enum C { B(usize), Eq(&'static str, usize) }
#[derive(Clone)]
enum S {
    Out(i32),
    OutVar(&'static str),
    Let(&'static str, usize),
    /// v = v + k
    Inc(&'static str, i32),
    If(Vec<(C, Vec<S>)>, Option<Vec<S>>),
    /// variable, start and end value indices, step
    For(&'static str, usize, usize, Option<i32>, Vec<S>),
    /// kind, counter, limit value index, body
    Loop(usize, &'static str, usize, Vec<S>),
    Select(usize, Vec<(Vec<G>, Vec<S>)>, Option<Vec<S>>),
    ExitFor,
    ExitDo,
    End(usize),
}
#[derive(Clone)]
enum G { Eq(usize), Is(usize, usize), To(usize, usize) }
const REL: [&str; 6] = ["=", "<>", "<", "<=", ">", ">="];

fn cond(c: &C) -> String { match c { C::B(k) => format!("TB({})", k), C::Eq(v, k) => format!("{} = IV({})", v, k) } }

fn emit(s: &S, out: &mut Vec<String>) {
    let mut body = |b: &[S], out: &mut Vec<String>| { for s in b { emit(s, out); } };
    match s {
        S::Out(k) => out.push(format!("OUT {}", k)),
        S::OutVar(v) => out.push(format!("OUT {}", v)),
        S::Let(v, k) => out.push(format!("{} = IV({})", v, k)),
        S::Inc(v, k) => out.push(format!("{} = {} + {}", v, v, k)),
        S::If(bs, e) => {
            for (i, (c, b)) in bs.iter().enumerate() {
                out.push(format!("{} {} THEN", if i == 0 { "IF" } else { "ELSEIF" }, cond(c)));
                body(b, out);
            }
            if let Some(e) = e { out.push("ELSE".to_owned()); body(e, out); }
            out.push("END IF".to_owned());
        }
        S::For(v, a, b, st, bd) => {
            let st = match st { None => String::new(), Some(k) => format!(" STEP {}", k) };
            out.push(format!("FOR {} = IV({}) TO IV({}){}", v, a, b, st));
            body(bd, out);
            out.push("NEXT".to_owned());
        }
        S::Loop(k, c, lim, bd) => {
            let (head, tail) = match k {
                0 => (format!("WHILE {} < IV({})", c, lim), "WEND".to_owned()),
                1 => (format!("DO WHILE {} < IV({})", c, lim), "LOOP".to_owned()),
                2 => (format!("DO UNTIL {} >= IV({})", c, lim), "LOOP".to_owned()),
                3 => ("DO".to_owned(), format!("LOOP WHILE {} < IV({})", c, lim)),
                4 => ("DO".to_owned(), format!("LOOP UNTIL {} >= IV({})", c, lim)),
                _ => ("DO".to_owned(), "LOOP".to_owned()),
            };
            out.push(head);
            out.push(format!("{} = {} + 1", c, c));
            body(bd, out);
            if *k > 4 { out.push(format!("IF {} >= IV({}) THEN EXIT DO", c, lim)); }
            out.push(tail);
        }
        S::Select(t, cs, e) => {
            out.push(format!("SELECT CASE TI({})", t));
            for (gs, b) in cs {
                let g: Vec<String> = gs.iter().map(|g| match g { G::Eq(k) => format!("IV({})", k), G::Is(r, k) => format!("IS {} IV({})", REL[*r], k), G::To(a, b) => format!("IV({}) TO IV({})", a, b) }).collect();
                out.push(format!("CASE {}", g.join(", ")));
                body(b, out);
            }
            if let Some(e) = e { out.push("CASE ELSE".to_owned()); body(e, out); }
            out.push("END SELECT".to_owned());
        }
        S::ExitFor => out.push("EXIT FOR".to_owned()),
        S::ExitDo => out.push("EXIT DO".to_owned()),
        S::End(k) => out.push(format!("END IV({})", k)),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Flow { Next, ExitFor, ExitDo, End(i32), Fail }

/// The reference meaning of a program.
struct Ref { vars: Vec<(&'static str, i32)>, iv: Vec<i32>, bv: Vec<bool>, outs: Vec<V>, err: &'static str }
impl Ref {
    fn get(&self, v: &str) -> i32 { self.vars.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0) }
    fn set(&mut self, v: &'static str, k: i32) {
        for x in &mut self.vars { if x.0 == v { x.1 = k; return; } }
        self.vars.push((v, k));
    }
    fn add(&mut self, v: &'static str, k: i32) -> bool {
        match self.get(v).checked_add(k) { Some(x) => { self.set(v, x); true } None => { self.err = "Integer overflow"; false } }
    }
    fn cond(&mut self, c: &C) -> bool {
        match c { C::B(k) => { self.outs.push(tb(*k)); self.bv[*k] } C::Eq(v, k) => self.get(v) == self.iv[*k] }
    }
    fn block(&mut self, b: &[S]) -> Flow { for s in b { let f = self.stmt(s); if f != Flow::Next { return f; } } Flow::Next }
    fn stmt(&mut self, s: &S) -> Flow {
        match s {
            S::Out(k) => self.outs.push(V::I(*k)),
            S::OutVar(v) => { let x = self.get(v); self.outs.push(V::I(x)) }
            S::Let(v, k) => { let x = self.iv[*k]; self.set(v, x) }
            S::Inc(v, k) => if !self.add(v, *k) { return Flow::Fail; },
            S::If(bs, e) => {
                for (c, b) in bs { if self.cond(c) { return self.block(b); } }
                if let Some(e) = e { return self.block(e); }
            }
            S::For(v, a, b, st, bd) => {
                let x = self.iv[*a];
                self.set(v, x);
                let st = st.unwrap_or(1);
                loop {
                    let (x, lim) = (self.get(v), self.iv[*b]);
                    if if st < 0 { x < lim } else { x > lim } { break; }
                    match self.block(bd) { Flow::Next => (), Flow::ExitFor => break, f => return f }
                    if !self.add(v, st) { return Flow::Fail; }
                }
            }
            S::Loop(k, c, lim, bd) => loop {
                let more = |r: &Ref| r.get(c) < r.iv[*lim];
                if *k < 3 && !more(self) { break; }
                if !self.add(c, 1) { return Flow::Fail; }
                match self.block(bd) { Flow::Next => (), Flow::ExitDo if *k > 0 => break, f => return f }
                if *k >= 3 && !more(self) { break; }
            },
            S::Select(t, cs, e) => {
                self.outs.push(ti(*t));
                let x = self.iv[*t];
                for (gs, b) in cs {
                    for g in gs {
                        let hit = match g {
                            G::Eq(k) => x == self.iv[*k],
                            G::Is(r, k) => { let y = self.iv[*k]; match r { 0 => x == y, 1 => x != y, 2 => x < y, 3 => x <= y, 4 => x > y, _ => x >= y } }
                            G::To(a, b) => x >= self.iv[*a] && x <= self.iv[*b],
                        };
                        if hit { return self.block(b); }
                    }
                }
                if let Some(e) = e { return self.block(e); }
            }
            S::ExitFor => return Flow::ExitFor,
            S::ExitDo => return Flow::ExitDo,
            S::End(k) => return Flow::End(self.iv[*k]),
        }
        Flow::Next
    }
}

/// Runs the program and its reference, and compares everything observable.
fn agree(w: &Rc<World>, prog: &[S], colon: bool) {
    let mut lines = vec![];
    for s in prog { emit(s, &mut lines); }
    let src = join(&lines, colon);
    rt::log(&src);
    let mut r = Ref { vars: vec![], iv: ints(w), bv: w.bools.borrow().clone(), outs: vec![], err: "" };
    let f = r.block(prog);
    let o = run(w, &src);
    rt::observe("outcome", o.code());
    expect_outs(w, &r.outs, "statements run in the order the language defines");
    match f {
        Flow::Fail => { rt::check(o.is_exc(r.err), "overflow of a counter is an error"); rt::cover("overflow"); }
        Flow::End(c) => {
            if c >= 0 && c <= 127 { rt::check(matches!(o, Outcome::End(x) if x == c), "END stops with its exit code"); rt::cover("end"); }
            else { rt::check(matches!(o, Outcome::Exc(..)), "END with a bad exit code is an error"); rt::cover("bad end"); }
        }
        _ => { rt::check(matches!(o, Outcome::Eof), "the program runs to its end"); rt::cover("eof"); }
    }
}

/// IF chains: any number of branches, with or without ELSE, nested, one line or many.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_if(_case: u32) {
    let w = world();
    for _ in 0..4 { push_bool(&w, rt::bool_()); }
    let n = rt::choose(3) + 1;
    let has_else = rt::choose(2) == 1;
    let nest = rt::choose(3);
    let inner = S::If(vec![(C::B(3), vec![S::Out(50)])], Some(vec![S::Out(51)]));
    let mut bs = vec![];
    for k in 0..n { let mut b = vec![S::Out(10 + k as i32)]; if nest == 1 && k == n - 1 { b.push(inner.clone()); b.push(S::Out(60)); } bs.push((C::B(k), b)); }
    let e = if has_else { let mut b = vec![S::Out(20)]; if nest == 2 { b.insert(0, inner); } Some(b) } else { None };
    agree(&w, &[S::Out(1), S::If(bs, e), S::Out(2)], rt::choose(2) == 1);
}

/// Single-line IF.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_if_line(_case: u32) {
    let w = world();
    let (a, b) = (rt::bool_(), rt::bool_());
    push_bool(&w, a);
    push_bool(&w, b);
    let f = rt::choose(4);
    let src = ["OUT 1\nIF TB(0) THEN OUT 2\nOUT 3", "OUT 1\nIF TB(0) THEN OUT 2 ELSE OUT 4\nOUT 3", "IF TB(0) THEN\nOUT 2\nELSEIF TB(1) THEN\nOUT 5\nELSE\nOUT 4\nEND IF\nOUT 3", "IF TB(0) THEN GOTO @x\nOUT 2\n@x\nIF TB(1) THEN a = 7 ELSE a = 8\nOUT a"][f];
    let o = run(&w, src);
    let mut want = vec![];
    match f {
        0 => { want.extend([V::I(1), tb(0)]); if a { want.push(V::I(2)); } want.push(V::I(3)); }
        1 => { want.extend([V::I(1), tb(0), V::I(if a { 2 } else { 4 }), V::I(3)]); }
        2 => { want.push(tb(0)); if a { want.push(V::I(2)); } else { want.extend([tb(1), V::I(if b { 5 } else { 4 })]); } want.push(V::I(3)); }
        _ => { want.push(tb(0)); if !a { want.push(V::I(2)); } want.extend([tb(1), V::I(if b { 7 } else { 8 })]); }
    }
    rt::check(o.ok(), "completes");
    expect_outs(&w, &want, "exactly one branch runs");
}

/// SELECT over arbitrary integers: values, relations and ranges, first match wins.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_select(case: u32) {
    let w = world();
    for _ in 0..5 { push_int(&w, rt::i32_()); }
    let g1 = match case {
        0 => vec![G::Eq(1)],
        1 => vec![G::Eq(1), G::Eq(2)],
        2 => vec![G::To(1, 2)],
        3 => vec![G::Is(rt::choose(6), 1)],
        4 => vec![G::Eq(1), G::To(2, 3)],
        _ => vec![G::Is(rt::choose(6), 1), G::Is(rt::choose(6), 2)],
    };
    let g2 = match rt::choose(3) { 0 => vec![G::Eq(4)], 1 => vec![G::Is(rt::pick(&[2, 5]), 4)], _ => vec![G::To(3, 4), G::Eq(0)] };
    let e = match rt::choose(2) { 0 => None, _ => Some(vec![S::Out(30)]) };
    let two = rt::choose(2) == 1;
    let mut cs = vec![(g1, vec![S::Out(10)])];
    if two { cs.push((g2, vec![S::Out(20), S::Out(21)])); }
    agree(&w, &[S::Select(0, cs, e), S::Out(2)], false);
}

/// SELECT over the other types.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_select_types(case: u32) {
    let w = world();
    let rel = rt::choose(6);
    let (src, hit);
    match case {
        0 => {
            let (a, b) = (rt::f64_(), rt::f64_());
            w.dbls.borrow_mut().extend([a, b]);
            src = format!("SELECT CASE DV(0)\nCASE IS {} DV(1)\nOUT 1\nCASE ELSE\nOUT 2\nEND SELECT", REL[rel]);
            hit = match rel { 0 => a == b, 1 => a != b, 2 => a < b, 3 => a <= b, 4 => a > b, _ => a >= b };
        }
        1 => {
            let (a, b) = (rt::i32_(), rt::f64_());
            push_int(&w, a);
            w.dbls.borrow_mut().push(b);
            let swap = rt::choose(2) == 1;
            let x = a as f64;
            src = format!("SELECT CASE {}\nCASE IS {} {}\nOUT 1\nCASE ELSE\nOUT 2\nEND SELECT", if swap { "DV(0)" } else { "IV(0)" }, REL[rel], if swap { "IV(0)" } else { "DV(0)" });
            let (x, y) = if swap { (b, x) } else { (x, b) };
            hit = match rel { 0 => x == y, 1 => x != y, 2 => x < y, 3 => x <= y, 4 => x > y, _ => x >= y };
        }
        2 => {
            let (a, b) = (rt::u8_() & 127, rt::u8_() & 127);
            w.strs.borrow_mut().extend([(a as char).to_string(), (b as char).to_string()]);
            src = format!("SELECT CASE SV(0)\nCASE IS {} SV(1)\nOUT 1\nCASE ELSE\nOUT 2\nEND SELECT", REL[rel]);
            hit = match rel { 0 => a == b, 1 => a != b, 2 => a < b, 3 => a <= b, 4 => a > b, _ => a >= b };
        }
        3 => {
            let (a, b) = (rt::bool_(), rt::bool_());
            push_bool(&w, a);
            push_bool(&w, b);
            rt::assume(rel < 2);
            src = format!("SELECT CASE BV(0)\nCASE IS {} BV(1)\nOUT 1\nCASE ELSE\nOUT 2\nEND SELECT", REL[rel]);
            hit = (a == b) == (rel == 0);
        }
        _ => {
            let (a, b, c) = (rt::f64_(), rt::f64_(), rt::i32_());
            w.dbls.borrow_mut().extend([a, b]);
            push_int(&w, c);
            src = "SELECT CASE DV(0)\nCASE DV(1) TO IV(0)\nOUT 1\nCASE ELSE\nOUT 2\nEND SELECT".to_owned();
            hit = a >= b && a <= c as f64;
        }
    }
    let o = run(&w, &src);
    rt::check(o.ok(), "completes");
    expect_outs(&w, &[V::I(if hit { 1 } else { 2 })], "the first matching case runs");
}

/// FOR over every start, end and a set of steps, a few iterations long, including at the limits.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_for(case: u32) {
    let w = world();
    let (a, b) = (rt::i32_(), rt::i32_());
    let step = [None, Some(1), Some(2), Some(-1), Some(-3), Some(3)][case as usize];
    let st = step.unwrap_or(1) as i64;
    let span = (b as i64 - a as i64) * st.signum();
    rt::assume(span < 3 * st.abs());
    push_int(&w, a);
    push_int(&w, b);
    push_int(&w, rt::i32_());
    let form = rt::choose(4);
    let mut body = vec![S::OutVar("i")];
    match form {
        1 => body.push(S::If(vec![(C::Eq("i", 2), vec![S::ExitFor])], None)),
        2 => { body.push(S::If(vec![(C::Eq("i", 2), vec![S::Inc("i", st.signum() as i32)])], None)); }
        3 => { body.push(S::Let("i", 2)); }
        _ => (),
    }
    if form == 3 { rt::assume((ints(&w)[2] as i64 - b as i64) * st.signum() > 0); }
    body.push(S::Out(9));
    agree(&w, &[S::For("i", 0, 1, step, body), S::OutVar("i")], rt::choose(2) == 1);
}

/// FOR over doubles.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_for_double(case: u32) {
    let w = world();
    let a = rt::pick(&[0.0, 1.5, -2.25]);
    let b = rt::f64_();
    w.dbls.borrow_mut().extend([a, b]);
    let st = [0.5, -0.5, 0.75][case as usize % 3];
    rt::assume(if st > 0.0 { b < a + 2.0 } else { b > a - 2.0 });
    let typed = rt::choose(2) == 1;
    let o = run(&w, &format!("FOR i{} = DV(0) TO DV(1) STEP {}\nOUT i\nNEXT\nOUT i", if typed { "#" } else { "" }, st));
    let mut want = vec![];
    let mut x = a;
    for _ in 0..6 { if if st > 0.0 { x <= b } else { x >= b } { want.push(V::D(x)); x += st; } }
    want.push(V::D(x));
    rt::check(o.ok(), "completes");
    expect_outs(&w, &want, "double loops step exactly");
}

/// Every kind of loop inside every other, with early exits from either.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_nest(case: u32) {
    let (ko, ki) = ((case / 7) as usize, (case % 7) as usize);
    let w = world();
    for _ in 0..3 { let v = small(0, 2); push_int(&w, v); }
    push_int(&w, 1);
    push_int(&w, small(-1, 128));
    let leaf = match rt::choose(6) { 0 => S::Out(5), 1 => S::ExitFor, 2 => S::ExitDo, 3 => S::If(vec![(C::Eq("i", 2), vec![S::ExitFor])], None), 4 => S::If(vec![(C::Eq("n", 2), vec![S::ExitDo])], None), _ => S::If(vec![(C::Eq("n", 2), vec![S::End(4)])], None) };
    let tail = match rt::choose(4) { 0 => S::Out(6), 1 => S::ExitFor, 2 => S::ExitDo, _ => S::If(vec![(C::Eq("i", 2), vec![S::ExitDo])], None) };
    let mk = |k: usize, c: &'static str, f: &'static str, lim: usize, body: Vec<S>| if k == 6 { S::For(f, 3, lim, None, body) } else { S::Loop(k, c, lim, body) };
    let inner = mk(ki, "n", "i", 0, vec![leaf.clone(), S::Out(1)]);
    let outer = mk(ko, "m", "j", 1, vec![S::Let("n", 2), inner, S::OutVar("n"), S::OutVar("i"), tail.clone(), S::Out(2)]);
    // An EXIT needs a loop of its kind around it.
    let has_for = |s: &S| matches!(s, S::ExitFor) || matches!(s, S::If(b, _) if matches!(b[0].1[0], S::ExitFor));
    let has_do = |s: &S| matches!(s, S::ExitDo) || matches!(s, S::If(b, _) if matches!(b[0].1[0], S::ExitDo));
    let (isfor, isdo) = (|k: usize| k == 6, |k: usize| (1..6).contains(&k));
    rt::assume(!has_for(&leaf) || isfor(ki) || isfor(ko));
    rt::assume(!has_do(&leaf) || isdo(ki) || isdo(ko));
    rt::assume(!has_for(&tail) || isfor(ko));
    rt::assume(!has_do(&tail) || isdo(ko));
    // An inner infinite loop that never reaches its limit would not stop.
    agree(&w, &[S::Inc("i", 0), S::Inc("m", 0), S::Inc("n", 0), outer, S::OutVar("m"), S::OutVar("j")][..].iter().map(|s| match s { S::Inc(v, 0) => S::Let(v, 3), S::OutVar("j") if ko != 6 => S::Out(0), s => s.clone() }).collect::<Vec<_>>(), false);
}

/// GOTO, GOSUB, RETURN and labels.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_jumps(case: u32) {
    let w = world();
    for _ in 0..3 { push_int(&w, small(0, 4)); }
    let i = ints(&w);
    let mut want = vec![];
    let mut err = None;
    let src = match case {
        0 => {
            // A loop out of jumps.
            for k in 0..5 { if k < i[0] { want.push(V::I(k)); } }
            want.push(V::I(99));
            "k = 0\n@top\nIF k >= IV(0) THEN GOTO @out\nOUT k\nk = k + 1\nGOTO @top\n@out\nOUT 99"
        }
        1 => {
            for _ in 0..2 { want.extend([V::I(7), V::I(8)]); }
            want.push(V::I(9));
            "GOSUB @a\nGOSUB 100\nOUT 9\nEND\n100 GOTO @a\n@a\nOUT 7\nGOSUB @b\nRETURN\n@b\nOUT 8\nRETURN"
        }
        2 => {
            // Recursion through GOSUB to a symbolic depth.
            for k in 0..=i[0] { want.push(V::I(k)); }
            for k in (0..=i[0]).rev() { want.push(V::I(10 + k)); }
            "k = 0\nGOSUB @r\nEND\n@r\nOUT k\nIF k < IV(0) THEN\nk = k + 1: GOSUB @r: k = k - 1\nEND IF\nOUT 10 + k\nRETURN"
        }
        3 => { want.push(V::I(1)); err = Some("RETURN without GOSUB or FUNCTION call"); "OUT 1\nRETURN\nOUT 2" }
        4 => {
            // Jumps into and out of blocks.
            if i[0] == 1 { want.extend([V::I(2), V::I(4)]); } else { want.extend([V::I(1), V::I(2), V::I(4)]); }
            "IF IV(0) = 1 THEN GOTO @in\nIF TRUE THEN\nOUT 1\n@in\nOUT 2\nGOTO @done\nEND IF\nOUT 3\n@done\nOUT 4"
        }
        5 => {
            for k in 1..=3 { want.push(V::I(k)); if k == i[0] { break; } }
            want.push(V::I(77));
            "FOR k = 1 TO 3\nOUT k\nIF k = IV(0) THEN GOTO @out\nNEXT\n@out\nOUT 77"
        }
        _ => {
            let n = match i[1] { 0 => 10, 1 => 20, _ => 30 };
            want.push(V::I(n));
            "SELECT CASE IV(1)\nCASE 0\nGOSUB 10\nCASE 1\nGOSUB 20\nCASE ELSE\nGOSUB 30\nEND SELECT\nEND\n10 OUT 10\nRETURN\n20 OUT 20\nRETURN\n30 OUT 30\nRETURN"
        }
    };
    let o = run(&w, src);
    rt::observe("outcome", o.code());
    expect_outs(&w, &want, "jumps go to their labels and RETURN comes back");
    match err { None => rt::check(o.ok(), "completes"), Some(m) => { rt::log(o.msg()); rt::check(matches!(&o, Outcome::Exc(2, 1, x) if x == m), "RETURN with nothing to return to is an error") } }
}

/// END with any exit code, from any depth.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_end(case: u32) {
    let w = world();
    let c = rt::i32_();
    push_int(&w, c);
    let src = ["OUT 1\nEND IV(0)\nOUT 2", "OUT 1\nGOSUB @s\nOUT 2\n@s\nEND IV(0)", "OUT 1\nSUB s\nFOR i = 1 TO 3\nEND IV(0)\nNEXT\nEND SUB\ns\nOUT 2", "FUNCTION f(n)\nIF n = 0 THEN END IV(0)\nf = f(n - 1)\nEND FUNCTION\nOUT 1\nOUT f(3)", "OUT 1\nEND\nOUT 2"][case as usize];
    let o = run(&w, src);
    expect_outs(&w, &[V::I(1)], "END stops the program");
    if case == 4 { rt::check(matches!(o, Outcome::End(0)), "END alone means success"); return; }
    if c >= 0 && c <= 127 { rt::check(matches!(o, Outcome::End(x) if x == c), "END reports its code"); rt::cover("end"); }
    else { rt::check(matches!(o, Outcome::Exc(..)), "a code outside 0..127 is an error"); rt::cover("bad end"); }
}

rt::harness_main!(h_if, h_if_line, h_select, h_select_types, h_for, h_for_double, h_nest, h_jumps, h_end);

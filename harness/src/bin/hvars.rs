//! Variables: their types, their values, and their exchange with the host of the interpreter.
use endbasic_core::*;
use rt::lang::*;
use std::collections::HashMap;
use std::rc::Rc;

fn push_int(w: &World, v: i32) { w.ints.borrow_mut().push(v); }
fn push_dbl(w: &World, v: f64) { w.dbls.borrow_mut().push(v); }
fn push_bool(w: &World, v: bool) { w.bools.borrow_mut().push(v); }
fn push_str(w: &World, v: &str) { w.strs.borrow_mut().push(v.to_owned()); }

const TYPES: [&str; 4] = ["INTEGER", "DOUBLE", "BOOLEAN", "STRING"];
const ANN: [&str; 5] = ["%", "#", "?", "$", ""];
const ET: [ExprType; 4] = [ExprType::Integer, ExprType::Double, ExprType::Boolean, ExprType::Text];
fn zero(t: usize) -> V { match t { 0 => V::I(0), 1 => V::D(0.0), 2 => V::B(false), _ => V::S(String::new()) } }

/// An arbitrary value of the chosen type, as an expression and as a value.
fn elem(w: &World, t: usize) -> (String, V) {
    match t {
        0 => { let v = rt::i32_(); push_int(w, v); (format!("IV({})", w.ints.borrow().len() - 1), V::I(v)) }
        1 => { let v = rt::f64_(); push_dbl(w, v); (format!("DV({})", w.dbls.borrow().len() - 1), V::D(v)) }
        2 => { let v = rt::bool_(); push_bool(w, v); (format!("BV({})", w.bools.borrow().len() - 1), V::B(v)) }
        _ => { let b = rt::u8_(); rt::assume(b >= 32 && b < 127); push_str(w, &(b as char).to_string()); (format!("SV({})", w.strs.borrow().len() - 1), V::S((b as char).to_string())) }
    }
}

// ---------------------------------------------------------------------------- one type each

#[derive(Clone)]
enum St {
    /// Definition with a type; shared or not.
    Dim(usize, bool),
    /// Assignment with an annotation (4: none) of a value of some type.
    Let(usize, usize, String, V),
    /// Reference with an annotation (4: none).
    Read(usize),
    /// Reference from within a SUB that is defined here.
    Sub(usize),
    Nothing,
}

fn text(s: &St, name: &str, k: usize) -> Vec<String> {
    match s {
        St::Dim(t, shared) => vec![format!("DIM {}{} AS {}", if *shared { "SHARED " } else { "" }, name, TYPES[*t])],
        St::Let(m, _, e, _) => vec![format!("{}{} = {}", name, ANN[*m], e)],
        St::Read(m) => vec![format!("OUT {}{}", name, ANN[*m])],
        St::Sub(m) => vec![format!("SUB p{}", k), format!("OUT {}{}", name, ANN[*m]), "END SUB".into(), format!("p{}", k)],
        St::Nothing => vec!["REM".into()],
    }
}

/// What a program means to the variable: a rejection, an error half way or outputs.
#[derive(Default)]
struct Model { local: Option<(usize, V)>, global: Option<(usize, V)>, rejected: bool, failed: bool, outs: Vec<V> }
impl Model {
    fn types(&mut self, s: &St) {
        if self.rejected { return; }
        let cur = self.local.as_ref().or(self.global.as_ref()).map(|x| x.0);
        match s {
            St::Dim(t, false) => { if self.local.is_some() { self.rejected = true; } else { self.local = Some((*t, zero(*t))); } }
            St::Dim(t, true) => { if self.global.is_some() { self.rejected = true; } else { self.global = Some((*t, zero(*t))); } }
            St::Let(m, t, _, _) => {
                let vt = match cur { Some(vt) => { if *m != 4 && *m != vt { self.rejected = true; } vt } None => { let vt = if *m == 4 { *t } else { *m }; self.local = Some((vt, zero(vt))); vt } };
                if vt != *t && (vt > 1 || *t > 1) { self.rejected = true; }
            }
            St::Read(m) => { if cur.is_none() || (*m != 4 && Some(*m) != cur) { self.rejected = true; } }
            St::Sub(m) => { let g = self.global.as_ref().map(|x| x.0); if g.is_none() || (*m != 4 && Some(*m) != g) { self.rejected = true; } }
            St::Nothing => (),
        }
    }
    /// Runs a statement. `had` is whether the local existed when the statement was compiled.
    fn run(&mut self, s: &St, local: bool) {
        if self.failed { return; }
        match s {
            St::Dim(t, false) => self.local = Some((*t, zero(*t))),
            St::Dim(t, true) => self.global = Some((*t, zero(*t))),
            St::Let(_, t, _, v) => {
                let var = if local { self.local.as_mut().unwrap() } else { self.global.as_mut().unwrap() };
                let v = match (var.0, *t, v) {
                    (0, 1, V::D(d)) => {
                        let r = d.round();
                        if !(r >= -2147483648.0 && r <= 2147483647.0) { self.failed = true; return; }
                        V::I(r as i32)
                    }
                    (1, 0, V::I(i)) => V::D(*i as f64),
                    _ => v.clone(),
                };
                var.1 = v;
            }
            St::Read(_) => { let v = if local { self.local.as_ref().unwrap().1.clone() } else { self.global.as_ref().unwrap().1.clone() }; self.outs.push(v); }
            St::Sub(_) => { let v = self.global.as_ref().unwrap().1.clone(); self.outs.push(v); }
            St::Nothing => (),
        }
    }
}

fn stmt(w: &World, k: usize) -> St {
    match k {
        0..=7 => St::Dim(k % 4, k >= 4),
        8..=27 => { let (m, t) = ((k - 8) / 4, (k - 8) % 4); let (e, v) = elem(w, t); St::Let(m, t, e, v) }
        28..=32 => St::Read(k - 28),
        33..=37 => St::Sub(k - 33),
        _ => St::Nothing,
    }
}

/// Checks a sequence of statements on one variable, put in a program in one of some ways.
fn settle(w: &Rc<World>, prog: &[St], place: usize) {
    let names = ["value1", "Value1", "VALUE1", "vaLUE1", "value1"];
    let mut m = Model::default();
    let mut locals = vec![];
    let mut lines: Vec<Vec<String>> = vec![];
    let mut bad = None;
    for (k, s) in prog.iter().enumerate() {
        m.types(s);
        if m.rejected && bad.is_none() { bad = Some(k); }
        locals.push(m.local.is_some());
        lines.push(text(s, names[k], k));
    }
    let before: usize = lines.iter().take(bad.unwrap_or(0)).map(|l| l.len()).sum();
    // A SUB refers to the variable in its second line.
    let line = 1 + before + matches!(bad.map(|k| &prog[k]), Some(St::Sub(_))) as usize;
    let rounds = if matches!(place, 1 | 2 | 4) { 2 } else { 1 };
    if !m.rejected { for _ in 0..rounds { for (s, l) in prog.iter().zip(&locals) { m.run(s, *l); } } }
    let body: String = lines.iter().flatten().map(|l| format!("{}\n", l)).collect();
    let (src, off) = match place {
        0 => (body, 0),
        1 => (format!("SUB s\n{}END SUB\ns\ns\n", body), 1),
        2 => (format!("FUNCTION f%\n{}f = 7\nEND FUNCTION\nr = f + f\n", body), 1),
        3 => (format!("IF TRUE THEN\n{}END IF\n", body), 1),
        4 => (format!("FOR iteration = 1 TO 2\n{}NEXT\n", body), 1),
        _ => (body, 0),
    };
    rt::log(&src);
    if place == 5 {
        // Every statement is a program of its own, in the same session.
        let mut mc = Machine::new(w);
        let mut o = Outcome::Eof;
        for l in &lines {
            o = mc.run(l.join("\n").as_bytes());
            if !o.ok() { break; }
        }
        if m.rejected {
            let mut m = Model::default();
            for (s, l) in prog.iter().zip(&locals).take(bad.unwrap()) { m.types(s); m.run(s, *l); }
            if m.failed { rt::check(matches!(&o, Outcome::Exc(..)), "a value that does not fit is an error"); }
            else { rt::check(matches!(&o, Outcome::Compile(..)), "a contradictory use of a variable is rejected"); rt::cover("rejected"); }
            expect_outs(w, &m.outs, "earlier programs of the session keep their effects");
            return;
        }
        finish(w, &m, &o);
        return;
    }
    let o = run(w, &src);
    rt::log(o.msg());
    if m.rejected {
        rt::check(matches!(&o, Outcome::Compile(l, _, _) if *l == line + off), "a contradictory use of a variable is rejected, where it is");
        expect_outs(w, &[], "rejected programs do not run");
        rt::cover("rejected");
        return;
    }
    finish(w, &m, &o);
}

fn finish(w: &World, m: &Model, o: &Outcome) {
    if m.failed {
        rt::check(matches!(o, Outcome::Exc(_, _, x) if x.starts_with("Cannot cast")), "a value that does not fit is an error");
        rt::cover("error");
    } else {
        rt::check(o.ok(), "a consistent program runs");
        rt::cover("value");
    }
    expect_outs(w, &m.outs, "a variable has the type of its definition and the value given to it last");
}

/// Two statements that define or assign a variable, then one that reads it.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_vars(case: u32) {
    let w = world();
    let a = stmt(&w, case as usize);
    let b = { let k = rt::choose(29); stmt(&w, if k == 28 { 38 } else { k }) };
    let c = rt::choose(10);
    let c = stmt(&w, 28 + c);
    settle(&w, &[a, b, c, St::Read(4)], 0);
}

/// The same in other places: bodies of callables, blocks, loops and chunks of a session.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_places(case: u32) {
    let w = world();
    let a = stmt(&w, rt::pick(&[0, 1, 3, 6, 8, 12, 13, 17, 24, 25, 26, 27]));
    let b = stmt(&w, rt::pick(&[1, 2, 5, 9, 12, 15, 24, 25, 26, 27, 28, 32, 38]));
    settle(&w, &[a, b, St::Read(4)], 1 + case as usize);
}

// ---------------------------------------------------------------------------- hosts

fn datum(v: &V) -> ConstantDatum { match v { V::I(i) => ConstantDatum::Integer(*i), V::D(d) => ConstantDatum::Double(*d), V::B(b) => ConstantDatum::Boolean(*b), V::S(s) => ConstantDatum::Text(s.clone()), _ => unreachable!() } }
fn is(r: &GetGlobalResult<Option<ConstantDatum>>, v: &V) -> bool { match r { Ok(Some(d)) => from_datum(d).same(v), _ => false } }
fn none(r: &GetGlobalResult<Option<ConstantDatum>>) -> bool { matches!(r, Ok(None)) }
fn key(n: &str) -> SymbolKey { SymbolKey::from(n) }
fn scalar(n: &str, t: usize, v: Option<&V>) -> GlobalDef { GlobalDef { name: n.to_owned(), kind: GlobalDefKind::Scalar { etype: ET[t], initial_value: v.map(datum) } } }
fn array(n: &str, t: usize, d: &[usize]) -> GlobalDef { GlobalDef { name: n.to_owned(), kind: GlobalDefKind::Array { subtype: ET[t], dimensions: d.to_vec() } } }

fn initial(t: usize, k: usize) -> Option<V> {
    if k == 0 { return None; }
    Some(match t {
        0 => V::I([0, 1, -1, 65535, 65536, -32768, i32::MAX, i32::MIN][k - 1]),
        1 => V::D([0.0, -0.0, 1.0, -2.5, f64::MAX, f64::INFINITY, f64::NAN, 4.9e-324][k - 1]),
        2 => V::B(k % 2 == 1),
        _ => V::S(["", "a", "A", "with spaces", "caf\u{e9} \u{1F600}", "\"quoted\"", "0", "a much longer text than the others"][k - 1].to_owned()),
    })
}

/// Scalars that the host defines, and what it reads back.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_host(case: u32) {
    let t = case as usize;
    let w = world();
    let k = rt::choose(9);
    let init = initial(t, k);
    let k2 = rt::choose(3);
    let other = initial(t, k2);
    let defs = [scalar("first", 0, None), scalar("G_var", t, init.as_ref()), array("arr", t, &[3]), scalar("last", t, other.as_ref()), scalar("end1", 1, Some(&V::D(65536.5)))];
    let mut m = Machine::with(&w, &defs, Limits::default());
    let (e, v) = elem(&w, t);
    let (e2, v2) = elem(&w, (t + 2) % 4);
    let start = init.unwrap_or(zero(t));
    let p = rt::choose(8);
    let (src, outs, end) = match p {
        0 => (String::new(), vec![], start.clone()),
        1 => ("OUT g_var, LAST".to_owned(), vec![start.clone(), other.clone().unwrap_or(zero(t))], start.clone()),
        2 => (format!("OUT 1\ng_var = {}", e), vec![V::I(1)], v.clone()),
        3 => (format!("SUB s\nG_VAR{} = {}\nEND SUB\nOUT g_var\ns\nOUT g_var", ANN[t], e), vec![start.clone(), v.clone()], v.clone()),
        4 => (format!("DIM g_var AS {}\ng_var = {}\nOUT g_var", TYPES[(t + 2) % 4], e2), vec![v2.clone()], start.clone()),
        5 => (format!("OUT 5\nDIM SHARED g_var AS {}", TYPES[t]), vec![], start.clone()),
        6 => ("SETV g_var, 0: OUT g_var".to_owned(), vec![v.clone()], v.clone()),
        _ => (format!("OUT 5\ng_var{} = {}", ANN[(t + 1) % 4], e), vec![], start.clone()),
    };
    rt::log(&src);
    let o = m.run(src.as_bytes());
    rt::log(o.msg());
    expect_outs(&w, &outs, "programs see and change the variables that the host defined");
    if p == 5 || p == 7 {
        rt::check(matches!(o, Outcome::Compile(2, ..)), "a contradictory use of a variable is rejected, where it is");
        rt::check(m.run(b"").ok(), "a rejected program leaves the session usable");
    } else {
        rt::check(o.ok(), "completes");
    }
    let read = |m: &Machine| {
        let n = rt::choose(2);
        rt::check(is(&m.vm.get_global(&m.img, &key(["g_var", "G_VAR"][n])), &end), "the host reads the value last assigned");
        rt::check(is(&m.vm.get_global(&m.img, &key("first")), &V::I(0)), "variables without a value start at the default of their type");
        rt::check(is(&m.vm.get_global(&m.img, &key("last")), &other.clone().unwrap_or(zero(t))), "variables that the program does not touch keep their initial value");
        rt::check(is(&m.vm.get_global(&m.img, &key("end1")), &V::D(65536.5)), "variables that the program does not touch keep their initial value");
        rt::check(is(&m.vm.get_global_array(&m.img, &key("arr"), &[1]), &zero(t)), "arrays start at the default of their type");
        let r = m.vm.get_program(&m.img, &key("g_var"));
        rt::check(if p == 4 { is(&r, &v2) } else { none(&r) }, "variables of the program are told from shared ones");
        rt::check(none(&m.vm.get_global(&m.img, &key("g_va"))) && none(&m.vm.get_global_array(&m.img, &key("g_var2"), &[0])), "variables that do not exist are not found");
        rt::check(matches!(m.vm.get_global(&m.img, &key("arr")), Err(GetGlobalError::IsArray(_))), "arrays are not scalars");
        rt::check(matches!(m.vm.get_global_array(&m.img, &key("first"), &[0]), Err(GetGlobalError::IsScalar(_))), "scalars are not arrays");
    };
    read(&m);
    // The session goes on with the same variables.
    let o = m.run(b"OUT first, LAST: first = 0");
    rt::check(o.ok(), "completes");
    let mut outs = outs;
    outs.extend([V::I(0), other.clone().unwrap_or(zero(t))]);
    expect_outs(&w, &outs, "later programs of the session see the same variables");
    read(&m);
    // Everything starts over after a reset.
    m.vm.reset();
    let o = m.exec();
    rt::check(o.ok(), "completes");
    let again: Vec<V> = outs.iter().chain(outs.iter()).cloned().collect();
    expect_outs(&w, &again, "a program that is run again behaves as the first time");
    read(&m);
    rt::cover(if p == 5 || p == 7 { "rejected" } else { "read" });
}

/// Arrays that the host defines or that the program defines, and what the host reads back.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_host_array(case: u32) {
    let (t, own) = (case as usize % 4, case as usize / 4);
    let w = world();
    let dims: &[usize] = [&[4][..], &[2, 3], &[3, 1], &[2, 1, 3]][rt::choose(4)];
    let n = dims.len();
    let (e, v) = elem(&w, t);
    let base = w.ints.borrow().len();
    // One subscript is arbitrary and the others are the first or the last.
    let last = rt::choose(2);
    let some = |k: usize| -> Vec<i32> { (0..n).map(|j| if j == k { rt::i32_() } else { (last * (dims[j] - 1)) as i32 }).collect() };
    for s in some(rt::choose(n)) { rt::assume((s >= -1) & (s <= 4)); push_int(&w, s); }
    let subs = |b: usize| (0..n).map(|k| format!("IV({})", b + k)).collect::<Vec<_>>().join(", ");
    let defs = if own == 0 { vec![scalar("x", 0, Some(&V::I(70000))), array("a", t, dims), array("b", t, &[2, 2])] } else { vec![scalar("x", 0, Some(&V::I(70000)))] };
    let ds = dims.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(", ");
    let head = match own { 0 => String::new(), 1 => format!("DIM SHARED a({}) AS {}\nDIM SHARED b(2, 2) AS {}\n", ds, TYPES[t], TYPES[t]), _ => format!("DIM a({}) AS {}\nDIM b(2, 2) AS {}\n", ds, TYPES[t], TYPES[t]) };
    let src = format!("{}a({}) = {}\nx = 5", head, subs(base), e);
    rt::log(&src);
    let mut m = Machine::with(&w, &defs, Limits::default());
    let o = m.run(src.as_bytes());
    let at: Vec<i32> = w.ints.borrow()[base..base + n].to_vec();
    let within = |s: &[i32]| s.iter().zip(dims).fold(true, |a, (s, d)| a & (*s >= 0) & (*s < *d as i32));
    let stored = within(&at);
    rt::check(if stored { o.ok() } else { matches!(o, Outcome::Exc(..)) }, "stores outside an array are errors");
    rt::check(is(&m.vm.get_global(&m.img, &key("x")), &V::I(if stored { 5 } else { 70000 })), "the host reads the values that variables had when the program stopped");
    let get = |name: &str, s: &[i32]| if own == 2 { m.vm.get_program_array(&m.img, &key(name), s) } else { m.vm.get_global_array(&m.img, &key(name), s) };
    rt::check(is(&get("b", &[1, 1]), &zero(t)), "other arrays are not touched");
    match rt::choose(3) {
        0 => {
            let k = rt::choose(n);
            let q = some(k);
            rt::assume((n == 1) | ((q[k] >= -2) & (q[k] <= 6)));
            let r = get("A", &q);
            if within(&q) {
                let same = stored && q.iter().zip(&at).fold(true, |a, (x, y)| a & (x == y));
                rt::check(is(&r, &if same { v } else { zero(t) }), "the host reads the elements that the program stored");
                rt::cover(if same { "stored" } else { "default" });
            } else {
                rt::check(matches!(r, Err(GetGlobalError::SubscriptOutOfBounds(_))), "the host cannot read outside an array");
                rt::cover("out of bounds");
            }
        }
        1 => {
            // Any number of subscripts that the array does not have.
            for extra in 0..5 {
                if extra == n { continue; }
                let r = get("a", &vec![0; extra]);
                rt::check(matches!(r, Err(GetGlobalError::SubscriptOutOfBounds(_))), "the host cannot read an array with the wrong number of subscripts");
            }
        }
        _ => {
            let z = vec![0; n];
            let other = if own == 2 { m.vm.get_global_array(&m.img, &key("a"), &z) } else { m.vm.get_program_array(&m.img, &key("a"), &z) };
            rt::check(none(&other), "variables of the program are told from shared ones");
            let sc = if own == 2 { m.vm.get_program(&m.img, &key("a")) } else { m.vm.get_global(&m.img, &key("a")) };
            rt::check(matches!(sc, Err(GetGlobalError::IsArray(_))), "arrays are not scalars");
        }
    }
}

/// Definitions that contradict themselves, interruptions, and variables of programs that stopped.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_host_stops(case: u32) {
    let w = world();
    match case {
        0 => {
            // A value of another type than the variable.
            let (t, u) = (rt::choose(4), rt::choose(4));
            let v = initial(u, 3).unwrap();
            let c = Compiler::new(&HashMap::default(), &[scalar("x", t, Some(&v))]);
            rt::check(c.is_ok() == (t == u), "initial values have the type of their variable");
            rt::cover(if t == u { "accepted" } else { "rejected" });
        }
        1 => {
            // Programs that stop half way, for one reason or another.
            let v = rt::i32_();
            push_int(&w, v);
            push_int(&w, rt::i32_());
            let how = rt::choose(4);
            let stop = ["END 3", "z = 1 / 0", "GOTO @end", "OUT 1"][how];
            let src = format!("DIM SHARED s AS STRING\ny = IV(0)\nx = IV(0)\ns = \"b\"\n{}\nx = IV(1): s = \"c\": y = 4\n@end\nOUT 9", stop);
            let mut m = Machine::with(&w, &[scalar("x", 0, None)], Limits::default());
            let o = m.run(src.as_bytes());
            rt::check(match how { 0 => matches!(o, Outcome::End(3)), 1 => matches!(o, Outcome::Exc(5, ..)), _ => o.ok() }, "programs end as they ask");
            let x2 = w.ints.borrow()[1];
            let want = if how == 3 { (x2, "c", 4) } else { (v, "b", v) };
            rt::check(is(&m.vm.get_global(&m.img, &key("x")), &V::I(want.0)), "the host reads the values that variables had when the program stopped");
            rt::check(is(&m.vm.get_global(&m.img, &key("s")), &V::S(want.1.into())), "the host reads the values that variables had when the program stopped");
            rt::check(is(&m.vm.get_program(&m.img, &key("Y")), &V::I(want.2)), "the host reads the values that variables had when the program stopped");
            rt::check(matches!(m.vm.get_program_array(&m.img, &key("Y"), &[]), Err(GetGlobalError::IsScalar(_))), "scalars are not arrays");
            // What comes next runs after the point where the program was, not from it.
            let n = w.outs.borrow().len();
            let o = m.run(b"OUT x, y, s");
            rt::check(o.ok(), "completes");
            let outs = w.outs.borrow();
            rt::check(outs.len() == n + 3, "a program that stopped is not resumed");
            rt::check(outs[n].same(&V::I(want.0)) && outs[n + 1].same(&V::I(want.2)) && outs[n + 2].same(&V::S(want.1.into())), "later programs of the session see the same variables");
            rt::cover("stopped");
        }
        5 => {
            // Programs that stop inside of callables, at any depth.
            let v = rt::i32_();
            push_int(&w, v);
            let depth = rt::choose(4) as i32;
            push_int(&w, depth);
            let how = rt::choose(3);
            let kind = rt::choose(2);
            let stop = ["END 3", "z = 1 / 0", "n = FAILF(0)"][how];
            w.fails.borrow_mut().push(true);
            let (decl, call, end) = if kind == 0 { ("SUB go(n%)", "go n - 1", "END SUB") } else { ("FUNCTION go%(n%)", "k = go(n - 1)", "END FUNCTION") };
            let start = if kind == 0 { "go IV(1)" } else { "r = go(IV(1))" };
            let src = format!("{}\nk = n\nx = n\nIF n = 0 THEN\n{}\nEND IF\n{}\n{}\ny = IV(0)\na = \"b\"\nGOSUB @g\nEND\n@g\n{}\ny = 4", decl, stop, call, end, start);
            let mut m = Machine::with(&w, &[scalar("x", 0, Some(&V::I(-70000)))], Limits::default());
            rt::log(&src);
            let o = m.run(src.as_bytes());
            rt::check(if how == 0 { matches!(o, Outcome::End(3)) } else { matches!(o, Outcome::Exc(5, ..)) }, "programs end as they ask");
            rt::check(is(&m.vm.get_global(&m.img, &key("x")), &V::I(0)), "the host reads the values that variables had when the program stopped");
            rt::check(is(&m.vm.get_program(&m.img, &key("y")), &V::I(v)), "the host reads the values that variables had when the program stopped");
            rt::check(is(&m.vm.get_program(&m.img, &key("a")), &V::S("b".into())), "the host reads the values that variables had when the program stopped");
            rt::check(none(&m.vm.get_program(&m.img, &key("n"))) && none(&m.vm.get_program(&m.img, &key("k"))), "variables of callables are not those of the program");
            let o = m.run(b"OUT x, y, a\nRETURN");
            rt::check(matches!(o, Outcome::Exc(2, ..)), "calls of a program that stopped are forgotten");
            expect_outs(&w, &[V::I(0), V::I(v), V::S("b".into())], "later programs of the session see the same variables");
            rt::cover("stopped");
        }
        2 => {
            // Interruptions at any yield.
            let stop = rt::choose(6);
            let v = rt::i32_();
            push_int(&w, v);
            let mut m = Machine::with(&w, &[scalar("x", 0, Some(&V::I(-7)))], Limits::default());
            m.compile(b"FOR i = 1 TO 4\nOUT i\nx = i\nNEXT\nx = 100\nOUT x").ok().expect("compiles");
            let mut ended = false;
            for _ in 0..stop { if matches!(m.vm.exec(&m.img), StopReason::Eof) { ended = true; break; } }
            let n = w.outs.borrow().len();
            let x = m.vm.get_global(&m.img, &key("x"));
            m.vm.interrupt(&m.img);
            rt::check(matches!(m.vm.exec(&m.img), StopReason::Eof), "an interrupted program is over");
            rt::check(w.outs.borrow().len() == n, "an interrupted program does nothing else");
            if n == 0 {
                // Nothing ran at all.
                rt::check(stop == 0, "programs start when they are run");
                rt::cover("not started");
                return;
            }
            let x = match x { Ok(Some(ConstantDatum::Integer(x))) => x, _ => { rt::fail("the host reads the variable"); return; } };
            let last = match w.outs.borrow()[n - 1] { V::I(i) => i, _ => 0 };
            rt::check(x == last || x == last - 1 || (last == 1 && x == -7), "the host reads the values that variables had when the program stopped");
            rt::check(!ended || x == 100, "the host reads the values that variables had when the program stopped");
            let o = m.run(b"OUT x: x = IV(0): OUT x");
            rt::check(o.ok(), "completes");
            let outs = w.outs.borrow();
            rt::check(outs.len() == n + 2 && outs[n].same(&V::I(x)) && outs[n + 1].same(&V::I(v)), "later programs of the session see the same variables");
            rt::cover("interrupted");
        }
        3 => {
            // Clearing forgets values but not the session.
            let v = rt::i32_();
            push_int(&w, v);
            w.fails.borrow_mut().push(false);
            let mut m = Machine::with(&w, &[scalar("x", 0, Some(&V::I(70001))), scalar("s", 3, Some(&V::S("q".into()))), array("a", 3, &[2])], Limits::default());
            rt::check(m.run(b"OUT LASTERR\nd = FAILF(0)\nOUT x, s\nx = IV(0): a(1) = s + \"z\": s = \"other\"\nON ERROR RESUME NEXT\ny = 1 / 0\nOUT LASTERR, x, a(1)").ok(), "completes");
            rt::check(is(&m.vm.get_global_array(&m.img, &key("a"), &[1]), &V::S("qz".into())), "the host reads the elements that the program stored");
            let one = vec![V::B(false), V::I(70001), V::S("q".into()), V::B(true), V::I(v), V::S("qz".into())];
            expect_outs(&w, &one, "the program runs");
            if rt::bool_() { m.vm.clear(); } else { m.vm.reset(); }
            let fail = rt::bool_();
            w.fails.borrow_mut()[0] = fail;
            let o = m.exec();
            let mut two: Vec<V> = one.iter().chain(one.iter()).cloned().collect();
            if fail { two.truncate(one.len() + 1); }
            rt::check(if fail { matches!(o, Outcome::Exc(2, ..)) } else { o.ok() }, "a program that is run again behaves as the first time");
            expect_outs(&w, &two, "a program that is run again behaves as the first time");
            rt::check(is(&m.vm.get_global(&m.img, &key("x")), &V::I(if fail { 70001 } else { v })), "a program that is run again behaves as the first time");
            rt::cover("again");
        }
        _ => {
            // Arrays that do not fit in memory.
            let cap = 1 + rt::choose(6);
            let mut m = Machine::with(&w, &[array("a", 0, &[2]), array("b", 3, &[2])], Limits { max_heap_entries: U24::from(cap as u16), ..Limits::default() });
            let o = m.run(b"OUT 1");
            if o.ok() { expect_outs(&w, &[V::I(1)], "runs"); rt::check(is(&m.vm.get_global_array(&m.img, &key("a"), &[1]), &V::I(0)), "arrays start at the default of their type"); rt::cover("fits"); }
            else { rt::check(matches!(o, Outcome::Exc(..)), "running out of memory is an error"); rt::cover("does not fit"); }
        }
    }
}

rt::harness_main!(h_vars, h_places, h_host, h_host_array, h_host_stops);

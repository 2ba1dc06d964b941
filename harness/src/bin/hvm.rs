//! Built-in callable arguments, incremental compilation, stops and program data.
use endbasic_core::*;
use rt::lang::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

fn push_int(w: &World, v: i32) { w.ints.borrow_mut().push(v); }
fn push_fail(w: &World, v: bool) { w.fails.borrow_mut().push(v); }

// ---------------------------------------------------------------------------- arguments

#[derive(Clone, Copy, PartialEq, Debug)]
enum Item { Miss, I(usize), D(usize), S(usize), B(usize), Var(usize), NewVar(usize), Arr }

/// A command that records its arguments as laid out for its syntax: 'v' and a type is a plain
/// value, 't' a tag with its value, 'p' a reference, '*' repeats the next one to the end.
struct Probe { m: Rc<CallableMetadata>, w: Rc<World>, layout: &'static str, pos: Rc<RefCell<Vec<(bool, usize, usize)>>> }
impl Probe {
    fn value(s: &Scope<'_>, r: u8, t: ExprType) -> V {
        match t { ExprType::Boolean => V::B(s.get_boolean(r)), ExprType::Double => V::D(s.get_double(r)), ExprType::Integer => V::I(s.get_integer(r)), ExprType::Text => V::S(s.get_string(r).to_owned()) }
    }
    fn deref(s: &Scope<'_>, r: u8) -> V {
        let x = s.get_ref(r);
        match x.vtype { ExprType::Boolean => V::B(x.deref_boolean()), ExprType::Double => V::D(x.deref_double()), ExprType::Integer => V::I(x.deref_integer()), ExprType::Text => V::S(x.deref_string().to_owned()) }
    }
}
impl Callable for Probe {
    fn metadata(&self) -> Rc<CallableMetadata> { self.m.clone() }
    fn exec(&self, s: Scope<'_>) -> CallResult<()> {
        let mut outs = self.w.outs.borrow_mut();
        let mut r = 0u8;
        let l = self.layout.as_bytes();
        let mut i = 0;
        let here = |r: u8, first: bool| { let p = s.get_pos(r); self.pos.borrow_mut().push((first, p.line, p.col)); };
        while i < l.len() {
            let many = l[i] == b'*';
            if many { i += 1; }
            loop {
                if many && l[i] == b'v' && r as usize >= s.nargs() { break; }
                match l[i] {
                    b'v' => {
                        here(r, true);
                        outs.push(Probe::value(&s, r, match l[i + 1] { b'i' => ExprType::Integer, b'd' => ExprType::Double, b's' => ExprType::Text, _ => ExprType::Boolean }));
                        r += 1;
                    }
                    b'a' => { here(r, true); let x = s.get_ref(r); for d in x.array_dimensions() { outs.push(V::I(*d as i32)); } r += 1; }
                    b'p' if !many => { here(r, true); outs.push(Probe::deref(&s, r)); r += 1; }
                    _ => {
                        here(r, true);
                        let sep = match s.get_type(r) {
                            VarArgTag::Missing(sep) => { outs.push(V::Missing); sep }
                            VarArgTag::Immediate(sep, t) => { r += 1; here(r, false); outs.push(Probe::value(&s, r, t)); sep }
                            VarArgTag::Pointer(sep) => { r += 1; here(r, false); outs.push(Probe::deref(&s, r)); sep }
                        };
                        r += 1;
                        outs.push(V::Sep(seps(sep)));
                        if many && sep == ArgSep::End { break; }
                    }
                }
                if !many { break; }
            }
            i += if l[i] == b'v' { 2 } else { 1 };
        }
        outs.push(V::I(s.nargs() as i32 - r as i32));
        Ok(())
    }
}

fn rv(t: ExprType, s: ArgSepSyntax) -> SingularArgSyntax { SingularArgSyntax::RequiredValue(RequiredValueSyntax { name: Cow::Borrowed("a"), vtype: t }, s) }
fn rref(arr: bool, def: bool, s: ArgSepSyntax) -> SingularArgSyntax { SingularArgSyntax::RequiredRef(RequiredRefSyntax { name: Cow::Borrowed("r"), require_array: arr, define_undefined: def }, s) }
fn leak(v: Vec<SingularArgSyntax>) -> &'static [SingularArgSyntax] { Box::leak(v.into_boxed_slice()) }
fn rep(t: RepeatedTypeSyntax, sep: ArgSepSyntax, one: bool, miss: bool) -> Option<&'static RepeatedSyntax> {
    Some(Box::leak(Box::new(RepeatedSyntax { name: Cow::Borrowed("x"), type_syn: t, sep, require_one: one, allow_missing: miss })))
}
type Syn = (&'static [SingularArgSyntax], Option<&'static RepeatedSyntax>);

const LS: ArgSepSyntax = ArgSepSyntax::OneOf(&[ArgSep::Long, ArgSep::Short]);
const L: ArgSepSyntax = ArgSepSyntax::Exactly(ArgSep::Long);
const S: ArgSepSyntax = ArgSepSyntax::Exactly(ArgSep::Short);
const E: ArgSepSyntax = ArgSepSyntax::End;

fn syntax(cmd: usize) -> (Vec<Syn>, &'static str) {
    use ExprType::*;
    match cmd {
        0 => (vec![(leak(vec![rv(Integer, L), rv(Text, E)]), None)], "vivs"),
        1 => (vec![(leak(vec![rv(Integer, S), SingularArgSyntax::OptionalValue(OptionalValueSyntax { name: Cow::Borrowed("o"), vtype: Double }, E)]), None)], "vit"),
        2 => (vec![(leak(vec![rv(Double, LS), SingularArgSyntax::AnyValue(AnyValueSyntax { name: Cow::Borrowed("y"), allow_missing: true }, E)]), None)], "vdt"),
        3 => (vec![(&[], rep(RepeatedTypeSyntax::TypedValue(Double), L, true, false))], "*vd"),
        4 => (vec![(leak(vec![rv(Integer, L)]), rep(RepeatedTypeSyntax::AnyValue, LS, false, false))], "vi*t"),
        5 => (vec![(&[], rep(RepeatedTypeSyntax::VariableRef, L, true, false))], "*p"),
        6 => (vec![(leak(vec![rref(true, false, L), rv(Boolean, E)]), None)], "avb"),
        7 => (vec![(leak(vec![rref(false, true, LS), rv(Integer, E)]), None)], "pvi"),
        8 => (vec![(&[], rep(RepeatedTypeSyntax::TypedValue(Integer), LS, false, true))], "*t"),
        9 => (vec![(&[], None), (leak(vec![rv(Text, E)]), None), (leak(vec![rv(Boolean, L), rv(Boolean, S), rv(Double, E)]), None)], ""),
        _ => unreachable!(),
    }
}

/// What the command receives for `items` separated by `sp` (1 short, 2 long, 3 AS), or None if
/// the call has to be rejected.
fn expected(cmd: usize, items: &[Item], sp: &[u8], w: &World) -> Option<Vec<V>> {
    let int = |i: &Item| match i { Item::I(k) => Some(V::I(w.ints.borrow()[*k])), Item::D(k) => Some(V::I(w.dbls.borrow()[*k] as i32)), Item::Var(_) => Some(V::I(11)), _ => None };
    let dbl = |i: &Item| match i { Item::I(k) => Some(V::D(w.ints.borrow()[*k] as f64)), Item::D(k) => Some(V::D(w.dbls.borrow()[*k])), Item::Var(_) => Some(V::D(11.0)), _ => None };
    let txt = |i: &Item| match i { Item::S(k) => Some(V::S(w.strs.borrow()[*k].clone())), _ => None };
    let boo = |i: &Item| match i { Item::B(k) => Some(V::B(w.bools.borrow()[*k])), _ => None };
    let any = |i: &Item| match i { Item::I(_) | Item::Var(_) => int(i), Item::D(_) => dbl(i), Item::S(_) => txt(i), Item::B(_) => boo(i), _ => None };
    let n = items.len();
    let end = |k: usize| if k + 1 == n { 0 } else { sp[k] };
    let mut o = vec![];
    match cmd {
        0 => { if n != 2 || sp[0] != 2 { return None; } o.push(int(&items[0])?); o.push(txt(&items[1])?); }
        1 => {
            if n != 2 || sp[0] != 1 { return None; }
            o.push(int(&items[0])?);
            o.push(if items[1] == Item::Miss { V::Missing } else { dbl(&items[1])? });
            o.push(V::Sep(0));
        }
        2 => {
            if n != 2 || sp[0] == 3 { return None; }
            o.push(dbl(&items[0])?);
            o.push(if items[1] == Item::Miss { V::Missing } else { any(&items[1])? });
            o.push(V::Sep(0));
        }
        3 => { if n == 0 || sp.iter().any(|s| *s != 2) { return None; } for i in items { o.push(dbl(i)?); } }
        4 => {
            if n == 0 { return None; }
            o.push(int(&items[0])?);
            if n > 1 && sp[0] != 2 { return None; }
            for k in 1..n { o.push(any(&items[k])?); if k + 1 < n && sp[k] == 3 { return None; } o.push(V::Sep(end(k))); }
            if n == 1 { o.push(V::Missing); o.push(V::Sep(0)); }
        }
        5 => {
            if n == 0 || sp.iter().any(|s| *s != 2) { return None; }
            for k in 0..n { o.push(match items[k] { Item::Var(_) => V::I(11), Item::NewVar(_) => V::I(0), _ => return None }); o.push(V::Sep(end(k))); }
        }
        6 => { if n != 2 || sp[0] != 2 || items[0] != Item::Arr { return None; } o.extend([V::I(2), V::I(3)]); o.push(boo(&items[1])?); }
        7 => {
            if n != 2 || sp[0] == 3 { return None; }
            o.push(match items[0] { Item::Var(_) => V::I(11), Item::NewVar(_) => V::I(0), _ => return None });
            o.push(int(&items[1])?);
        }
        8 => {
            for k in 0..n { o.push(if items[k] == Item::Miss { V::Missing } else { int(&items[k])? }); if k + 1 < n && sp[k] == 3 { return None; } o.push(V::Sep(end(k))); }
            if n == 0 { o.push(V::Missing); o.push(V::Sep(0)); }
        }
        _ => {
            if n == 3 { if sp[0] != 2 || sp[1] != 1 { return None; } o.push(boo(&items[0])?); o.push(boo(&items[1])?); o.push(dbl(&items[2])?); }
            else if n == 1 { o.push(txt(&items[0])?); }
            else if n != 0 { return None; }
        }
    }
    o.push(V::I(0));
    Some(o)
}

/// Every call with up to three arguments and any separators, against one command's syntax (the case).
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_args(case: u32) {
    let cmd = case as usize;
    let w = world();
    for _ in 0..4 { push_int(&w, rt::i32_()); w.bools.borrow_mut().push(rt::bool_()); w.strs.borrow_mut().push(((rt::u8_() & 15) as u8 as char).to_string()); w.dbls.borrow_mut().push(2.0); }
    let n = rt::choose(4);
    let kinds: &[usize] = match cmd { 5 | 7 => &[0, 1, 5, 6, 7], 6 => &[0, 4, 5, 7], _ => &[0, 1, 2, 3, 4] };
    let mut items: Vec<Item> = vec![];
    let mut sp = vec![];
    for k in 0..n {
        items.push(match rt::pick(kinds) { 0 => Item::Miss, 1 => Item::I(k), 2 => Item::D(k), 3 => Item::S(k), 4 => Item::B(k), 5 => Item::Var(k), 6 => Item::NewVar(k), _ => Item::Arr });
        if k + 1 < n { sp.push(rt::choose(if k == 0 { 3 } else { 2 }) as u8 + 1); }
    }
    // A lone missing argument is no argument at all.
    rt::assume(!(n == 1 && items[0] == Item::Miss));
    let paren = rt::choose(2) == 1;
    let mut src = String::from("CMD ");
    let mut cols = vec![];
    for k in 0..n {
        cols.push(src.len() + 1);
        match items[k] {
            Item::Miss => (),
            Item::I(k) => src.push_str(&format!("IV({})", k)),
            Item::D(k) => src.push_str(&format!("DV({})", k)),
            Item::S(k) => src.push_str(&format!("SV({})", k)),
            Item::B(k) => src.push_str(&format!("BV({})", k)),
            Item::Var(_) => src.push_str("v"),
            Item::NewVar(k) => src.push_str(&format!("n{}", k)),
            Item::Arr => src.push_str("m"),
        }
        if k + 1 < n { src.push_str(match sp[k] { 1 => "; ", 2 => ", ", _ => " AS " }); }
    }
    if paren { src = format!("IF BV(3) THEN\n{}\nEND IF", src); }
    src.push_str("\nOUT 9");
    let src = format!("v = 11\nDIM m(2, 3) AS INTEGER\n{}", src);
    let want = expected(cmd, &items, &sp, &w);
    let mut m = HashMap::new();
    for (k, v) in callables(&w) { m.insert(k, v); }
    let (syn, layout) = syntax(cmd);
    let layout = if cmd == 9 { ["", "vs", "", "vbvbvd"][n] } else { layout };
    let syn: &'static [Syn] = Box::leak(syn.into_boxed_slice());
    let pos = Rc::new(RefCell::new(vec![]));
    m.insert(SymbolKey::from("CMD"), Rc::new(Probe { m: CallableMetadataBuilder::new("CMD").with_syntax(syn).test_build(), w: w.clone(), layout, pos: pos.clone() }) as Rc<dyn Callable>);
    let mut mach = Machine::with_callables(&w, m, &[], Limits::default());
    let o = mach.run(src.as_bytes());
    rt::observe("outcome", o.code());
    let line = if paren { 4 } else { 3 };
    match want {
        None => { rt::check(matches!(o, Outcome::Compile(l, _, _) if l == line), "a call that does not follow the syntax is rejected at its line"); rt::cover("rejected"); }
        Some(mut want) => {
            rt::check(o.ok(), "a call that follows the syntax is accepted and runs");
            let called = !paren || w.bools.borrow()[3];
            if !called { want.clear(); }
            want.push(V::I(9));
            expect_outs(&w, &want, "the command receives the arguments and separators as written");
            if called {
                // Positions: every argument that is present is where it was written.
                let p = pos.borrow();
                let firsts: Vec<_> = p.iter().filter(|x| x.0).collect();
                for (k, c) in cols.iter().enumerate() {
                    if items[k] != Item::Miss { rt::check(firsts[k].1 == line && firsts[k].2 == *c, "arguments know their position"); }
                }
                rt::cover("accepted");
            }
        }
    }
}

/// The general variadic command with missing arguments, any separators and types.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_outs(_case: u32) {
    let w = world();
    for _ in 0..3 { push_int(&w, rt::i32_()); w.bools.borrow_mut().push(rt::bool_()); w.dbls.borrow_mut().push(rt::f64_()); w.strs.borrow_mut().push(String::from_utf8(vec![b'a' + (rt::u8_() & 15)]).unwrap()); }
    let n = 1 + rt::choose(3);
    let mut src = String::from("OUTS ");
    let mut want = vec![];
    for k in 0..n {
        match rt::choose(5) {
            0 => want.push(V::Missing),
            1 => { src.push_str(&format!("IV({})", k)); want.push(V::I(w.ints.borrow()[k])); }
            2 => { src.push_str(&format!("DV({})", k)); want.push(V::D(w.dbls.borrow()[k])); }
            3 => { src.push_str(&format!("SV({})", k)); want.push(V::S(w.strs.borrow()[k].clone())); }
            _ => { src.push_str(&format!("BV({})", k)); want.push(V::B(w.bools.borrow()[k])); }
        }
        if k + 1 < n {
            let s = 1 + rt::choose(3);
            src.push_str([";", ",", " AS "][s - 1]);
            want.push(V::Sep(s as u8));
        } else { want.push(V::Sep(0)); }
    }
    let o = run(&w, &src);
    rt::check(o.ok(), "any list of values is accepted");
    expect_outs(&w, &want, "values and separators as written");
}

/// Commands that store into variables reach exactly the variable named.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_refs(case: u32) {
    let w = world();
    for _ in 0..4 { push_int(&w, rt::i32_()); w.bools.borrow_mut().push(rt::bool_()); w.dbls.borrow_mut().push(rt::f64_()); w.strs.borrow_mut().push(String::from_utf8(vec![b'a' + (rt::u8_() & 15)]).unwrap()); }
    let i = |k: usize| V::I(w.ints.borrow()[k]);
    let (src, want) = match case {
        0 => ("a = 1: b = 2: c = 3\nSETV b, 0\nOUT a, b, c\nSETV a, 1\nSETV c, 2\nOUT a, b, c".to_string(), vec![V::I(1), i(0), V::I(3), i(1), i(0), i(2)]),
        1 => ("SETV n, 0\nOUT n\nSETV d#, 1\nOUT d\nSETV s$, 2\nOUT s\nSETV t?, 3\nOUT t\nSETV n, 3\nOUT n, d".to_string(),
              vec![i(0), V::D(w.dbls.borrow()[1]), V::S(w.strs.borrow()[2].clone()), V::B(w.bools.borrow()[3]), i(3), V::D(w.dbls.borrow()[1])]),
        2 => ("DIM SHARED g AS INTEGER\nDIM SHARED h AS STRING\nSUB s(p%)\nDIM l AS INTEGER\nSETV g, 0\nSETV h, 1\nSETV p, 2\nSETV l, 3\nOUT g, h, p, l\nEND SUB\nv = 5\ns v\nOUT g, h, v".to_string(),
              vec![i(0), V::S(w.strs.borrow()[1].clone()), i(2), i(3), i(0), V::S(w.strs.borrow()[1].clone()), V::I(5)]),
        3 => ("FUNCTION f(n%)\nSETV f, n%\nIF n > 0 THEN x = f(n - 1)\nOUT f\nEND FUNCTION\nOUT f(2)".to_string(), vec![i(0), i(1), i(2), i(2)]),
        4 => ("s$ = \"old\"\nt$ = s\nSETV s, 0\nOUT s, t\nt = s + t\nSETV s, 1\nOUT s, t".to_string(), {
            let (a, b) = (w.strs.borrow()[0].clone(), w.strs.borrow()[1].clone());
            vec![V::S(a.clone()), V::S("old".into()), V::S(b), V::S(a + "old")]
        }),
        _ => ("FOR k = 0 TO 3\nSETV v, k\nOUT v\nNEXT".to_string(), vec![i(0), i(1), i(2), i(3)]),
    };
    let o = run(&w, &src);
    rt::check(o.ok(), "completes");
    expect_outs(&w, &want, "stores reach the variable named");
}

// ---------------------------------------------------------------------------- chunks

/// Programs as sequences of units that can be compiled separately.
fn units(case: usize) -> Vec<&'static str> {
    match case {
        0 => vec!["a = IV(0)", "b = a XOR 1", "IF BV(0) THEN\na = 5\nELSE\nb = 6\nEND IF", "OUT a, b", "s$ = SV(0)", "s = s + \"x\": OUT s"],
        1 => vec!["FUNCTION f(n%)\nIF n < 2 THEN f = 1 ELSE f = n * f(n - 1)\nEND FUNCTION", "x = f(3)", "SUB p(v%)\nOUT f(v), v\nEND SUB", "p x", "IF BV(0) THEN p 2", "OUT x"],
        2 => vec!["DIM SHARED g AS INTEGER", "SUB inc\ng = g XOR IV(0)\nEND SUB", "inc", "DIM arr(3) AS STRING", "arr(1) = SV(0): inc", "OUT g, arr(0), arr(1)"],
        3 => vec!["DATA 1, \"x\", TRUE", "GETDATA", "OUT 1", "IF BV(0) THEN OUT 2 ELSE OUT 3", "DATA -2.5", "DATA , 7\nGETDATA"],
        4 => vec!["i = 0", "@again\ni = i + 1", "OUT i", "IF i < 3 AND BV(0) THEN GOTO @again", "GOSUB @sub\nGOTO @over\n@sub\nOUT 50\nRETURN\n@over", "OUT 99"],
        5 => vec!["ON ERROR RESUME NEXT", "FAIL 0", "OUT LASTERR", "x = IV(0): FAIL 1: OUT x", "ON ERROR GOTO 0", "OUT 3"],
        6 => vec!["DECLARE FUNCTION later%(n%)", "SUB q\nOUT later(IV(0))\nEND SUB\nFUNCTION later%(n%)\nlater = n XOR 1\nEND FUNCTION", "q", "FOR k = 1 TO 2: OUT k: NEXT", "d# = 1", "d = d / 4: OUT d"],
        _ => vec!["c = 0", "DO WHILE c < 3\nc = c + 1\nIF BV(0) AND c = 2 THEN EXIT DO\nLOOP", "SELECT CASE c\nCASE 2\nOUT \"two\"\nCASE ELSE\nOUT \"other\"\nEND SELECT", "z? = BV(0)", "OUT z, c", "DIM m(2, 2) AS DOUBLE: m(1, 1) = c: OUT m(1, 1)"],
    }
}
const TAIL: &str = "DIM newv AS STRING\nnewv = \"q\"\nOUT newv\nFUNCTION newf$(p$)\nnewf = p + newv2\nEND FUNCTION\nGOTO @newl\nOUT 98\n@newl\nGETDATA";

fn bad(k: usize) -> &'static str {
    match k {
        0 => "zz = ",
        1 => "newv = 5: OUT 1: OUT undefd",
        2 => "FUNCTION newf%(a%)\nnewf = a\nEND FUNCTION\nOUT undefd",
        3 => "DATA 77\nOUT undefd",
        4 => "@newl\nOUT undefd",
        5 => "DIM SHARED newv(3) AS INTEGER: newv(1) = 1: x = undefd",
        6 => "OUT 1: GOTO @nowhere",
        7 => "FOR newv = 1 TO 3",
        8 => "SUB newf\nOUT 5\nEND SUB: newf 3",
        _ => "DECLARE FUNCTION newf#(x#)\nOUT 1 + \"x\"",
    }
}

fn chunk_world() -> Rc<World> {
    let w = world();
    push_int(&w, rt::i32_());
    w.bools.borrow_mut().push(rt::bool_());
    w.strs.borrow_mut().push(String::from_utf8(vec![b'a' + (rt::u8_() & 15)]).unwrap());
    for _ in 0..2 { push_fail(&w, rt::bool_()); }
    w
}
fn twin(w: &Rc<World>) -> Rc<World> {
    let n = world();
    *n.ints.borrow_mut() = w.ints.borrow().clone();
    *n.bools.borrow_mut() = w.bools.borrow().clone();
    *n.strs.borrow_mut() = w.strs.borrow().clone();
    *n.fails.borrow_mut() = w.fails.borrow().clone();
    n
}
fn same_data(a: &World, b: &World) -> bool {
    let (a, b) = (a.data.borrow(), b.data.borrow());
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| match (x, y) { (None, None) => true, (Some(x), Some(y)) => x.same(y), _ => false })
}

/// A program split in chunks anywhere, with or without chunks in between that do not compile,
/// behaves like the whole program. Case: program * 2 + (0 splits, 1 failed chunks).
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_chunks(case: u32) {
    let u = units(case as usize / 2);
    let w = chunk_world();
    let w2 = twin(&w);
    let whole = format!("{}\n{}", u.join("\n"), TAIL).replace("newv2", "newv");
    // A function cannot see the program's variables.
    let tail = TAIL.replace("newv2", "\"!\"");
    let whole = whole.replace("p + newv", "p + \"!\"");
    let o1 = run(&w2, &whole);
    rt::check(o1.ok(), "the whole program runs");
    let mut m = Machine::new(&w);
    let (mask, at, which) = if case % 2 == 0 { (rt::choose(1 << u.len()), 99, 0) } else { (rt::pick(&[63, 0, 42]), rt::choose(u.len() + 1), rt::choose(10)) };
    let mut cur = String::new();
    let flush = |m: &mut Machine, cur: &mut String| {
        if !cur.is_empty() { let o = m.run(cur.as_bytes()); rt::check(o.ok(), "every chunk compiles and runs"); cur.clear(); }
    };
    for (k, x) in u.iter().enumerate() {
        if k == at {
            flush(&mut m, &mut cur);
            let outs = w.outs.borrow().len();
            rt::check(m.compile(bad(which).as_bytes()).is_err(), "a chunk in error is rejected");
            let o = m.exec();
            rt::check(matches!(o, Outcome::Eof), "nothing is left to run after a rejected chunk");
            rt::check(w.outs.borrow().len() == outs, "a rejected chunk runs nothing");
        }
        if !cur.is_empty() { cur.push('\n'); }
        cur.push_str(x);
        if mask >> k & 1 == 1 { flush(&mut m, &mut cur); }
    }
    flush(&mut m, &mut cur);
    if at == u.len() { rt::check(m.compile(bad(which).as_bytes()).is_err(), "a chunk in error is rejected"); }
    let o = m.run(tail.as_bytes());
    rt::check(o.ok(), "names of a rejected chunk stay free");
    let want = w2.outs.borrow().clone();
    expect_outs(&w, &want, "chunks behave like the whole program");
    rt::check(same_data(&w, &w2), "chunks provide the same data as the whole program");
    rt::cover("same");
}

/// State after a stop (error, END, interruption) at any point: what ran stays, what did not run
/// never runs, later chunks start at the top level.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_after(case: u32) {
    let w = chunk_world();
    push_int(&w, rt::i32_());
    let (i0, i1) = (w.ints.borrow()[0], w.ints.borrow()[1]);
    let f: Vec<bool> = w.fails.borrow().clone();
    let mut m = Machine::new(&w);
    let (src, stop_line, next, want): (&str, usize, &str, Vec<V>) = match case {
        0 => ("DIM SHARED g AS INTEGER\nv = IV(0)\nSUB s\nl = 3\ng = IV(1)\nFAIL 0\ng = 7\nEND SUB\ns\nFAIL 1\nv = 1", if f[0] { 6 } else if f[1] { 10 } else { 0 }, "OUT v, g",
              vec![V::I(if f[0] || f[1] { i0 } else { 1 }), V::I(if f[0] { i1 } else { 7 })]),
        1 => ("v = IV(0)\nGOSUB @g\nv = 2\nGOTO @out\n@g\nFAIL 0\nv = 9\nRETURN\n@out", if f[0] { 6 } else { 0 }, "OUT v\nON ERROR RESUME NEXT\nRETURN\nOUT 5", vec![V::I(if f[0] { i0 } else { 2 }), V::I(5)]),
        2 => ("FOR v = 1 TO 3\nFAIL 0\nNEXT\nw = 1 / 0", if f[0] { 2 } else { 4 }, "OUT v", vec![V::I(if f[0] { 1 } else { 4 })]),
        3 => ("FUNCTION r(n%)\nIF n = 0 THEN\nFAIL 0\nEND 3\nEND IF\nr = r(n - 1)\nEND FUNCTION\nv = IV(0)\nv = r(3)\nOUT 1", if f[0] { 3 } else { 9999 }, "OUT v\nOUT 6", vec![V::I(i0), V::I(6)]),
        4 => ("a$ = SV(0)\nDIM q(2) AS STRING\nq(1) = a + \"x\"\nSUB s(t$)\nu$ = t + t\nFAIL 0\nEND SUB\ns a\nEND", if f[0] { 6 } else { 9998 }, "OUT a, q(1), q(0)", vec![V::S(w.strs.borrow()[0].clone()), V::S(w.strs.borrow()[0].clone() + "x"), V::S("".into())]),
        _ => ("SUB s\nAFAIL 0\nOUT 1\nEND SUB\nv = AV(0)\ns\nv = AV(1)\nAFAIL 1", if f[0] { 2 } else if f[1] { 8 } else { 0 }, "OUT v", { let mut x = vec![]; if !f[0] { x.push(V::I(1)); } x.push(V::I(if f[0] { i0 } else { i1 })); x }),
    };
    let o = m.run(src.as_bytes());
    rt::observe("outcome", o.code());
    match stop_line {
        0 => rt::check(matches!(o, Outcome::Eof), "runs to the end"),
        9999 => rt::check(matches!(o, Outcome::End(3)), "ends with its code"),
        9998 => rt::check(matches!(o, Outcome::End(0)), "ends"),
        l => rt::check(matches!(o, Outcome::Exc(x, _, _) if x == l), "stops at the failing statement"),
    }
    rt::check(matches!(m.exec(), Outcome::Eof), "nothing resumes by itself");
    let o = m.run(next.as_bytes());
    rt::check(o.ok(), "later chunks run");
    expect_outs(&w, &want, "what ran before a stop stays and nothing else runs");
}

// ---------------------------------------------------------------------------- stops

/// Loops of every kind stop to yield at least once per iteration, and can be interrupted at any
/// stop, after which later chunks run.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_yield(case: u32) {
    let w = world();
    push_int(&w, rt::i32_());
    w.bools.borrow_mut().push(rt::bool_());
    let loops = ["DO: OUT 1: LOOP", "WHILE TRUE: OUT 1: WEND", "DO WHILE TRUE: OUT 1: LOOP", "DO UNTIL FALSE: OUT 1: LOOP", "DO: OUT 1: LOOP WHILE TRUE", "DO: OUT 1: LOOP UNTIL FALSE",
        "FOR i = 1 TO 1000000: OUT 1: NEXT", "FOR i# = 0.5 TO 1000000: OUT 1: NEXT", "@top\nOUT 1\nGOTO @top", "DO: LOOP", "WHILE TRUE: WEND", "@top\nGOTO @top",
        "DO: IF BV(0) THEN OUT 1 ELSE OUT 1\nLOOP", "DO: SELECT CASE IV(0)\nCASE 1: OUT 1\nCASE ELSE: OUT 1\nEND SELECT\nLOOP", "DO: GOSUB @s: LOOP\n@s\nOUT 1\nRETURN", "ON ERROR GOTO @top\n@top\nOUT 1\nGOTO @top",
        "DO: FOR i = 1 TO 1: OUT 1: NEXT: LOOP", "FOR i = 1 TO 1000000: NEXT", "DO: DO: LOOP WHILE FALSE: LOOP", "SUB s: OUT 1: END SUB: DO: s: LOOP", "DO: x = AV(0): LOOP"];
    let src = loops[case as usize % loops.len()];
    let inside = rt::choose(3);
    let src = match inside { 0 => src.to_owned(), 1 => format!("GOSUB @in\nEND\n@in\n{}", src), _ => if src.contains("SUB") { rt::assume(false); String::new() } else { format!("SUB deep\n{}\nEND SUB\nkeep = IV(0)\ndeep", src) } };
    let mut m = Machine::new(&w);
    rt::check(m.compile(src.replace(": ", "\n").as_bytes()).is_ok(), "compiles");
    let stops = 1 + rt::choose(3);
    for _ in 0..stops {
        let before = w.outs.borrow().len();
        match m.vm.exec(&m.img) {
            StopReason::Yield => (),
            StopReason::UpcallAsync(h) => { if rt::choose(2) == 0 { rt::check(rt::block_on(h.invoke()).is_ok(), "async call"); } }
            _ => rt::fail("an endless loop never ends"),
        }
        rt::check(w.outs.borrow().len() - before <= 2, "a loop gives control back in every iteration");
    }
    let before = w.outs.borrow().len();
    m.vm.interrupt(&m.img);
    rt::check(matches!(m.vm.exec(&m.img), StopReason::Eof), "an interrupted program does not continue");
    rt::check(w.outs.borrow().len() == before, "nothing runs after an interruption");
    let o = m.run(if inside == 2 { b"OUT keep\nkeep2 = 3\nOUT keep2" } else { b"keep2 = 3\nOUT keep2" });
    rt::check(o.ok(), "later chunks run after an interruption");
    let outs = w.outs.borrow();
    let mut want = vec![V::I(3)];
    if inside == 2 { want.insert(0, V::I(w.ints.borrow()[0])); }
    rt::check(outs.len() == before + want.len(), "later chunks run after an interruption");
    for (o, x) in outs[before..].iter().zip(&want) { rt::check(o.same(x), "variables survive an interruption"); }
    rt::cover("interrupted");
}

/// Asynchronous functions and commands behave like synchronous ones, and yields are invisible.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_async(case: u32) {
    let w = world_i(3);
    push_fail(&w, rt::bool_());
    let w2 = twin(&w);
    let src = match case {
        0 => "OUT AV(0) + AV(1) * 0, AV(2)",
        1 => "a = AV(0): b = AV(a AND 1): OUT a, b: DIM q(3) AS INTEGER: q(AV(1) AND 1) = AV(2): OUT q(0), q(1)",
        2 => "FUNCTION f(x%): f = AV(x) XOR x: END FUNCTION: OUT f(0), f(AV(0) AND 1), f(2)",
        3 => "IF AV(0) > 5 THEN OUT 1 ELSE OUT 2\nSELECT CASE AV(1)\nCASE 1 TO 9: OUT 3\nCASE ELSE: OUT 4\nEND SELECT",
        4 => "FOR i = AV(0) AND 3 TO (AV(1) AND 3) STEP 1: OUT i, AV(i AND 1): NEXT",
        5 => "ON ERROR RESUME NEXT\nAFAIL 0\nOUT LASTERR, 1\nx = AV(0)\nAFAIL 0\nOUT x",
        6 => "ON ERROR GOTO @h\nOUT 1\nAFAIL 0\nOUT AV(0)\nEND 4\n@h\nOUT 5, AV(1)",
        _ => "DO WHILE n < 3 AND AV(0) > n\nn = n + 1\nOUT n\nLOOP",
    };
    let src = if case == 7 { format!("n = 0\n{}", src) } else { src.to_owned() };
    let src = src.replace(": ", "\n");
    let a = run(&w, &src);
    let b = run(&w2, &src.replace("AV(", "IV(").replace("AFAIL", "FAIL"));
    rt::check(a.ok() == b.ok() || matches!((&a, &b), (Outcome::End(x), Outcome::End(y)) if x == y), "same outcome");
    let want = w2.outs.borrow().clone();
    expect_outs(&w, &want, "asynchronous calls behave like synchronous ones");
    rt::check(w.async_calls.get() > 0 || case == 6 || case == 5, "asynchronous calls happen");
}

rt::harness_main!(h_args, h_outs, h_refs, h_chunks, h_after, h_yield, h_async);

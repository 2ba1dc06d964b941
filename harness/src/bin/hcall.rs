//! Arrays, FUNCTION and SUB, error handling, limits and program data.
use endbasic_core::*;
use rt::lang::*;
use std::rc::Rc;

fn push_int(w: &World, v: i32) { w.ints.borrow_mut().push(v); }
fn push_dbl(w: &World, v: f64) { w.dbls.borrow_mut().push(v); }
fn push_bool(w: &World, v: bool) { w.bools.borrow_mut().push(v); }
fn push_str(w: &World, v: &str) { w.strs.borrow_mut().push(v.to_owned()); }
fn push_fail(w: &World, v: bool) { w.fails.borrow_mut().push(v); }
fn int(w: &World, k: usize) -> i32 { w.ints.borrow()[k] }
fn small(lo: i32, hi: i32) -> i32 { let v = rt::i32_(); rt::assume((v >= lo) & (v <= hi)); v }

// ---------------------------------------------------------------------------- arrays

/// An element value of the chosen type, as an expression and as a value.
fn elem(w: &World, t: usize) -> (String, V) {
    match t {
        0 => { let v = rt::i32_(); push_int(w, v); (format!("IV({})", w.ints.borrow().len() - 1), V::I(v)) }
        1 => { let v = rt::f64_(); push_dbl(w, v); (format!("DV({})", w.dbls.borrow().len() - 1), V::D(v)) }
        2 => { let v = rt::bool_(); push_bool(w, v); (format!("BV({})", w.bools.borrow().len() - 1), V::B(v)) }
        _ => { let b = rt::u8_(); rt::assume(b >= 32 && b < 127); push_str(w, &(b as char).to_string()); (format!("SV({})", w.strs.borrow().len() - 1), V::S((b as char).to_string())) }
    }
}
const TYPES: [&str; 4] = ["INTEGER", "DOUBLE", "BOOLEAN", "STRING"];
fn zero(t: usize) -> V { match t { 0 => V::I(0), 1 => V::D(0.0), 2 => V::B(false), _ => V::S(String::new()) } }

/// Stores to and reads from an array with arbitrary subscripts. Case: dimensions * 4 + type.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_array(case: u32) {
    let (nd, t) = ((case / 4 + 1) as usize, (case % 4) as usize);
    let w = world();
    let dims: Vec<i32> = match nd { 1 => vec![rt::pick(&[1, 3, 5])], 2 => vec![rt::pick(&[1, 3]), rt::pick(&[2, 4])], _ => vec![2, rt::pick(&[1, 3]), 2] };
    let dtext: Vec<String> = dims.iter().map(|d| d.to_string()).collect();
    let sub = |n: usize| -> (String, Vec<i32>) {
        let mut v = vec![];
        for _ in 0..n { let x = rt::i32_(); push_int(&w, x); v.push(x); }
        let base = w.ints.borrow().len() - n;
        ((0..n).map(|k| format!("IV({})", base + k)).collect::<Vec<_>>().join(", "), v)
    };
    let (s1, p1) = sub(nd);
    let (s2, p2) = sub(nd);
    let (s3, p3) = sub(nd);
    let (e1, v1) = elem(&w, t);
    let (e2, v2) = elem(&w, t);
    let shared = rt::choose(2) == 1;
    let o = run(&w, &format!("DIM {}a({}) AS {}\nOUT 1\na({}) = {}\nOUT 2\na({}) = {}\nOUT 3\nOUT a({})\nOUT 4", if shared { "SHARED " } else { "" }, dtext.join(", "), TYPES[t], s1, e1, s2, e2, s3));
    let inside = |p: &[i32]| { let mut ok = true; for (x, d) in p.iter().zip(&dims) { ok &= *x >= 0 && x < d; } ok };
    let same = |a: &[i32], b: &[i32]| { let mut ok = true; for (x, y) in a.iter().zip(b) { ok &= x == y; } ok };
    let mut want = vec![V::I(1)];
    let mut bad = 0;
    if !inside(&p1) { bad = 3; } else {
        want.push(V::I(2));
        if !inside(&p2) { bad = 5; } else {
            want.push(V::I(3));
            if !inside(&p3) { bad = 7; } else {
                want.push(if same(&p3, &p2) { v2 } else if same(&p3, &p1) { v1 } else { zero(t) });
                want.push(V::I(4));
            }
        }
    }
    rt::observe("outcome", o.code());
    expect_outs(&w, &want, "an array element holds what was last stored in it");
    if bad > 0 { rt::check(matches!(&o, Outcome::Exc(l, _, m) if *l == bad && m.starts_with("Subscript ")), "a subscript out of bounds is an error at its statement"); rt::cover("out of bounds"); }
    else { rt::check(o.ok(), "completes"); rt::cover("stored"); }
}

/// DIM with arbitrary sizes: either all subscripts below the sizes work or the DIM fails.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_dim(case: u32) {
    let w = world();
    let (a, b) = match case { 0 => (rt::i32_(), rt::i32_()), 1 => (i32::MAX, rt::pick(&[i32::MAX, 65536, 4])), _ => (small(1, 3), small(1, 3)) };
    if case == 0 { rt::assume(a <= 0 || b <= 0); }
    push_int(&w, a);
    push_int(&w, b);
    let src = if case == 1 { "OUT 1\nDIM a(IV(0), IV(1), IV(0), IV(1))\nOUT 2\na(1, 1, 1, 1) = 7" } else { "OUT 1\nDIM a(IV(0), IV(1))\nOUT 2\na(IV(0) - 1, IV(1) - 1) = 7\nOUT a(IV(0) - 1, IV(1) - 1)\nOUT a(IV(0) - 1, IV(1))" };
    let o = run(&w, src);
    if case == 2 {
        expect_outs(&w, &[V::I(1), V::I(2), V::I(7)], "sizes are element counts");
        rt::check(matches!(o, Outcome::Exc(6, ..)), "the size itself is not a subscript");
    } else {
        rt::log(o.msg());
        expect_outs(&w, &[V::I(1)], "a bad size is an error");
        rt::check(matches!(&o, Outcome::Exc(2, ..)), "a bad size is an error at the DIM");
    }
}

/// Double subscripts behave as the integer they convert to.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_array_double(_case: u32) {
    let w = world();
    let d = rt::f64_();
    push_dbl(&w, d);
    let pre = "DIM a(4)\nFOR i = 0 TO 3\na(i) = i * 10\nNEXT\n";
    let store = rt::choose(2) == 1;
    let o1 = run(&w, &format!("{}{}", pre, if store { "a(DV(0)) = 77\nOUT a(0), a(1), a(2), a(3)" } else { "OUT a(DV(0))" }));
    let got: Vec<V> = w.outs.borrow_mut().drain(..).collect();
    let o2 = run(&w, &format!("{}k = 0\nk = DV(0)\n{}", pre, if store { "a(k) = 77\nOUT a(0), a(1), a(2), a(3)" } else { "OUT a(k)" }));
    rt::check(o1.ok() == o2.ok(), "a double subscript fails when its integer conversion does");
    expect_outs(&w, &got, "a double subscript selects the element of its integer conversion");
    if o1.ok() { rt::cover("stored"); }
}

/// Arrays are independent of each other, fresh in each call, visible where they should be, and
/// what the host sees is what the program sees.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_array_scope(case: u32) {
    let w = world();
    let (x, y, i) = (rt::i32_(), rt::i32_(), small(0, 2));
    for v in [x, y, i] { push_int(&w, v); }
    let (src, want) = match case {
        0 => ("DIM a(3)\nDIM b(3)\na(IV(2)) = IV(0)\nb(IV(2)) = IV(1)\nOUT a(IV(2)), b(IV(2))", vec![V::I(x), V::I(y)]),
        1 => ("SUB s(v)\nDIM l(3)\nOUT l(IV(2))\nl(IV(2)) = v\nOUT l(IV(2))\nEND SUB\ns IV(0)\ns IV(1)", vec![V::I(0), V::I(x), V::I(0), V::I(y)]),
        2 => ("DIM SHARED g(3)\nSUB s(v)\nOUT g(IV(2))\ng(IV(2)) = v\nEND SUB\ns IV(0)\ns IV(1)\nOUT g(IV(2))", vec![V::I(0), V::I(x), V::I(y)]),
        3 => ("DIM g(3)\ng(0) = IV(0)\nSUB s(v)\nDIM g(3)\ng(0) = v\nOUT g(0)\nEND SUB\ns IV(1)\nOUT g(0)", vec![V::I(y), V::I(x)]),
        4 => ("FUNCTION f(n)\nDIM l(2)\nl(0) = n * 3\nIF n > 0 THEN l(1) = f(n - 1) ELSE l(1) = 100\nf = l(0) + l(1)\nEND FUNCTION\nOUT f(IV(2))", vec![V::I(100 + match i { 0 => 0, 1 => 3, _ => 9 })]),
        5 => ("DIM a(3) AS STRING\nFOR k = 0 TO 2\na(k) = SV(0)\nNEXT\na(1) = a(1) + \"z\"\nOUT a(0), a(1), a(2)", vec![V::S("q".into()), V::S("qz".into()), V::S("q".into())]),
        _ => ("k = 0\n@again\nDIM a(3)\nOUT a(IV(2))\na(IV(2)) = IV(0)\nOUT a(IV(2))\nk = k + 1\nIF k < 2 THEN GOTO @again", vec![V::I(0), V::I(x), V::I(0), V::I(x)]),
    };
    push_str(&w, "q");
    let mut m = Machine::new(&w);
    let o = m.run(src.as_bytes());
    rt::check(o.ok(), "completes");
    expect_outs(&w, &want, "arrays live in their own scope");
    let name = SymbolKey::from(match case { 0 | 3 | 6 => if case == 3 { "g" } else { "a" }, _ => return });
    let j = rt::i32_();
    let r = m.vm.get_program_array(&m.img, &name, &[j]);
    if j < 0 || j > 2 { rt::check(r.is_err(), "the host cannot read outside of the array"); }
    else {
        let e = if case == 3 { if j == 0 { x } else { 0 } } else if j == i { x } else { 0 };
        rt::check(matches!(r, Ok(Some(ConstantDatum::Integer(v))) if v == e), "the host reads what the program stored");
    }
}

/// Misuse of arrays is reported by the compiler.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_array_misuse(_case: u32) {
    let w = world();
    let (src, line) = rt::pick(&[
        ("DIM a(3)\na = 1", 2), ("DIM a(3)\nOUT a", 2), ("DIM a(3)\nOUT a(1, 2)", 2), ("DIM a(3)\na(1, 2) = 3", 2), ("DIM a(3)\nDIM a(3)", 2), ("a = 1\na(1) = 3", 2), ("a = 1\nOUT a(1)", 2),
        ("OUT zz(1)", 1), ("zz(1) = 2", 1), ("DIM a(3)\na(\"x\") = 1", 2), ("DIM a(3)\nOUT a(TRUE)", 2), ("DIM a(3) AS STRING\na(1) = 5", 2), ("DIM a(3)\na(1) = \"x\"", 2), ("DIM a(3)\nOUT a$(1)", 2), ("DIM a(\"x\")", 1), ("DIM a(3)\nOUT a()", 2),
    ]);
    let o = run(&w, src);
    rt::log(src);
    rt::log(o.msg());
    rt::check(matches!(&o, Outcome::Compile(l, c, m) if *l == line && *c >= 1 && !m.is_empty()), "misuse of an array is rejected where it happens");
    expect_outs(&w, &[], "rejected programs do not run");
}

// ---------------------------------------------------------------------------- FUNCTION and SUB

/// Calls with arbitrary argument values: each case is one program and what it has to print.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_calls(case: u32) {
    let w = world();
    let (x, y, n) = (rt::i32_(), rt::i32_(), small(0, 4));
    for v in [x, y, n] { push_int(&w, v); }
    let (b, c) = (rt::bool_(), rt::bool_());
    push_bool(&w, b);
    push_bool(&w, c);
    push_str(&w, "q");
    let i = V::I;
    let t = |k: usize| V::S(format!("ti{}", k));
    let (src, want): (&str, Vec<V>) = match case {
        // Arguments are copies.
        0 => ("SUB s(v)\nOUT v\nv = 5\nOUT v\nEND SUB\nx = IV(0)\ns x\nOUT x\ns IV(1)\nOUT x", vec![i(x), i(5), i(x), i(y), i(5), i(x)]),
        1 => ("FUNCTION f(a, b)\nOUT a, b\na = b\nf = a\nEND FUNCTION\na = IV(0): b = IV(1)\nOUT f(b, a)\nOUT a, b", vec![i(y), i(x), i(x), i(x), i(y)]),
        2 => ("SUB s(t$)\nt = t + \"!\"\nOUT t\nEND SUB\nu = SV(0)\ns u\ns u\nOUT u", vec![V::S("q!".into()), V::S("q!".into()), V::S("q".into())]),
        // Locals do not leak in either direction.
        3 => ("v = IV(0)\nSUB s\nv = IV(1)\nOUT v\nEND SUB\ns\nOUT v\ns\nOUT v", vec![i(y), i(x), i(y), i(x)]),
        4 => ("DIM SHARED g AS INTEGER\ng = IV(0)\nSUB s\nOUT g\ng = IV(1)\nEND SUB\ns\nOUT g\nv = g\nOUT v", vec![i(x), i(y), i(y)]),
        5 => ("DIM SHARED g AS INTEGER\ng = IV(0)\nSUB s(g)\nOUT g\ng = 3\nEND SUB\ns IV(1)\nOUT g", vec![i(y), i(x)]),
        // Recursion keeps each call's own values.
        6 => {
            let mut o = vec![];
            for k in (0..=n).rev() { o.push(i(k)); }
            let mut s = 0;
            for k in 0..=n { s += k * 7; o.push(i(k * 7)); }
            o.push(i(s));
            ("FUNCTION f(n)\nm = n * 7\nOUT n\nr = 0\nIF n > 0 THEN r = f(n - 1)\nOUT m\nf = m + r\nEND FUNCTION\nOUT f(IV(2))", o)
        }
        7 => {
            let e = n % 2 == 0;
            ("DECLARE FUNCTION even?(n)\nFUNCTION odd?(n)\nIF n > 0 THEN odd = even(n - 1)\nEND FUNCTION\nFUNCTION even?(n)\nIF n = 0 THEN even = TRUE ELSE even = odd(n - 1)\nEND FUNCTION\nOUT even(IV(2)), odd(IV(2))", vec![V::B(e), V::B(!e)])
        }
        8 => {
            let f = [1, 1, 2, 3, 5][n as usize];
            ("FUNCTION fib(n)\nIF n < 2 THEN\nfib = 1\nEXIT FUNCTION\nEND IF\nfib = fib(n - 1) + fib(n - 2)\nEND FUNCTION\nOUT fib(IV(2)) * 2 + fib(0)", vec![i(f * 2 + 1)])
        }
        // Results start at the default of their type.
        9 => ("k# = 2.5\nFUNCTION i%\nEND FUNCTION\nFUNCTION d#\nEND FUNCTION\nFUNCTION s$\nEND FUNCTION\nFUNCTION t?\nEND FUNCTION\nOUT i, d, s, t", vec![i(0), V::D(0.0), V::S("".into()), V::B(false)]),
        10 => ("FUNCTION f#(b?)\nIF b THEN f = 1.5\nEND FUNCTION\nFUNCTION g$(b?)\nIF b THEN g = \"x\"\nEND FUNCTION\nOUT f(BV(0)), g(BV(1)), f(BV(1)), g(BV(0))",
               vec![V::D(if b { 1.5 } else { 0.0 }), V::S(if c { "x" } else { "" }.into()), V::D(if c { 1.5 } else { 0.0 }), V::S(if b { "x" } else { "" }.into())]),
        // Early exits.
        11 => {
            let mut o = vec![];
            for k in 0..=3 { if k == n { break; } o.push(i(k)); }
            o.push(i(if n <= 3 { 50 } else { 60 }));
            ("FUNCTION f(n)\nf = 60\nFOR k = 0 TO 3\nDO\nIF k = n THEN\nf = 50\nEXIT FUNCTION\nEND IF\nEXIT DO\nLOOP\nOUT k\nNEXT\nEND FUNCTION\nOUT f(IV(2))", o)
        }
        12 => ("SUB s(b?)\nOUT 1\nIF b THEN EXIT SUB\nOUT 2\nEND SUB\ns BV(0)\ns BV(1)\nOUT 3", { let mut o = vec![i(1)]; if !b { o.push(i(2)); } o.push(i(1)); if !c { o.push(i(2)); } o.push(i(3)); o }),
        // Arguments are evaluated once each, left to right, before the call.
        13 => ("SUB s(a, b, c)\nOUT a, b, c\nEND SUB\ns TI(0), TI(1), TI(2)", vec![t(0), t(1), t(2), i(x), i(y), i(n)]),
        14 => ("FUNCTION f(a, b)\nOUT a\nf = b\nEND FUNCTION\nOUT f(f(TI(0), TI(1)), f(TI(2), TI(0)))", vec![t(0), t(1), i(x), t(2), t(0), i(n), i(y), i(x)]),
        15 => ("FUNCTION f(a)\nOUT a\nf = a\nEND FUNCTION\nOUT f(1) - f(2) * f(3) + f(4)", vec![i(1), i(2), i(3), i(4), i(-1)]),
        // A call in an expression leaves the rest of the expression alone.
        16 => ("FUNCTION f(a)\nz = a: y = a: x = a: w = a\nf = x\nEND FUNCTION\nx = IV(0)\ny = IV(1)\nOUT 7, (x = 1) = (f(3) = 3), x, y, f(y), x", vec![i(7), V::B(x == 1), i(x), i(y), i(y), i(x)]),
        17 => ("SUB a(v)\nOUT v\nEND SUB\nSUB b(v)\na v\na v + 0\nEND SUB\nb IV(0)\nFOR k = 1 TO 2\nb k\nNEXT\nOUT k", vec![i(x), i(x), i(1), i(1), i(2), i(2), i(3)]),
        // GOSUB within a callable.
        18 => ("SUB s(v)\nGOSUB @in\nOUT 2\nGOSUB @in\nEXIT SUB\n@in\nOUT v\nRETURN\nEND SUB\ns IV(0)\ns IV(1)\nOUT 3", vec![i(x), i(2), i(x), i(y), i(2), i(y), i(3)]),
        // Definitions are skipped where they stand.
        19 => ("OUT 1\nSUB s\nOUT 2\nEND SUB\nOUT 3\nIF BV(0) THEN s\nFUNCTION f\nOUT 4\nf = 5\nEND FUNCTION\nOUT f", { let mut o = vec![i(1), i(3)]; if b { o.push(i(2)); } o.push(i(4)); o.push(i(5)); o }),
        20 => ("SUB s(n)\nIF n > 0 THEN\nOUT n\ns n - 1\nOUT n\nEND IF\nEND SUB\ns IV(2)", { let mut o = vec![]; for k in (1..=n).rev() { o.push(i(k)); } for k in 1..=n { o.push(i(k)); } o }),
        21 => ("FUNCTION rep$(s$, n)\nIF n > 0 THEN rep = s + rep(s, n - 1)\nEND FUNCTION\nOUT rep(SV(0), IV(2))", vec![V::S("q".repeat(n as usize))]),
        // Names of functions are variables only inside of them.
        22 => ("FUNCTION f(a)\nf = a\nf = f + 0\nOUT f\nEND FUNCTION\nOUT f(IV(0))", vec![i(x), i(x)]),
        _ => ("FUNCTION f(a#, b%)\nOUT a, b\nf = 2.5\nEND FUNCTION\nOUT f(3, 4.5)\nOUT f(1.5, 2)", vec![V::D(3.0), i(5), i(3), V::D(1.5), i(2), i(3)]),
    };
    rt::log(src);
    let o = run(&w, src);
    rt::observe("outcome", o.code());
    rt::log(o.msg());
    expect_outs(&w, &want, "calls pass values and come back");
    rt::check(o.ok(), "completes");
}

/// Misuse of callables is reported by the compiler.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_calls_misuse(_case: u32) {
    let w = world();
    let (src, line) = rt::pick(&[
        ("SUB s(a)\nEND SUB\ns", 3), ("SUB s(a)\nEND SUB\ns 1, 2", 3), ("SUB s(a)\nEND SUB\ns 1; 2", 3), ("SUB s(a)\nEND SUB\ns \"x\"", 3), ("SUB s(a$)\nEND SUB\ns 1", 3), ("SUB s\nEND SUB\ns 1", 3),
        ("SUB s\nEND SUB\nOUT s", 3), ("FUNCTION f\nEND FUNCTION\nf", 3), ("FUNCTION f(a)\nEND FUNCTION\nOUT f", 3), ("FUNCTION f(a)\nEND FUNCTION\nOUT f(1, 2)", 3), ("FUNCTION f(a)\nf = \"x\"\nEND FUNCTION", 2),
        ("FUNCTION f(a, a)\nEND FUNCTION", 1), ("FUNCTION f(f)\nEND FUNCTION", 1), ("SUB s\nEND SUB\nSUB s\nEND SUB", 3), ("SUB s\nSUB t\nEND SUB\nEND SUB", 2), ("DECLARE SUB s(a)\nSUB s(a$)\nEND SUB", 2), ("DECLARE FUNCTION f(a)\nOUT f(1)", 2), ("DECLARE SUB s(a)\ns 1", 2),
        ("EXIT SUB", 1), ("EXIT FUNCTION", 1), ("SUB s\nEXIT FUNCTION\nEND SUB", 2), ("FUNCTION f\nEXIT SUB\nEND FUNCTION", 2), ("DO\nSUB s\nEXIT DO\nEND SUB\nLOOP", 3), ("FOR i = 1 TO 2\nSUB s\nEXIT FOR\nEND SUB\nNEXT", 3), ("s\nSUB s\nEND SUB", 1), ("OUT f\nFUNCTION f\nEND FUNCTION", 1),
        ("v = 1\nSUB s\nOUT v\nEND SUB", 3), ("SUB s\nv = 1\nEND SUB\nOUT v", 4), ("SUB s(v)\nEND SUB\nOUT v", 3), ("DIM SHARED v AS INTEGER\nDIM SHARED v AS INTEGER", 2), ("SUB s\nEND SUB\ns = 1", 3), ("SUB s\nEND SUB\nDIM s AS INTEGER", 3), ("DIM SHARED s AS INTEGER\nSUB s\nEND SUB", 2), ("SUB s\nOUT 1", 1), ("SUB s\nEND FUNCTION", 1),
    ]);
    rt::log(src);
    let o = run(&w, src);
    rt::log(o.msg());
    rt::check(matches!(&o, Outcome::Compile(l, c, m) if *l >= line && *l <= line + 1 && *c >= 1 && !m.is_empty()), "misuse of a callable is rejected where it happens");
    expect_outs(&w, &[], "rejected programs do not run");
}

/// Expressions that read a shared variable and call functions that read and change it: operands
/// have the value they have when evaluation reaches them, left to right.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shared(case: u32) {
    let w = world_i(3);
    let (x, y, z) = (w.ints.borrow()[0], w.ints.borrow()[1], w.ints.borrow()[2]);
    let atoms: Vec<usize> = (0..3).map(|_| rt::choose(4)).collect();
    let right = rt::choose(2) == 1;
    let neg = rt::choose(2) == 1;
    let g = std::cell::Cell::new(z);
    let f = || { let r = g.get() ^ 3; g.set(g.get() ^ y); r };
    let atom = |k: usize| match k { 0 => g.get(), 1 => f(), 2 => x, _ => { let a = g.get() ^ 1; let r = a ^ g.get(); g.set(5); r } };
    let name = ["g", "f", "IV(0)", "h(g XOR 1)"];
    let not = |v: i32| if neg { !v } else { v };
    let a = atom(atoms[0]);
    let v = if right { let b = atom(atoms[1]); let c = atom(atoms[2]); a ^ not(b & c) } else { let ab = not(a ^ atom(atoms[1])); ab & atom(atoms[2]) };
    let n = if neg { "NOT " } else { "" };
    let e = if right { format!("{} XOR {}({} AND {})", name[atoms[0]], n, name[atoms[1]], name[atoms[2]]) } else { format!("{}({} XOR {}) AND {}", n, name[atoms[0]], name[atoms[1]], name[atoms[2]]) };
    let head = "DIM SHARED g AS INTEGER\nDIM SHARED s AS STRING\nDIM SHARED d AS DOUBLE\nFUNCTION f\nf = g XOR 3\ng = g XOR IV(1)\nEND FUNCTION\nFUNCTION h(p)\nh = p XOR g\ng = 5\nEND FUNCTION\nFUNCTION t$(p$)\nt = s + p\ns = \"<\" + s\nEND FUNCTION\ng = IV(2)\n";
    let (stmts, want) = match case {
        0 => (format!("g = {}\nOUT g", e), vec![V::I(v)]),
        1 => (format!("v = {}\nOUT v, g", e), vec![V::I(v), V::I(g.get())]),
        2 => (format!("OUT {}, g", e), vec![V::I(v), V::I(g.get())]),
        3 => (format!("DIM SHARED a(2) AS INTEGER\na(1) = {}\nOUT a(1), g", e), vec![V::I(v), V::I(g.get())]),
        4 => (format!("IF ({}) = 7 THEN OUT 1, g ELSE OUT 2, g", e), vec![V::I(if v == 7 { 1 } else { 2 }), V::I(g.get())]),
        5 => (format!("d = {}\nOUT d, g", e), vec![V::D(v as f64), V::I(g.get())]),
        _ => ("s = \"a\"\ns = \"x\" + t(\"b\") + s + t(s)\nOUT s\ns = s + t(s + \"!\")\nOUT s\nd = 1\nd = d + 0.5 + d\nOUT d".to_owned(),
              vec![V::S("xab<a<a<a".into()), V::S("xab<a<a<axab<a<a<axab<a<a<a!".into()), V::D(2.5)]),
    };
    if case == 6 { rt::assume(atoms.iter().all(|a| *a == 0) && !right && !neg); }
    let o = run(&w, &(head.to_owned() + &stmts));
    rt::check(o.ok(), "completes");
    expect_outs(&w, &want, "operands are evaluated left to right against the current shared variables");
}

/// Calls in every statement position leave the caller's other variables alone.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_keep(case: u32) {
    let w = world_i(3);
    let (x, y, z) = (w.ints.borrow()[0], w.ints.borrow()[1], w.ints.borrow()[2]);
    let call = ["f", "g(IV(0))", "h(1, f)"][case as usize % 3];
    let stmts = [
        ("v = $", true), ("v = $ XOR 0", true), ("v = v * 0 + $", true), ("v = 0 OR $", true), ("FOR v = $ TO $\nNEXT\nv = v - 1", true), ("IF $ = 7 THEN v = 7", true), ("IF $ = 8 THEN v = 1 ELSE v = $", true),
        ("SELECT CASE $\nCASE $, 9: v = 7\nEND SELECT", true), ("SELECT CASE 7\nCASE $ TO $: v = $\nEND SELECT", true), ("SELECT CASE w\nCASE IS <> $: v = 7\nCASE ELSE: v = $\nEND SELECT", true), ("p $", true),
        ("a($ AND 1) = $\nv = a(1)", true), ("a(1) = $\nv = a($ AND 1)", true), ("DO WHILE v <> $\nv = $\nLOOP", true), ("DO\nv = $\nLOOP UNTIL v = $", true), ("WHILE $ <> v\nv = $\nWEND", true), ("OUT $, $", true), ("d = $\nv = d", true),
        ("t = (\"u\" + \"\") + k\nv = $", true), ("b = $ = 7\nv = $", true), ("SETV v, $ - 5\nv = $", true), ("n = $\nv = n", true), ("g2 = $\nv = g2", true), ("g2 = $ XOR $\nv = g2 XOR $", true),
    ];
    let (st, _) = rt::pick(&stmts);
    let st = st.replace('$', call).replace(": ", "\n");
    let inside = rt::choose(2) == 1;
    let head = "DIM SHARED g2 AS INTEGER\nFUNCTION f\nq = 100\nr = 101\ns$ = \"zz\" + \"y\"\nu# = 1.5\nf = 7\nEND FUNCTION\nFUNCTION g(m)\nq = m\nr = 103\ns$ = \"z\"\ng = f\nEND FUNCTION\nFUNCTION h(m, o)\nq = m + o\nr = f\nh = o\nEND FUNCTION\nFUNCTION k$\nq = 104\nr = 105\nk = \"q\"\nEND FUNCTION\nSUB p(m)\nq = 106\nr = m\nEND SUB\n";
    let body = format!("DIM a(2) AS INTEGER\nDIM v AS INTEGER\nw = IV(1)\nt$ = \"t\"\nd# = 2.5\nx = IV(2)\nb? = TRUE\n{}\nOUT v, w, x\nIF d <> 7 THEN OUT d\nOUT t, b, a(0)", st);
    let src = if inside { format!("{}SUB inner(c1, c2)\n{}\nOUT c1, c2\nEND SUB\no1 = 41\ninner IV(2), o1\nOUT o1", head, body) } else { format!("{}{}", head, body) };
    let o = run(&w, &src);
    rt::check(o.ok(), "completes");
    let mut want = vec![];
    if st.starts_with("OUT") { want.extend([V::I(7), V::I(7)]); }
    want.push(V::I(if st.starts_with("p ") || st.starts_with("OUT") { 0 } else if st.starts_with("SELECT CASE w") && y == 7 { 7 } else { 7 }));
    want.extend([V::I(y), V::I(z)]);
    if !st.starts_with("d =") { want.push(V::D(2.5)); }
    want.extend([V::S(if st.starts_with("t =") { "uq" } else { "t" }.into()), V::B(true), V::I(0)]);
    if inside { want.extend([V::I(z), V::I(41), V::I(41)]); }
    let _ = x;
    expect_outs(&w, &want, "calls leave the other variables of their caller alone");
}

/// Variables keep their value when control goes back to earlier statements.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_back(case: u32) {
    let w = world_i(2);
    let (x, y) = (w.ints.borrow()[0], w.ints.borrow()[1]);
    let (src, want) = match case {
        0 => ("DIM n AS INTEGER\nDIM v AS INTEGER\nDO WHILE n < 3\nOUT n + 30\nIF n = 0 THEN v = IV(0)\nOUT v\nn = n + 1\nLOOP", vec![V::I(30), V::I(x), V::I(31), V::I(x), V::I(32), V::I(x)]),
        1 => ("n = 0\nv = 0\n@top\nOUT n + 3\nIF n = 0 THEN v = IV(0) ELSE v = IV(1)\nOUT v\nn = n + 1\nIF n < 3 THEN GOTO @top", vec![V::I(3), V::I(x), V::I(4), V::I(y), V::I(5), V::I(y)]),
        // The first assignment in the text comes after other statements of the loop.
        2 => ("DIM n AS INTEGER\nDO WHILE n < 3\nOUT n + 30\nIF n = 0 THEN v = IV(0)\nOUT v\nn = n + 1\nLOOP", vec![V::I(30), V::I(x), V::I(31), V::I(x), V::I(32), V::I(x)]),
        _ => ("GOTO @init\n@use\nOUT 1, IV(1), 2\nOUT 3\nGOTO @show\n@init\nv = IV(0)\nGOTO @use\n@show\nOUT v", vec![V::I(1), V::I(y), V::I(2), V::I(3), V::I(x)]),
    };
    let o = run(&w, src);
    rt::check(o.ok(), "completes");
    expect_outs(&w, &want, "variables keep their value across jumps to earlier statements");
}

/// Locals that a call has not assigned.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_fresh(case: u32) {
    let w = world();
    let (x, b, c) = (rt::i32_(), rt::bool_(), rt::bool_());
    push_int(&w, x);
    push_bool(&w, b);
    push_bool(&w, c);
    push_str(&w, "q");
    let (src, want) = match case {
        0 => ("SUB s\nDIM v AS INTEGER\nDIM t AS STRING\nDIM d AS DOUBLE\nDIM q AS BOOLEAN\nOUT v, t, d, q\nv = IV(0): t = SV(0): d = 2.5: q = TRUE\nEND SUB\ns\ns", {
            let z = [V::I(0), V::S("".into()), V::D(0.0), V::B(false)];
            z.iter().chain(z.iter()).cloned().collect::<Vec<_>>()
        }),
        // Variables whose first assignment is skipped.
        1 => ("IF BV(0) THEN v = IV(0)\nOUT v\nIF BV(1) THEN w# = 2.5\nOUT w", vec![V::I(if b { x } else { 0 }), V::D(if c { 2.5 } else { 0.0 })]),
        2 => ("IF BV(0) THEN t = SV(0)\nOUT t", vec![V::S(if b { "q" } else { "" }.into())]),
        _ => ("SUB s(b?)\nIF b THEN\nu = 1\nv = IV(0)\nEND IF\nOUT v\nEND SUB\ns TRUE\ns FALSE", vec![V::I(x), V::I(0)]),
    };
    let o = run(&w, src);
    rt::check(o.ok(), "completes");
    expect_outs(&w, &want, "variables start at the default of their type");
}

/// Variables and parameters hide shared variables of the same name, whatever the types. Case:
/// types of the two.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_hide(case: u32) {
    let w = world();
    let (t1, t2) = (case as usize / 4, case as usize % 4);
    let sig = ["%", "#", "?", "$"];
    let ty = [ExprType::Integer, ExprType::Double, ExprType::Boolean, ExprType::Text];
    let _ = ty;
    let (a, va) = elem(&w, t1);
    let (b, vb) = elem(&w, t2);
    let mark = rt::choose(5);
    let m = if mark == 4 { "" } else { sig[mark] };
    let kind = rt::choose(5);
    let decl = match kind { 0 => format!("SUB s(x{})", sig[t2]), 1 => format!("SUB s\nDIM x AS {}\nx = {}", TYPES[t2], b), 2 => format!("FUNCTION s(x{})", sig[t2]), 3 => format!("SUB s\nDIM x AS {}", TYPES[t2]), _ => format!("SUB s(y, x{})", sig[t2]) };
    let usage = rt::choose(3);
    let stmt = match usage { 0 => format!("OUT x{}", m), 1 => format!("x{} = x", m), _ => format!("OUT 5; x{}", m) };
    let end = if kind == 2 { "END FUNCTION" } else { "END SUB" };
    let call = match kind { 0 => format!("s {}", b), 2 => format!("v = s({})", b), 4 => format!("s 1, {}", b), _ => "s".into() };
    let head = format!("DIM SHARED x AS {}\nx = {}\n{}\nOUT 3\n", TYPES[t1], a, decl);
    let line = head.matches('\n').count() + 1;
    let src = format!("{}{}\n{}\n{}\nOUT x", head, stmt, end, call);
    rt::log(&src);
    let o = run(&w, &src);
    rt::log(o.msg());
    if mark == 4 || mark == t2 {
        let mut want = vec![V::I(3)];
        if usage == 2 { want.push(V::I(5)); }
        if usage != 1 { want.push(if kind == 3 { zero(t2) } else { vb }); }
        want.push(va);
        rt::check(o.ok(), "a local variable hides the shared one");
        expect_outs(&w, &want, "a local variable hides the shared one");
        rt::cover("hidden");
    } else {
        rt::check(matches!(&o, Outcome::Compile(l, _, m) if *l == line && m.contains("ncompatible type")), "a reference to a variable with the wrong type is rejected");
        expect_outs(&w, &[], "rejected programs do not run");
        rt::cover("rejected");
    }
}

/// An assignment whose expression reads its own target gives the value the same expression has
/// with a copy of the target.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_self(case: u32) {
    let w = world();
    let t = case as usize % 4;
    let shape = case as usize / 4;
    // The value 3 is where the target stands; $ is another value.
    let value = || if t == 1 { let v = rt::pick(&[1.5, -3.25, 0.0]); push_dbl(&w, v); format!("DV({})", w.dbls.borrow().len() - 1) } else { elem(&w, t).0 };
    let (v0, v1) = (value(), value());
    let ops: &[&str] = [&["+", "-", "*", "/", "MOD", "^", "<<", ">>", "AND", "OR", "XOR"][..], &["+", "-", "*", "/"], &["AND", "OR", "XOR", "=", "<>"], &["+"]][t];
    let op = rt::pick(ops);
    let neg = ["-", "-", "NOT ", ""][t];
    let (x, y) = if rt::choose(2) == 1 { ("@", "$") } else { ("$", "@") };
    if op == "/" || op == "MOD" || op == "*" || op == "^" || op == "<<" || op == ">>" {
        if t == 0 { for k in 0..2 { let v = int(&w, k); rt::assume((v >= 1) & (v <= 3)); } }
    }
    let e = match shape {
        0 => format!("{} {} {}", x, op, y),
        1 => format!("$ {} ({}{} {} {})", op, neg, x, op, y),
        2 => format!("({} {} $) {} {}", x, op, op, y),
        3 => format!("$ {} h({}, {})", op, x, y),
        4 => format!("h({}, {}) {} $", x, y, op),
        5 => format!("$ {} h(h({}, $), {})", op, x, y),
        6 => format!("$ {} a(i({}, {}))", op, x, y),
        7 => format!("h($, $ {} a(i({} {} $, {})))", op, x, op, y),
        8 => format!("$ {} h($, {}{})", op, neg, x),
        _ => if t == 2 { format!("$ {} ({} = {})", op, x, y) } else { format!("$ {} a(c({} <> $, {} = $))", op, x, y) },
    };
    let sg = ["%", "#", "?", "$"][t];
    let head = format!("DIM SHARED a(2) AS {}\na(0) = {}\na(1) = {}\nFUNCTION h{}(m{}, o{})\nh = o\nIF m = o THEN h = m\nEND FUNCTION\nFUNCTION i%(m{}, o{})\nIF m = o THEN i = 1\nEND FUNCTION\nFUNCTION c%(m?, o?)\nIF o THEN c = 1\nEND FUNCTION\n", TYPES[t], v1, v0, sg, sg, sg, sg, sg);
    let target = rt::choose(3);
    let body = |name: &str, copy: &str| e.replace('@', name).replace('$', copy);
    let src = match target {
        0 => format!("{}u = {}\nv = {}\nw = v\nr = {}\nv = {}\nOUT r, v, w = v", head, v1, v0, body("w", "u"), body("v", "u")),
        1 => format!("{}SUB s(v{}, u{})\nw = v\nr = {}\nv = {}\nOUT r, v, w = v\nEND SUB\ns {}, {}", head, sg, sg, body("w", "u"), body("v", "u"), v0, v1),
        _ => format!("{}DIM SHARED v AS {}\nu = {}\nv = {}\nw = v\nr = {}\nv = {}\nOUT r, v, w = v", head, TYPES[t], v1, v0, body("w", "u"), body("v", "u")),
    };
    rt::log(&src);
    let o = run(&w, &src);
    rt::log(o.msg());
    rt::check(o.ok() || (t < 2 && matches!(&o, Outcome::Exc(..))), "completes");
    if o.ok() {
        let outs = w.outs.borrow();
        rt::check(outs.len() == 3 && outs[0].same(&outs[1]), "an assignment reads the old value of its target");
        rt::cover("assigned");
    }
}

// ---------------------------------------------------------------------------- errors

#[derive(Clone, Copy, PartialEq)]
enum Mode { None, Goto(bool), Next }
#[derive(Clone, Copy)]
enum E { Out, Fail(usize), AFail(usize), FailF(usize), Div(usize), OnNext, OnNone, OnGoto, Gosub, Sub, Loop(usize), IfFail(usize), Func(usize), Return, Stray }

/// What an error-handling program does, statement by statement.
struct ErrRef { mode: Mode, fails: Vec<bool>, outs: Vec<V>, last: Option<(usize, String)>, lines: Vec<String> }
enum R { Ok, Jump, Stop(usize, String) }

/// Programs made of up to four statements that may fail, under every handler. The prelude and the
/// epilogue are fixed. Case: the first statement.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_errors(case: u32) {
    let w = world();
    let fails: Vec<bool> = (0..5).map(|_| rt::bool_()).collect();
    for f in &fails { push_fail(&w, *f); push_int(&w, if *f { 0 } else { 1 }); }
    let kind = |k: usize, j: usize| match k { 0 => E::Fail(j), 1 => E::OnNext, 2 => E::OnGoto, 3 => E::OnNone, 4 => E::Gosub, 5 => E::Sub, 6 => E::FailF(j), 7 => E::Div(j), 8 => E::Loop(j), 9 => E::AFail(j), 10 => E::IfFail(j), 11 => E::Func(j), 12 => E::Return, 13 => E::Stray, _ => E::Out };
    let mut prog = vec![kind(1 + case as usize / 13, 0), kind([0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][case as usize % 13], 0)];
    prog.push(kind(rt::choose(6), 1));
    prog.push(kind(rt::pick(&[0, 4, 5]), 2));
    errors(&w, &prog, fails)
}

fn errors(w: &Rc<World>, prog: &[E], fails: Vec<bool>) {
    let mut lines: Vec<String> = vec!["SUB s".into(), "OUT 60".into(), "FAIL 3".into(), "OUT 61".into(), "END SUB".into(), "FUNCTION f(k)".into(), "f = FAILF(k)".into(), "OUT 70".into(), "END FUNCTION".into(), "v = 5".into()];
    let first = lines.len();
    for (k, e) in prog.iter().enumerate() {
        lines.push(match e {
            E::Out => "OUT 1".into(),
            E::Fail(j) => format!("FAIL {}", j),
            E::AFail(j) => format!("AFAIL {}", j),
            E::FailF(j) => format!("OUT 7, FAILF({})", j),
            E::Div(j) => format!("OUT 1 / IV({})", j),
            E::OnNext => "ON ERROR RESUME NEXT".into(),
            E::OnNone => "ON ERROR GOTO 0".into(),
            E::OnGoto => "ON ERROR GOTO @h".into(),
            E::Gosub => "GOSUB @g".into(),
            E::Sub => "s".into(),
            E::Loop(j) => format!("FOR i = 1 TO 2: FAIL {}: OUT i: NEXT", j),
            E::IfFail(j) => format!("IF v = 5 THEN FAIL {}", j),
            E::Func(j) => format!("OUT f({})", j),
            E::Return => "RETURN".into(),
            E::Stray => "FAIL0".into(),
        });
        lines.push(format!("OUT {}", 10 + k));
    }
    lines.extend(["OUT v".into(), "END".into(), "@g".into(), "OUT 50".into(), "FAIL 3".into(), "OUT 51".into(), "RETURN".into(), "@h".into(), "OUT v".into(), "IF LASTERR THEN OUT 91".into(), "FAIL 4".into(), "OUT 92".into()]);
    let src = lines.join("\n");
    rt::log(&src);
    let hline = lines.iter().position(|l| l == "@h").unwrap() + 1;
    let gline = lines.iter().position(|l| l == "@g").unwrap() + 1;
    let mut r = ErrRef { mode: Mode::None, fails, outs: vec![], last: None, lines };
    let o = run(w, &src);
    rt::observe("outcome", o.code());
    // Reference.
    impl ErrRef {
        fn fail(&mut self, line: usize, msg: String) -> R {
            self.last = Some((line, msg.clone()));
            match self.mode {
                Mode::Next => R::Ok,
                Mode::Goto(false) => { self.mode = Mode::Goto(true); R::Jump }
                _ => R::Stop(line, msg),
            }
        }
        fn maybe(&mut self, j: usize, line: usize) -> R { if self.fails[j] { self.fail(line, format!("failure {}", j)) } else { R::Ok } }
    }
    let mut res = R::Ok;
    let mut line = first;
    for (k, e) in prog.iter().enumerate() {
        line = first + 1 + 2 * k;
        res = match e {
            E::Out => { r.outs.push(V::I(1)); R::Ok }
            E::Fail(j) | E::AFail(j) | E::IfFail(j) => r.maybe(*j, line),
            E::FailF(j) => { if !r.fails[*j] { r.outs.push(V::I(7)); r.outs.push(V::I(100 + *j as i32)); } r.maybe(*j, line) }
            E::Div(j) => if r.fails[*j] { r.fail(line, "Division by zero".into()) } else { r.outs.push(V::I(1)); R::Ok },
            E::OnNext => { r.mode = Mode::Next; R::Ok }
            E::OnNone => { r.mode = Mode::None; R::Ok }
            E::OnGoto => { r.mode = Mode::Goto(false); R::Ok }
            E::Gosub => { r.outs.push(V::I(50)); match r.maybe(3, gline + 2) { R::Ok => { r.outs.push(V::I(51)); R::Ok } x => x } }
            E::Sub => { r.outs.push(V::I(60)); match r.maybe(3, 3) { R::Ok => { r.outs.push(V::I(61)); R::Ok } x => x } }
            E::Loop(j) => {
                let mut x = R::Ok;
                for i in 1..3 { x = r.maybe(*j, line); if !matches!(x, R::Ok) { break; } r.outs.push(V::I(i)); }
                x
            }
            E::Return => r.fail(line, "RETURN without GOSUB or FUNCTION call".into()),
            E::Stray => { if !r.fails[0] { R::Ok } else { r.fail(line, "failure 0".into()) } }
            E::Func(j) => {
                let failed = r.fails[*j];
                match r.maybe(*j, 7) { R::Ok => { r.outs.push(V::I(70)); r.outs.push(V::I(if failed { 0 } else { 100 + *j as i32 })); R::Ok } x => x }
            }
        };
        if !matches!(res, R::Ok) { break; }
        r.outs.push(V::I(10 + k as i32));
    }
    let _ = line;
    let want;
    match res {
        R::Ok => { r.outs.push(V::I(5)); want = None; rt::cover("no error left"); }
        R::Jump => {
            r.outs.push(V::I(5));
            r.outs.push(V::I(91));
            want = match r.maybe(4, hline + 3) { R::Ok => { r.outs.push(V::I(92)); None } R::Jump => rt::fail("reference"), R::Stop(l, m) => Some((l, m)) };
            rt::cover("handled");
        }
        R::Stop(l, ref m) => { want = Some((l, m.clone())); rt::cover("uncaught"); }
    }
    let _ = &r.lines;
    expect_outs(w, &r.outs, "errors continue where the handler says");
    match want {
        None => rt::check(o.ok(), "handled errors do not stop the program"),
        Some((l, m)) => rt::check(matches!(&o, Outcome::Exc(ol, oc, om) if *ol == l && *oc >= 1 && *om == m), "an uncaught error stops the program with its position and message"),
    }
    if matches!(res, R::Jump) {
        let e = w.errs.borrow();
        rt::check(!e.is_empty(), "the handler sees the error");
        rt::check(e[0].1 >= 1, "errors have a position");
    }
}

/// The last error is the one that happened last, with its position.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_last_error(case: u32) {
    let w = world();
    for _ in 0..3 { push_fail(&w, rt::bool_()); }
    let f = w.fails.borrow().clone();
    let src = ["ON ERROR RESUME NEXT\nIF LASTERR THEN OUT 0\nFAIL 0\nIF LASTERR THEN OUT 1\n   FAIL 1\nIF LASTERR THEN OUT 2\nx = 3 + FAILF(2)\nIF LASTERR THEN OUT 3",
               "ON ERROR RESUME NEXT\nIF LASTERR THEN OUT 0\nAFAIL 0\nIF LASTERR THEN OUT 1\n   AFAIL 1\nIF LASTERR THEN OUT 2\nx = 3 + FAILF(2)\nIF LASTERR THEN OUT 3"][case as usize % 2];
    let mut m = Machine::new(&w);
    let o = m.run(src.as_bytes());
    rt::check(o.ok(), "completes");
    let at = [(3, 1), (5, 4), (7, 9)];
    let mut want = vec![];
    let mut errs = vec![];
    let mut last = None;
    for k in 0..3 {
        if f[k] { last = Some((at[k].0, at[k].1, format!("failure {}", k))); }
        if let Some(l) = &last { want.push(V::I(k as i32 + 1)); errs.push(l.clone()); }
    }
    expect_outs(&w, &want, "the last error is known");
    let e = w.errs.borrow();
    rt::check(e.len() == errs.len(), "the last error is known");
    for (a, b) in e.iter().zip(&errs) {
        rt::check(a.0 == b.0 && a.2 == b.2, "the last error has its line and message");
        rt::check(a.1 == b.1, "the last error has its column");
    }
}

/// Handlers set in, and errors raised from, nested calls. Every statement of the program may fail.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_error_scope(case: u32) {
    let w = world();
    for _ in 0..3 { push_fail(&w, rt::bool_()); }
    let x = rt::i32_();
    push_int(&w, x);
    let f = w.fails.borrow().clone();
    let i = V::I;
    let (src, want): (&str, Vec<V>) = match case {
        // An error deep in calls runs the handler of the program with the program's variables.
        0 => ("ON ERROR GOTO @h\nSUB a(p)\nq = p * 0\nFAIL 0\nOUT q\nEND SUB\nSUB b(p)\nr = 77\na r\nFAIL 1\nOUT r\nEND SUB\nv = IV(0)\nu = 4\nb 3\nOUT 1\n@h\nOUT v, u", {
            let mut o = vec![]; if !f[0] { o.push(i(0)); if !f[1] { o.push(i(77)); o.push(i(1)); } } o.extend([i(x), i(4)]); o
        }),
        // RETURN still works in a handler reached from a subroutine call within a GOSUB.
        1 => ("SUB a\nFAIL 0\nOUT 3\nEND SUB\nON ERROR GOTO @h\nGOSUB @g\nOUT 9\nEND\n@g\nOUT 2\na\nRETURN\n@h\nOUT 5\nRETURN", {
            let mut o = vec![i(2)]; if f[0] { o.push(i(5)); } else { o.push(i(3)); } o.push(i(9)); o
        }),
        // RESUME NEXT inside of callables.
        2 => ("ON ERROR RESUME NEXT\nFUNCTION g(n)\ng = 8\nFAIL 0\ng = g + n\nFAIL 1\nEND FUNCTION\nOUT g(1) + g(2)\nFAIL 2\nSUB z\nOUT 6\nFAIL 2\nEND SUB\nz\nOUT 4\nFAIL 0", vec![i(19), i(6), i(4)]),
        // A handler that re-arms itself catches every error.
        3 => ("ON ERROR GOTO @h\nk = 0\n@top\nk = k + 1\nFAIL k - 1\nOUT k\n@more\nIF k < 3 THEN GOTO @top\nEND\n@h\nON ERROR GOTO @h\nOUT 0 - k\nGOTO @more", (0..3).map(|k| i(if f[k as usize] { -(k + 1) } else { k + 1 })).collect()),
        // A failure in the middle of an expression leaves variables unchanged.
        4 => ("ON ERROR RESUME NEXT\nDIM a(2)\na(0) = IV(0)\na(0) = 1 + FAILF(0)\na(1) = IV(0)\na(FAILF(1) - 100) = 3\nv = IV(0)\nv = FAILF(2)\nOUT a(0), a(1), v", vec![i(if f[0] { x } else { 101 }), i(if f[1] { x } else { 3 }), i(if f[2] { x } else { 102 })]),
        6 => ("ON ERROR RESUME NEXT\nv = IV(0)\nv = 1 + FAILF(0)\nOUT v", vec![i(if f[0] { x } else { 101 })]),
        // Errors set and reset around statements.
        _ => ("SUB s\nON ERROR RESUME NEXT\nFAIL 0\nON ERROR GOTO 0\nOUT 1\nEND SUB\ns\nFAIL 1\nOUT 2", { let mut o = vec![i(1)]; if !f[1] { o.push(i(2)); } o }),
    };
    rt::log(src);
    let o = run(&w, src);
    rt::observe("outcome", o.code());
    rt::log(o.msg());
    expect_outs(&w, &want, "errors continue in the scope of their handler");
    if case == 5 && f[1] { rt::check(matches!(&o, Outcome::Exc(8, 1, m) if m == "failure 1"), "handlers can be removed"); } else { rt::check(o.ok(), "handled errors do not stop the program"); }
}

// ---------------------------------------------------------------------------- limits

/// The limits on nested calls and on memory are errors that programs can handle.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_limits(case: u32) {
    let w = world();
    let n = small(0, 5);
    push_int(&w, n);
    let lim = rt::choose(5) + 1;
    let handle = rt::choose(3);
    let (body, needs, msg): (&str, i32, &str) = match case {
        0 => ("FUNCTION f(n)\nIF n > 0 THEN f = 1 + f(n - 1)\nEND FUNCTION\nr = 0\n~\nr = f(IV(0))\nOUT r", n + 1, "Out of call stack space"),
        1 => ("SUB f(n)\nIF n > 0 THEN f n - 1\nEND SUB\nr = 0\n~\nf IV(0)\nr = IV(0)\nOUT r", n + 1, "Out of call stack space"),
        _ => ("r = 0\n~\nGOSUB @g\nr = IV(0)\nOUT r\nEND\n@g\nIF r < IV(0) THEN\nr = r + 1\nGOSUB @g\nEND IF\nRETURN", n + 1, "Out of call stack space"),
    };
    let hnd = ["", "ON ERROR GOTO @h", "ON ERROR RESUME NEXT"][handle];
    rt::assume(!(handle == 2 && case == 2));
    let src = body.replace("~", hnd) + "\nEND\n@h\nOUT 99";
    let mut m = Machine::with(&w, &[], Limits { max_call_stack: lim, ..Limits::default() });
    let o = m.run(src.as_bytes());
    rt::observe("outcome", o.code());
    if needs as usize <= lim {
        expect_outs(&w, &[V::I(n)], "calls within the limit work");
        rt::check(o.ok(), "calls within the limit work");
        rt::cover("within");
    } else {
        rt::cover("beyond");
        match handle {
            0 => { expect_outs(&w, &[], "too many calls are an error"); rt::check(o.is_exc(msg), "too many calls are an error"); }
            1 => { expect_outs(&w, &[V::I(99)], "too many calls can be handled"); rt::check(o.ok(), "too many calls can be handled"); }
            _ => rt::check(o.ok(), "too many calls can be handled"),
        }
    }
    // The machine remains usable.
    let k = w.outs.borrow().len();
    m.vm.clear_error_handler();
    let o = m.run(b"OUT 1234");
    rt::check(o.ok() && w.outs.borrow().len() == k + 1, "the machine remains usable after an error");
}

/// Deep recursion with built-ins called at every level, and all registers in use.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_deep(case: u32) {
    let w = world_i(1);
    w.strs.borrow_mut().push("s".to_owned());
    let mut m;
    if case < 6 {
        let k = rt::choose(3);
        let lim = rt::pick(&[60, 130, 250]);
        let pre: String = (0..k).map(|i| format!("IF FALSE THEN y{} = 0\n", i)).collect();
        let body = match case {
            0 => "x? = LASTERR",
            1 => "x = IV(0)",
            2 => "IF FALSE THEN x = 0\nOUT x",
            3 => "IF FALSE THEN x = 0\nSETV x, 0",
            4 => "GETDATA",
            _ => "IF LASTERR THEN GETDATA",
        };
        let src = format!("ON ERROR GOTO @h\nSUB s\n{}{}\ns\nEND SUB\ns\n@h\nGETDATA\nEND", pre, body);
        rt::log(&src);
        m = Machine::with(&w, &[], Limits { max_call_stack: lim, ..Limits::default() });
        let o = m.run(src.as_bytes());
        rt::check(o.ok(), "too many calls can be handled");
        rt::cover("deep");
    } else {
        let n = 187 + rt::choose(7);
        let mut src: String = (0..n).map(|i| format!("v{} = 1\n", i)).collect();
        src += ["w? = LASTERR", "w = IV(0)", "SETV w, 0", "w$ = SV(0)", "DIM w(2)"][case as usize - 6];
        m = Machine::new(&w);
        let o = m.run(src.as_bytes());
        rt::check(o.ok() || matches!(&o, Outcome::Compile(l, _, _) if *l == (n + 1).min(193)), "running out of registers is an error of the statement that needs one");
        rt::cover("many variables");
        m = Machine::new(&w);
    }
    let k = w.outs.borrow().len();
    rt::check(m.run(b"OUT 3 + 4").ok() && w.outs.borrow().len() == k + 1, "the machine remains usable");
}

/// Memory: strings and arrays up to the limit work and then fail without harm.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_heap(case: u32) {
    let w = world();
    push_str(&w, "q");
    let lim = rt::choose(7) + 1;
    let stmts = ["s = SV(0)", "s = \"a\" + SV(0)", "DIM a(3) AS INTEGER", "DIM b(2) AS STRING", "s = \"\" + \"\""];
    let pick: Vec<usize> = (0..3).map(|_| rt::choose(5)).collect();
    rt::assume(pick[0] == case as usize);
    rt::assume(!(pick[0] == pick[1] || pick[1] == pick[2] || pick[0] == pick[2]) || pick.iter().all(|p| ![2, 3].contains(p)));
    // Entry 0 is the shared empty string.
    let cost = [1, 2, 1, 1, 0];
    let mut used = 1;
    let mut want = vec![];
    let mut fail = None;
    let mut src = "s = \"\"\n".to_owned();
    for (k, p) in pick.iter().enumerate() {
        src += &format!("{}\nOUT {}\n", stmts[*p], k);
        if fail.is_none() { if used + cost[*p] > lim { fail = Some(2 + 2 * k); } else { used += cost[*p]; want.push(V::I(k as i32)); } }
    }
    rt::log(&src);
    let mut m = Machine::with(&w, &[], Limits { max_heap_entries: U24::from(lim as u16), ..Limits::default() });
    let o = m.run(src.as_bytes());
    expect_outs(&w, &want, "memory within the limit works");
    match fail { None => rt::check(o.ok(), "memory within the limit works"), Some(l) => { rt::log(o.msg()); rt::check(matches!(&o, Outcome::Exc(x, _, m) if *x == l && m.contains("Out of heap space")), "running out of memory is an error") } }
    if fail.is_some() { rt::cover("out of memory"); }
    m.vm.clear_error_handler();
    let k = w.outs.borrow().len();
    rt::check(m.run(b"OUT 3 + 4").ok() && w.outs.borrow().len() == k + 1, "the machine remains usable");
}

rt::harness_main!(h_array, h_dim, h_array_double, h_array_scope, h_array_misuse, h_calls, h_calls_misuse, h_shared, h_keep, h_back, h_fresh, h_errors, h_last_error, h_error_scope, h_hide, h_self, h_limits, h_heap, h_deep);

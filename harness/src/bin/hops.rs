//! Operators: every operator over every pair of operand types, with arbitrary operand values.
use rt::lang::*;

const TYPES: [&str; 4] = ["I", "D", "S", "B"];

/// What evaluating an expression must give.
enum Want { Val(V), Err(&'static str), ErrAny, Reject }

fn int_op(op: usize, a: i32, b: i32) -> Want {
    let w = |x: i64, m: &'static str| if x >= -(1i64 << 31) && x < (1i64 << 31) { Want::Val(V::I(x as i32)) } else { Want::Err(m) };
    let (x, y) = (a as i64, b as i64);
    match op {
        0 => w(x + y, "Integer overflow"),
        1 => w(x - y, "Integer underflow"),
        2 => match a.checked_mul(b) { Some(v) => Want::Val(V::I(v)), None => Want::Err("Integer overflow") },
        3 => {
            if b == 0 { return Want::Err("Division by zero"); }
            if (a == i32::MIN) & (b == -1) { return Want::Err("Integer underflow"); }
            Want::Val(V::I(a / b))
        }
        4 => {
            if b == 0 { return Want::Err("Modulo by zero"); }
            if (a == i32::MIN) & (b == -1) { return Want::Err("Integer underflow"); }
            Want::Val(V::I(a % b))
        }
        _ => unreachable!(),
    }
}

fn num_rel(op: usize, lt: bool, eq: bool, gt: bool) -> bool {
    match op { 6 => eq, 7 => !eq, 8 => lt, 9 => lt | eq, 10 => gt, 11 => gt | eq, _ => unreachable!() }
}

const OPS: [&str; 17] = ["+", "-", "*", "/", "MOD", "^", "=", "<>", "<", "<=", ">", ">=", "AND", "OR", "XOR", "<<", ">>"];

fn ref_binary(op: usize, l: &V, r: &V) -> Want {
    use Want::*;
    let num = |v: &V| match v { V::I(i) => Some((*i as f64, true)), V::D(d) => Some((*d, false)), _ => None };
    match op {
        0..=4 => match (l, r) {
            (V::I(a), V::I(b)) => int_op(op, *a, *b),
            (V::S(a), V::S(b)) if op == 0 => Val(V::S(format!("{}{}", a, b))),
            _ => match (num(l), num(r)) {
                (Some((a, _)), Some((b, _))) => Val(V::D(match op { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, _ => a % b })),
                _ => Reject,
            },
        },
        6..=11 => match (l, r) {
            (V::B(a), V::B(b)) if op < 8 => Val(V::B((*a == *b) == (op == 6))),
            (V::S(a), V::S(b)) => {
                let o = a.as_bytes().cmp(b.as_bytes());
                Val(V::B(num_rel(op, o.is_lt(), o.is_eq(), o.is_gt())))
            }
            (V::I(a), V::I(b)) => Val(V::B(num_rel(op, a < b, a == b, a > b))),
            _ => match (num(l), num(r)) {
                (Some((a, _)), Some((b, _))) => Val(V::B(match op { 6 => a == b, 7 => a != b, 8 => a < b, 9 => a <= b, 10 => a > b, _ => a >= b })),
                _ => Reject,
            },
        },
        12..=14 => match (l, r) {
            (V::B(a), V::B(b)) => Val(V::B(match op { 12 => *a & *b, 13 => *a | *b, _ => *a != *b })),
            (V::I(a), V::I(b)) => Val(V::I(match op { 12 => *a & *b, 13 => *a | *b, _ => *a ^ *b })),
            _ => Reject,
        },
        15 | 16 => match (l, r) {
            (V::I(a), V::I(b)) => {
                if *b < 0 { return ErrAny; }
                if op == 15 { Val(V::I(if *b >= 32 { 0 } else { *a << *b })) } else { Val(V::I(if *b >= 32 { if *a < 0 { -1 } else { 0 } } else { *a >> *b })) }
            }
            _ => Reject,
        },
        _ => unreachable!(),
    }
}

fn operand(t: usize, k: usize, w: &World, maxlen: usize) -> V {
    match t {
        0 => { let v = rt::i32_(); w.ints.borrow_mut().resize(k + 1, 0); w.ints.borrow_mut()[k] = v; V::I(v) }
        1 => { let v = rt::f64_(); w.dbls.borrow_mut().resize(k + 1, 0.0); w.dbls.borrow_mut()[k] = v; V::D(v) }
        2 => {
            let n = rt::choose(maxlen + 1);
            let mut s = String::new();
            for _ in 0..n { let b = rt::u8_(); rt::assume(b < 128); s.push(b as char); }
            w.strs.borrow_mut().resize(k + 1, String::new());
            w.strs.borrow_mut()[k] = s.clone();
            V::S(s)
        }
        _ => { let v = rt::bool_(); w.bools.borrow_mut().resize(k + 1, false); w.bools.borrow_mut()[k] = v; V::B(v) }
    }
}

fn settle(w: &World, o: &Outcome, want: Want, col: usize) {
    rt::observe("outcome", o.code());
    match want {
        Want::Val(v) => {
            rt::check(o.ok(), "a defined operation completes");
            expect_outs(w, &[v], "value of the operation");
            rt::cover("value");
        }
        Want::Err(m) => {
            rt::check(o.is_exc(m), "an undefined operation raises its error");
            rt::check(matches!(o, Outcome::Exc(1, c, _) if *c == col), "the error points at the operator");
            expect_outs(w, &[], "nothing is printed when the operation fails");
            rt::cover("error");
        }
        Want::ErrAny => {
            rt::check(matches!(o, Outcome::Exc(1, c, _) if *c == col), "an undefined operation raises an error at the operator");
            expect_outs(w, &[], "nothing is printed when the operation fails");
            rt::cover("error");
        }
        Want::Reject => {
            rt::check(matches!(o, Outcome::Compile(1, _, _)), "operands of the wrong types are rejected before running");
            rt::cover("rejected");
        }
    }
}

/// l OP r for every pair of types.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_binary(case: u32) {
    let op = case as usize;
    let w = world();
    let (tl, tr) = (rt::choose(4), rt::choose(4));
    // Concatenation and comparison of strings up to two characters a side.
    let l = operand(tl, 0, &w, 2);
    let r = operand(tr, 1, &w, 2);
    if op == 4 && (tl == 1 || tr == 1) && tl < 2 && tr < 2 {
        // The remainder of doubles is outside the solver's reach: fixed operands instead.
        let xs = [5.5, -5.5, 7.0, 0.0, f64::INFINITY, f64::NAN, 2.0];
        if let V::D(_) = l { w.dbls.borrow_mut()[0] = rt::pick(&xs); }
        if let V::I(_) = l { w.ints.borrow_mut()[0] = rt::pick(&[7, -7, 0]); }
        if let V::D(_) = r { let v = rt::pick(&xs); w.dbls.borrow_mut().resize(2, 0.0); w.dbls.borrow_mut()[1] = v; }
        if let V::I(_) = r { let v = rt::pick(&[7, -3, 0]); w.ints.borrow_mut()[1] = v; }
        let l = match l { V::D(_) => V::D(w.dbls.borrow()[0]), _ => V::I(w.ints.borrow()[0]) };
        let r = match r { V::D(_) => V::D(w.dbls.borrow()[1]), _ => V::I(w.ints.borrow()[1]) };
        return binary(op, tl, tr, &w, l, r);
    }
    binary(op, tl, tr, &w, l, r)
}
fn binary(op: usize, tl: usize, tr: usize, w: &std::rc::Rc<World>, l: V, r: V) {
    // Once directly and once through variables, which must not matter.
    let form = rt::choose(2);
    let src = if form == 0 { format!("OUT {}V(0) {} {}V(1)", TYPES[tl], OPS[op], TYPES[tr]) } else { format!("OUTX = 1: a = {}V(0): b = {}V(1): OUT a {} b", TYPES[tl], TYPES[tr], OPS[op]) };
    let col = if form == 0 { 11 } else { src.rfind("a ").unwrap() + 3 };
    let o = run(w, &src);
    settle(w, &o, ref_binary(op, &l, &r), col);
}

/// Powers: concrete exponents over arbitrary bases, concrete bases over arbitrary exponents.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_power(case: u32) {
    let w = world();
    let (a, b);
    match case {
        0 => { a = rt::i32_(); b = rt::pick(&[0, 1, 2]); }
        1 => { a = rt::pick(&[2, -2, 3, 7, 10, -10, 46341, 65536, i32::MAX, i32::MIN]); b = rt::i32_(); rt::assume(b < 64); }
        2 => { a = rt::pick(&[0, 1, -1]); b = rt::i32_(); rt::assume(b < 16); }
        3 => { a = rt::i32_(); rt::assume(a > -64 && a < 64); b = rt::pick(&[3, 4, 5]); }
        _ => {
            // Mixed and double powers follow the platform's pow.
            let xs = [2.0, -2.0, 0.5, 0.0, 9.0];
            let (i, d) = (rt::pick(&[2, 3, -1, 0]), rt::pick(&xs));
            w.ints.borrow_mut().push(i);
            w.dbls.borrow_mut().push(d);
            let f = rt::choose(3);
            let (src, want) = match f { 0 => ("OUT IV(0) ^ DV(0)", (i as f64).powf(d)), 1 => ("OUT DV(0) ^ IV(0)", d.powf(i as f64)), _ => ("OUT DV(0) ^ DV(0)", d.powf(d)) };
            let o = run(&w, src);
            return settle(&w, &o, Want::Val(V::D(want)), 11);
        }
    }
    w.ints.borrow_mut().extend([a, b]);
    let o = run(&w, "OUT IV(0) ^ IV(1)");
    let want = if b < 0 { Want::ErrAny } else {
        let mut acc: i64 = 1;
        let n = if case == 0 || case == 3 || case == 2 { b } else { b.min(33) };
        for _ in 0..n { if acc > -(1 << 31) - 1 && acc < 1 << 31 { acc *= a as i64; } }
        let v = if case == 0 && b == 2 { a.checked_mul(a) } else if acc >= i32::MIN as i64 && acc <= i32::MAX as i64 { Some(acc as i32) } else { None };
        match v { Some(v) => Want::Val(V::I(v)), None => Want::Err("Integer overflow") }
    };
    settle(&w, &o, want, 11);
}

/// Negation and NOT on every type.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_unary(_case: u32) {
    let w = world();
    let t = rt::choose(4);
    let v = operand(t, 0, &w, 1);
    let not = rt::choose(2) == 1;
    let src = format!("OUT {}{}V(0)", if not { "NOT " } else { "-" }, TYPES[t]);
    let o = run(&w, &src);
    let want = match (&v, not) {
        (V::I(a), false) => if *a == i32::MIN { Want::Err("Integer overflow") } else { Want::Val(V::I(0 - *a)) },
        (V::D(d), false) => Want::Val(V::D(f64::from_bits(d.to_bits() ^ (1 << 63)))),
        (V::I(a), true) => Want::Val(V::I(-1 - *a)),
        (V::B(b), true) => Want::Val(V::B(!*b)),
        _ => Want::Reject,
    };
    settle(&w, &o, want, 5);
}

/// Assigning a value to a variable of a declared type: exact conversions, or an error.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_convert(case: u32) {
    let w = world();
    let names = ["INTEGER", "DOUBLE", "STRING", "BOOLEAN"];
    let ann = ["%", "#", "$", "?"];
    let (tv, te) = (rt::choose(4), rt::choose(4));
    let e = operand(te, 0, &w, 1);
    let (src, col) = match case {
        0 => (format!("DIM a AS {}: a = {}V(0): OUT a", names[tv], TYPES[te]), 0),
        1 => (format!("DIM SHARED a AS {}: a = {}V(0): OUT a", names[tv], TYPES[te]), 0),
        2 => (format!("DIM a(2) AS {}: a(1) = {}V(0): OUT a(1)", names[tv], TYPES[te]), 0),
        3 => (format!("FUNCTION f{}(p{}): f = p: END FUNCTION: OUT f({}V(0))", ann[tv], ann[tv], TYPES[te]), 0),
        _ => (format!("DIM b AS {}: b = {}V(0): DIM a AS {}: a = b: OUT a", names[te], TYPES[te], names[tv]), 0),
    };
    let _ = col;
    let o = run(&w, &src.replace(": ", "\n"));
    rt::observe("outcome", o.code());
    let want = match (tv, &e) {
        (0, V::I(_)) | (1, V::D(_)) | (2, V::S(_)) | (3, V::B(_)) => Want::Val(e.clone()),
        (1, V::I(i)) => Want::Val(V::D(*i as f64)),
        (0, V::D(d)) => {
            let d = *d;
            // Nearest integer, halves away from zero.
            let r = d.round();
            if r >= -2147483648.0 && r <= 2147483647.0 { Want::Val(V::I(r as i32)) } else { Want::ErrAny }
        }
        _ => Want::Reject,
    };
    match want {
        Want::Val(v) => { rt::check(o.ok(), "a representable value converts"); expect_outs(&w, &[v], "converted value"); rt::cover("value"); }
        Want::Reject => { rt::check(matches!(o, Outcome::Compile(..)), "values of an unrelated type are rejected before running"); rt::cover("rejected"); }
        _ => { rt::check(matches!(&o, Outcome::Exc(_, _, m) if m.starts_with("Cannot cast")), "a value that does not fit raises an error"); rt::cover("error"); }
    }
}

// ---------------------------------------------------------------------------- expressions

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { Val(usize), Op(usize), Neg, Not, L, R }
enum X { Val(usize), Un(bool, Box<X>), Bin(usize, Box<X>, Box<X>) }

fn level(op: usize) -> usize { match op { 5 => 6, 2..=4 => 4, 0 | 1 => 3, 15 | 16 => 2, 6..=11 => 1, _ => 0 } }

/// Textbook recursive descent over the documented precedence levels, left to right.
fn climb(t: &[T], i: &mut usize, lev: usize) -> X {
    if lev == 5 {
        return match t[*i] {
            T::Neg => { *i += 1; X::Un(false, Box::new(climb(t, i, 5))) }
            T::Not => { *i += 1; X::Un(true, Box::new(climb(t, i, 5))) }
            _ => climb(t, i, 6),
        };
    }
    if lev == 7 {
        return match t[*i] {
            T::Val(k) => { *i += 1; X::Val(k) }
            T::L => { *i += 1; let x = climb(t, i, 0); *i += 1; x }
            _ => climb(t, i, 5),
        };
    }
    let mut l = climb(t, i, lev + 1);
    while *i < t.len() {
        match t[*i] {
            T::Op(o) if level(o) == lev => { *i += 1; let r = climb(t, i, lev + 1); l = X::Bin(o, Box::new(l), Box::new(r)); }
            _ => break,
        }
    }
    l
}

fn neg(v: &V) -> Want {
    match v { V::I(a) => if *a == i32::MIN { Want::Err("Integer overflow") } else { Want::Val(V::I(0 - *a)) }, V::D(d) => Want::Val(V::D(-*d)), _ => Want::Reject }
}
fn not(v: &V) -> Want { match v { V::I(a) => Want::Val(V::I(!*a)), V::B(b) => Want::Val(V::B(!*b)), _ => Want::Reject } }

/// The type of an expression, if it has one; 0 integer, 1 double, 2 text, 3 boolean.
fn typ(x: &X, ts: &[usize]) -> Option<usize> {
    match x {
        X::Val(k) => Some(ts[*k]),
        X::Un(n, a) => { let t = typ(a, ts)?; if t == 2 || (t == 1 && *n) || (t == 3 && !*n) { None } else { Some(t) } }
        X::Bin(o, a, b) => {
            let (l, r) = (typ(a, ts)?, typ(b, ts)?);
            let num = l < 2 && r < 2;
            match o {
                0..=5 => if num { Some(l.max(r)) } else if *o == 0 && l == 2 && r == 2 { Some(2) } else { None },
                6..=11 => if num || (l == 2 && r == 2) || (*o < 8 && l == 3 && r == 3) { Some(3) } else { None },
                12..=14 => if l == r && (l == 0 || l == 3) { Some(l) } else { None },
                _ => if l == 0 && r == 0 { Some(0) } else { None },
            }
        }
    }
}

fn eval(x: &X, vs: &[V]) -> Want {
    match x {
        X::Val(k) => Want::Val(vs[*k].clone()),
        X::Un(n, a) => match eval(a, vs) { Want::Val(v) => if *n { not(&v) } else { neg(&v) }, e => e },
        X::Bin(o, a, b) => {
            let l = match eval(a, vs) { Want::Val(v) => v, e => return e };
            let r = match eval(b, vs) { Want::Val(v) => v, e => return e };
            if *o == 5 {
                return match (&l, &r) {
                    (V::I(a), V::I(b)) => {
                        if *b < 0 { return Want::ErrAny; }
                        let mut acc: i64 = 1;
                        for _ in 0..(*b).min(40) { if acc.abs() < 1 << 40 { acc *= *a as i64; } }
                        if acc.abs() < 1 << 31 { Want::Val(V::I(acc as i32)) } else { Want::Err("Integer overflow") }
                    }
                    _ => Want::Reject,
                };
            }
            ref_binary(*o, &l, &r)
        }
    }
}

fn render(t: &[T], operand: &dyn Fn(usize) -> String) -> String {
    let mut s = String::new();
    for x in t {
        match x {
            T::Val(k) => s.push_str(&operand(*k)),
            T::Op(o) => { s.push(' '); s.push_str(OPS[*o]); s.push(' '); }
            T::Neg => s.push('-'),
            T::Not => s.push_str("NOT "),
            T::L => s.push('('),
            T::R => s.push(')'),
        }
    }
    s
}

fn prec(t: &[T], ts: &[usize], vs: &[V], w: &std::rc::Rc<World>, pow: bool) {
    let names = ["IV", "DV", "SV", "BV"];
    let src = if pow {
        render(t, &|k| match &vs[k] { V::I(i) => format!("{}", i), V::B(b) => format!("{}", if *b { "TRUE" } else { "FALSE" }), _ => unreachable!() })
    } else {
        render(t, &|k| format!("{}({})", names[ts[k]], k))
    };
    let mut i = 0;
    let x = climb(t, &mut i, 0);
    let o = run(w, &format!("OUT 7, {}", src));
    rt::observe("outcome", o.code());
    if typ(&x, ts).is_none() {
        rt::check(matches!(o, Outcome::Compile(1, _, _)), "an expression without a type is rejected");
        rt::cover("rejected");
        return;
    }
    match eval(&x, vs) {
        Want::Val(v) => { rt::check(o.ok(), "a defined expression completes"); expect_outs(w, &[V::I(7), v], "value of the expression"); rt::cover("value"); }
        Want::Err(m) => { rt::check(o.is_exc(m), "an undefined expression raises its error"); expect_outs(w, &[], "nothing printed"); rt::cover("error"); }
        Want::ErrAny => { rt::check(matches!(o, Outcome::Exc(1, _, _)), "an undefined expression raises an error"); expect_outs(w, &[], "nothing printed"); rt::cover("error"); }
        Want::Reject => rt::fail("reference disagrees with itself"),
    }
}

/// Arbitrary operands; where products, quotients or shifts are involved only operand `sym` varies
/// (over -8..8) and the others are fixed, because chains of symbolic products are out of reach.
fn values(ts: &[usize], w: &World, pow: bool, narrow: bool, sym: usize) -> Vec<V> {
    let n = ts.len();
    w.ints.borrow_mut().resize(n, 0);
    w.bools.borrow_mut().resize(n, false);
    ts.iter().enumerate().map(|(k, t)| match t {
        0 => { let v = if pow { [3, 2, 4, 5][k] } else if narrow { if k == sym % n { (rt::u8_() & 15) as i32 - 8 } else { [7, 3, 2, 5][k] } } else { rt::i32_() }; w.ints.borrow_mut()[k] = v; V::I(v) }
        _ => { let v = if pow { k % 2 == 0 } else { rt::bool_() }; w.bools.borrow_mut()[k] = v; V::B(v) }
    }).collect()
}

/// Two binary operators, every grouping, unary operators in every position.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_prec2(case: u32) {
    let (o1, o2) = (case as usize, rt::choose(17));
    let shape = rt::choose(3);
    let un = rt::choose(7);
    let w = world();
    let tsel = rt::choose(2);
    // Booleans only matter where an operator takes them.
    let ts: [usize; 3] = if tsel == 0 { [0, 0, 0] } else { rt::assume(level(o1) <= 1 || level(o2) <= 1); [[3, 3, 0], [0, 3, 3], [3, 3, 3]][rt::choose(3)] };
    let pow = o1 == 5 || o2 == 5;
    let vs = values(&ts, &w, pow, [2, 4].contains(&level(o1)) || [2, 4].contains(&level(o2)), o1 + o2 + shape + un);
    let mut t = vec![];
    let put = |t: &mut Vec<T>, k: usize| { if un > 0 && (un - 1) / 2 == k { t.push(if un % 2 == 1 { T::Neg } else { T::Not }); } t.push(T::Val(k)); };
    if shape == 1 { t.push(T::L); }
    put(&mut t, 0);
    t.push(T::Op(o1));
    if shape == 2 { t.push(T::L); }
    put(&mut t, 1);
    if shape == 1 { t.push(T::R); }
    t.push(T::Op(o2));
    put(&mut t, 2);
    if shape == 2 { t.push(T::R); }
    prec(&t, &ts, &vs, &w, pow);
}

/// Three binary operators, one of each precedence level, with groupings and unary operators.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_prec3(case: u32) {
    let cls = [5, 3, 1, 15, 10, 14];
    let o = [cls[case as usize % 6], rt::pick(&cls), rt::pick(&cls)];
    let shape = rt::choose(6);
    let un = rt::choose(5);
    let w = world();
    let ts: [usize; 4] = match rt::choose(2) { 0 => [0, 0, 0, 0], _ => { rt::assume(o.contains(&10)); [3, 0, 0, 3] } };
    let pow = o.contains(&5);
    let vs = values(&ts, &w, pow, o.contains(&3) || o.contains(&15), o[0] + o[1] + o[2] + shape + un);
    // Grouped spans of operands, inclusive.
    let span = [None, Some((0, 1)), Some((1, 2)), Some((2, 3)), Some((0, 2)), Some((1, 3))][shape];
    let mut t = vec![];
    for k in 0..4 {
        if un == k + 1 { t.push(T::Neg); }
        if let Some((a, _)) = span { if a == k { t.push(T::L); } }
        t.push(T::Val(k));
        if let Some((_, b)) = span { if b == k { t.push(T::R); } }
        if k < 3 { t.push(T::Op(o[k])); }
    }
    prec(&t, &ts, &vs, &w, pow);
}

rt::harness_main!(h_prec2, h_prec3, h_binary, h_power, h_unary, h_convert);

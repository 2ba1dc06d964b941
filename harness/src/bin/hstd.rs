//! Standard library: strings, numbers, DATA, console commands, clock, CLEAR.
use endbasic_std::console::Key;
use rt::lang::*;
use rt::stdm::*;
use std::rc::Rc;
use std::time::Duration;

fn push_int(w: &World, v: i32) { w.ints.borrow_mut().push(v); }
fn push_dbl(w: &World, v: f64) { w.dbls.borrow_mut().push(v); }
fn push_str(w: &World, v: &str) { w.strs.borrow_mut().push(v.to_owned()); }

/// A text of `n` characters, each an arbitrary printable ASCII character or tab, or one of three others.
fn text(n: usize) -> (String, Vec<char>) { text_of(n, 4) }
fn text_of(n: usize, kinds: usize) -> (String, Vec<char>) {
    let mut s = String::new();
    for _ in 0..n {
        match rt::choose(kinds) {
            0 => { let b = rt::u8_(); rt::assume(((b >= 32) & (b < 127)) | (b == 9)); s.push(b as char) }
            1 => s.push('é'),
            2 => s.push('글'),
            _ => s.push('\u{a0}'),
        }
    }
    let v = s.chars().collect();
    (s, v)
}
fn string(v: &[char]) -> V { V::S(v.iter().collect()) }

/// Runs one program and checks its outputs.
fn outs(w: &Rc<World>, src: &str, want: &[V], label: &str) {
    let mut m = stdm(w);
    let o = m.run(src);
    rt::log(o.msg());
    rt::check(o.ok(), label);
    expect_outs(w, want, label);
}
fn fails(w: &Rc<World>, src: &str, msg: &str, label: &str) {
    let mut m = stdm(w);
    let o = m.run(src);
    rt::log(o.msg());
    rt::check(matches!(&o, Outcome::Exc(1, c, m) if *c >= 1 && m.contains(msg)), label);
    expect_outs(w, &[], label);
}

// ---------------------------------------------------------------------------- strings

/// Substrings count characters. Case: function.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_substr(case: u32) {
    let w = world();
    let n = rt::choose(4);
    let (s, v) = text(n);
    push_str(&w, &s);
    let (a, b) = (rt::i32_(), rt::i32_());
    push_int(&w, a);
    push_int(&w, b);
    let lim = |k: i32| if k as usize > n { n } else { k as usize };
    match case {
        0 => if a < 0 { fails(&w, "OUT LEFT(SV(0), IV(0))", "cannot be negative", "LEFT rejects negative lengths") } else { outs(&w, "OUT LEFT(SV(0), IV(0))", &[string(&v[..lim(a)])], "LEFT returns the first characters") },
        1 => if a < 0 { fails(&w, "OUT RIGHT(SV(0), IV(0))", "cannot be negative", "RIGHT rejects negative lengths") } else { outs(&w, "OUT RIGHT(SV(0), IV(0))", &[string(&v[n - lim(a)..])], "RIGHT returns the last characters") },
        2 => if a < 0 { fails(&w, "OUT MID(SV(0), IV(0))", "cannot be negative", "MID rejects negative positions") } else { outs(&w, "OUT MID(SV(0), IV(0))", &[string(&v[lim(a)..])], "MID returns the characters from a position on") },
        3 => if a < 0 || b < 0 { fails(&w, "OUT MID(SV(0), IV(0), IV(1))", "cannot be negative", "MID rejects negative positions and lengths") } else {
            let from = lim(a);
            let to = if b as usize > n - from { n } else { from + b as usize };
            outs(&w, "OUT MID(SV(0), IV(0), IV(1))", &[string(&v[from..to])], "MID returns that many characters from a position on")
        },
        4 => outs(&w, "OUT LEN(SV(0))", &[V::I(n as i32)], "LEN counts characters"),
        // A string is the concatenation of its parts.
        _ => {
            rt::assume((a >= 0) & (a <= 4));
            outs(&w, "n = IV(0)\ns = SV(0)\nOUT LEFT(s, n) + MID(s, n) = s\nIF n <= LEN(s) THEN OUT LEFT(s, LEN(s) - n) + RIGHT(s, n) = s ELSE OUT TRUE", &[V::B(true), V::B(true)], "a string is the concatenation of its parts")
        }
    }
}

/// Long texts. Case: function.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_long(case: u32) {
    let w = world();
    let n = rt::pick(&[256usize, 300, 1025]);
    let odd = rt::pick(&[0usize, 254, 255, 5000]);
    let wide = rt::pick(&['é', '😀']);
    // Runs of letters with one that is different, which may be the last one of the text.
    let v: Vec<char> = (0..n).map(|i| if i == odd.min(n - 1) { wide } else { (b'a' + (i % 7) as u8) as char }).collect();
    push_str(&w, &string_of(&v));
    let at = rt::pick(&[1usize, 128, 255, 256, 257, 70000]);
    push_int(&w, at as i32);
    let k = at.min(n);
    match case {
        0 => outs(&w, "OUT LEFT(SV(0), IV(0)), RIGHT(SV(0), IV(0))", &[string(&v[..k]), string(&v[n - k..])], "LEFT and RIGHT count characters"),
        1 => outs(&w, "OUT MID(SV(0), IV(0)), MID(SV(0), IV(0), 3)", &[string(&v[k..]), string(&v[k..(k + 3).min(n)])], "MID counts characters"),
        2 => outs(&w, "OUT LEN(SV(0)), LEN(SV(0) + SV(0))", &[V::I(n as i32), V::I(2 * n as i32)], "LEN counts characters"),
        3 => {
            push_str(&w, &wide.to_string());
            let want = v.iter().position(|c| *c == wide).map(|i| i as i32 + 1).unwrap_or(0);
            let later = v.iter().enumerate().position(|(i, c)| i >= at && *c == wide).map(|i| i as i32 + 1).unwrap_or(0);
            outs(&w, "OUT INSTR(SV(0), SV(1)), INSTR(IV(0) + 1, SV(0), SV(1))", &[V::I(want), V::I(later)], "INSTR returns the position of the first occurrence")
        }
        4 => outs(&w, "OUT LCASE(UCASE(SV(0))) = SV(0), TRIM(SPACE(IV(0)) + SV(0) + SPACE(IV(0))) = SV(0), LEN(LTRIM(SPACE(IV(0)) + SV(0) + \" \"))", &[V::B(true), V::B(true), V::I(n as i32 + 1)], "texts of any length are converted whole"),
        _ => outs(&w, "s = SV(0)\nOUT LEFT(s, IV(0)) + MID(s, IV(0)) = s, LEFT(s, 20) + RIGHT(s, LEN(s) - 20) = s", &[V::B(true), V::B(true)], "a string is the concatenation of its parts"),
    }
}
fn string_of(v: &[char]) -> String { v.iter().collect() }

/// INSTR finds the first occurrence.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_instr(case: u32) {
    let w = world();
    let (n, case) = (case as usize / 6, case % 6);
    let (s, v) = text_of(n, 3);
    let (k, case) = (case as usize / 2, case % 2);
    let (t, u) = text_of(k, 2);
    push_str(&w, &s);
    push_str(&w, &t);
    let start = if case == 1 { let a = rt::i32_(); push_int(&w, a); a } else { 1 };
    let src = if case == 1 { "OUT INSTR(IV(0), SV(0), SV(1))" } else { "OUT INSTR(SV(0), SV(1))" };
    if start <= 0 { fails(&w, src, "must be positive", "INSTR rejects positions before the first"); return; }
    let from = (start - 1) as usize;
    let mut want = 0;
    if from <= n {
        for i in from..=n {
            if i + k > n { break; }
            let mut same = true;
            for j in 0..k { if v[i + j] != u[j] { same = false; } }
            if same { want = i as i32 + 1; break; }
        }
    }
    rt::cover(if want == 0 { "not found" } else { "found" });
    outs(&w, src, &[V::I(want)], "INSTR returns the position of the first occurrence")
}

/// Case, trimming and characters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_chars(case: u32) {
    let w = world();
    if case < 6 {
        let n = rt::choose(4);
        let (s, v) = text(n);
        push_str(&w, &s);
        let white = |c: char| c == ' ' || c == '\t' || c == '\u{a0}';
        let lead = v.iter().take_while(|c| white(**c)).count();
        let trail = v.iter().rev().take_while(|c| white(**c)).count().min(n - lead);
        let up = |c: &char| match *c { 'é' => 'É', c => if c >= 'a' && c <= 'z' { (c as u8 - 32) as char } else { c } };
        let down = |c: &char| match *c { c => if c >= 'A' && c <= 'Z' { (c as u8 + 32) as char } else { c } };
        match case {
            0 => outs(&w, "OUT LTRIM(SV(0))", &[string(&v[lead..])], "LTRIM removes leading whitespace"),
            1 => outs(&w, "OUT RTRIM(SV(0))", &[string(&v[..n - v.iter().rev().take_while(|c| white(**c)).count()])], "RTRIM removes trailing whitespace"),
            2 => outs(&w, "OUT TRIM(SV(0))", &[string(&v[lead..n - trail])], "TRIM removes whitespace on both sides"),
            3 => outs(&w, "OUT UCASE(SV(0))", &[string(&v.iter().map(up).collect::<Vec<_>>())], "UCASE converts letters"),
            4 => outs(&w, "OUT LCASE(SV(0))", &[string(&v.iter().map(down).collect::<Vec<_>>())], "LCASE converts letters"),
            _ => if n == 1 { outs(&w, "OUT ASC(SV(0)), CHR(ASC(SV(0))) = SV(0)", &[V::I(v[0] as i32), V::B(true)], "ASC returns the code of a character") } else { fails(&w, "OUT ASC(SV(0))", "1-character long", "ASC needs one character") },
        }
        return;
    }
    let a = rt::i32_();
    push_int(&w, a);
    match case {
        6 => {
            let valid = ((a >= 0) & (a < 0xd800)) | ((a > 0xdfff) & (a <= 0x10ffff));
            if !valid { rt::cover("bad code"); fails(&w, "OUT CHR(IV(0))", if a < 0 { "must be positive" } else { "nvalid character code" }, "CHR rejects invalid codes"); return; }
            let plane = rt::choose(4);
            rt::assume((a >= [0, 0x80, 0x800, 0x10000][plane]) & (a <= [0x7f, 0x7ff, 0xffff, 0x10ffff][plane]));
            rt::cover("code");
            outs(&w, "OUT ASC(CHR(IV(0))), LEN(CHR(IV(0)))", &[V::I(a), V::I(1)], "ASC is the inverse of CHR");
        }
        _ => {
            if rt::choose(2) == 0 { rt::assume(a <= 4); } else { rt::assume(a == rt::pick(&[127, 128, 255, 256, 257, 1000, 32768, 65535, 65537])); }
            if a < 0 { fails(&w, "OUT SPACE(IV(0))", "cannot be negative", "SPACE rejects negative lengths") } else { let k = rt::conc(a as u64) as usize; outs(&w, "OUT SPACE(IV(0))", &[V::S(" ".repeat(k))], "SPACE returns spaces") }
        }
    }
}

const EDGES: [i32; 16] = [100, 999, 1000, -1000, 9999, 10000, 12345, -98765, 100000, 1234567, 9999999, 10000000, -999999999, 1000000000, i32::MAX, i32::MIN];

/// STR and VAL.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_strval(case: u32) {
    let w = world();
    match case {
        0 => {
            let a = rt::i32_();
            if rt::choose(2) == 0 { rt::assume((a >= -9) & (a <= 9)); } else { rt::assume(a == rt::pick(&EDGES)); }
            push_int(&w, a);
            outs(&w, "OUT VAL(STR(IV(0)))", &[V::D(a as f64)], "VAL reads back what STR writes");
        }
        1 => {
            let a = rt::i32_();
            if rt::choose(2) == 0 { rt::assume((a >= -999) & (a <= 999)); } else { rt::assume(a == rt::pick(&EDGES)); }
            push_int(&w, a);
            let mut m = stdm(&w);
            let o = m.run("OUT STR(IV(0))");
            rt::check(o.ok(), "STR converts integers");
            let outs = w.outs.borrow();
            let V::S(t) = &outs[0] else { rt::fail("STR converts integers") };
            // Read the digits back.
            let mut v: i64 = 0;
            for (i, b) in t.bytes().enumerate() {
                if i == 0 { rt::check((b == b'-') == (a < 0) && (b == b' ') == (a >= 0), "STR starts with a sign or a space"); continue; }
                rt::check((b >= b'0') & (b <= b'9'), "STR writes digits");
                rt::check(!(i == 1 && t.len() > 2) | (b != b'0'), "STR writes no leading zeros");
                v = v * 10 + (b - b'0') as i64;
            }
            rt::check(t.len() > 1 && (if a < 0 { -v } else { v }) == a as i64, "STR writes the value of integers");
        }
        2 => {
            let n = rt::choose(4);
            let (s, _) = text(n);
            let b = rt::bool_();
            push_str(&w, &s);
            w.bools.borrow_mut().push(b);
            outs(&w, "OUT STR(SV(0)), STR(BV(0))", &[V::S(s), V::S(if b { "TRUE" } else { "FALSE" }.into())], "STR keeps strings and names booleans");
        }
        3 => {
            let d = [0.0, -0.0, 1.0, -1.5, 0.1, 1e21, 1.5e300, -2.5e-10, 123456789.125, f64::MAX][rt::choose(10)];
            push_dbl(&w, d);
            outs(&w, "OUT VAL(STR(DV(0)))", &[V::D(d)], "VAL reads back what STR writes");
        }
        // The longest numeric prefix.
        _ => {
            let n = 1 + rt::choose(4);
            let mut s = String::new();
            for i in 0..n { s.push(match if i == 0 { case as usize - 4 } else { rt::choose(if i == 3 { 2 } else { 6 }) } { 0 => rt::pick(&['0', '7']), 1 => '+', 2 => '-', 3 => '.', 4 => 'e', _ => rt::pick(&[' ', 'x', 'é']) }); }
            push_str(&w, &s);
            outs(&w, "OUT VAL(SV(0))", &[V::D(prefix(&s))], "VAL reads the longest numeric prefix");
        }
    }
}
/// The value of the longest prefix of `s` that is a number of at most four characters.
fn prefix(s: &str) -> f64 {
    let b: Vec<u8> = s.trim_start_matches(' ').bytes().collect();
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let digit = |c: u8| (c >= b'0') & (c <= b'9');
    let mut i = 0;
    let neg = at(0) == b'-';
    if at(0) == b'-' || at(0) == b'+' { i = 1; }
    let (mut m, mut k, mut nd): (u64, i32, i32) = (0, 0, 0);
    while digit(at(i)) { m = m.wrapping_mul(10).wrapping_add(at(i).wrapping_sub(b'0') as u64); nd += 1; i += 1; }
    if at(i) == b'.' {
        i += 1;
        while digit(at(i)) { m = m.wrapping_mul(10).wrapping_add(at(i).wrapping_sub(b'0') as u64); nd += 1; k -= 1; i += 1; }
    }
    if nd == 0 { return 0.0; }
    if at(i) == b'e' {
        let mut j = i + 1;
        let eneg = at(j) == b'-';
        if at(j) == b'-' || at(j) == b'+' { j += 1; }
        let mut e = 0;
        if digit(at(j)) {
            while digit(at(j)) { e = e * 10 + (at(j) - b'0') as i32; j += 1; }
            k += if eneg { -e } else { e };
        }
    }
    let k = rt::conc(k as u32 as u64) as u32 as i32;
    // Exact while powers of ten are: up to 10^22. Beyond that, defer to the standard library.
    let v = if k < -22 || k > 22 { return b.iter().map(|c| rt::conc(*c as u64) as u8 as char).collect::<String>().parse().unwrap_or(f64::NAN); } else if k < 0 { m as f64 / POW[-k as usize] } else { m as f64 * POW[k as usize] };
    if neg { -v } else { v }
}
const POW: [f64; 23] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22];

// ---------------------------------------------------------------------------- numbers

/// Functions of one number. Case: function.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_num(case: u32) {
    let w = world_d(1);
    if case == 7 { w.dbls.borrow_mut()[0] = rt::pick(&[0.0, 1.0, -1.0, 709.0, 710.0, -800.0, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]); }
    let x = w.dbls.borrow()[0];
    let names = ["ABS", "CINT", "FIX", "INT", "SGN", "SQR", "LOG", "EXP", "ACOS", "ASIN", "ATN", "ROUND", "SIN", "COS", "TAN"];
    let src = format!("OUT {}(DV(0))", names[case as usize]);
    let mut m = stdm(&w);
    let o = m.run(&src);
    rt::log(o.msg());
    let err = matches!(&o, Outcome::Exc(1, c, m) if *c == 6 + names[case as usize].len() && !m.is_empty());
    rt::check(o.ok() || err, "number functions return or fail");
    let outs = w.outs.borrow();
    rt::check(outs.len() == if o.ok() { 1 } else { 0 }, "number functions return one value");
    let int = |v: &V| if let V::I(i) = v { *i } else { rt::fail("the result is an integer") };
    let dbl = |v: &V| if let V::D(d) = v { *d } else { rt::fail("the result is a double") };
    let num = !(x != x);
    match case {
        0 => rt::check(o.ok() && num.then(|| same_f64(dbl(&outs[0]), f64::from_bits(x.to_bits() & (!0 >> 1)))).unwrap_or(true), "ABS drops the sign"),
        1 | 2 | 3 => {
            if o.ok() {
                rt::check(int(&outs[0]) == match case { 1 => x.round(), 2 => x.trunc(), _ => x.floor() } as i32, "conversions to integers choose the right neighbour");
                rt::cover("converted");
            } else {
                let (lo, hi) = match case { 1 => (-2147483648.5, 2147483647.5), 2 => (-2147483649.0, 2147483648.0), _ => (-2147483648.0, 2147483648.0) };
                rt::check(!((x > lo) & (x < hi)), "representable values convert");
                rt::cover("overflow");
            }
        }
        4 => rt::check(o.ok() && int(&outs[0]) == (x > 0.0) as i32 - (x < 0.0) as i32, "SGN returns the sign"),
        5 => if x < 0.0 { rt::check(err, "SQR rejects negative numbers"); rt::cover("rejected") } else { rt::check(o.ok() && same_f64(dbl(&outs[0]), x.sqrt()), "SQR returns the square root") },
        6 => if x <= 0.0 { rt::check(err, "LOG rejects zero and negative numbers"); rt::cover("rejected") } else { rt::check(o.ok() && same_f64(dbl(&outs[0]), x.ln()), "LOG returns the logarithm") },
        7 => if x.exp().is_finite() { rt::check(o.ok() && same_f64(dbl(&outs[0]), x.exp()), "EXP returns the exponential") } else { rt::check(err, "EXP reports overflow"); rt::cover("rejected") },
        8 | 9 => if (x >= -1.0) & (x <= 1.0) { rt::check(o.ok() && same_f64(dbl(&outs[0]), if case == 8 { x.acos() } else { x.asin() }), "inverse trigonometry within the domain") } else { rt::check(err, "inverse trigonometry rejects values outside of -1 to 1"); rt::cover("rejected") },
        10 => rt::check(o.ok() && same_f64(dbl(&outs[0]), x.atan()), "ATN returns the arc-tangent"),
        11 => {
            let r = dbl(&outs[0]);
            rt::check(o.ok() && (!num || same_f64(r, x.round())), "ROUND returns the nearest integer");
        }
        _ => rt::check(o.ok() && same_f64(dbl(&outs[0]), match case { 12 => x.sin(), 13 => x.cos(), _ => x.tan() }), "trigonometry in radians"),
    }
}

/// Angle modes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_angle(case: u32) {
    let w = world_d(1);
    let x = w.dbls.borrow()[0];
    let f = ["SIN", "COS", "TAN", "ACOS", "ASIN", "ATN"][case as usize % 6];
    if case % 6 == 3 || case % 6 == 4 { rt::assume((x >= -1.0) & (x <= 1.0)); }
    let g = |x: f64| match case % 6 { 0 => x.sin(), 1 => x.cos(), 2 => x.tan(), 3 => x.acos(), 4 => x.asin(), _ => x.atan() };
    let (rad, deg) = if case % 6 < 3 { (g(x), g(x.to_radians())) } else { (g(x), g(x).to_degrees()) };
    // Modes are chosen by the last of DEG, RAD and CLEAR.
    let mut m = stdmi(&w);
    let mut mode = 0;
    let mut want = vec![];
    for _ in 0..3 {
        let k = rt::choose(4);
        let c = ["", "DEG\n", "RAD\n", "CLEAR\n"][k];
        if k > 0 { mode = (k == 1) as usize; }
        let o = if k == 3 { m.run(c); m.run(&format!("OUT {}(DV(0))", f)) } else { m.run(&format!("{}OUT {}(DV(0))", c, f)) };
        rt::log(o.msg()); rt::check(o.ok(), "completes");
        want.push(V::D([rad, deg][mode]));
    }
    expect_outs(&w, &want, "angles are in the unit chosen last");
}

/// MIN and MAX of up to three numbers.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_minmax(case: u32) {
    let n = 1 + case as usize / 2;
    let w = world_d(n);
    let x = w.dbls.borrow().clone();
    for d in &x { rt::assume(*d == *d); }
    let max = case % 2 == 1;
    let args: Vec<String> = (0..n).map(|i| format!("DV({})", i)).collect();
    let mut m = stdm(&w);
    let o = m.run(&format!("OUT {}({})", if max { "MAX" } else { "MIN" }, args.join(", ")));
    rt::log(o.msg()); rt::check(o.ok(), "completes");
    let V::D(r) = w.outs.borrow()[0] else { rt::fail("the result is a double") };
    let mut one = false;
    for d in &x { one |= r == *d; rt::check(if max { r >= *d } else { r <= *d }, "no number is beyond the extreme"); }
    rt::check(one, "the extreme is one of the numbers");
}

/// ROUND to a number of decimals.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_round(case: u32) {
    let w = world();
    // Any number of decimals; the values are fixed.
    let x = [0.0, 1.0, -2.5, 123.456, -0.001, 1e300, 5e-324, 149.0][case as usize];
    let d = if rt::choose(2) == 0 { let d = rt::choose(13) as i32 - 4; d } else { rt::pick(&[i32::MIN, -400, -308, 300, 308, 309, 400, i32::MAX]) };
    push_dbl(&w, x);
    push_int(&w, d);
    let mut m = stdm(&w);
    let o = m.run("OUT ROUND(DV(0), IV(0))");
    rt::log(o.msg()); rt::check(o.ok(), "completes");
    let V::D(r) = w.outs.borrow()[0] else { rt::fail("the result is a double") };
    rt::observe("round", r.to_bits());
    // The distance is at most half a unit of the last place kept.
    rt::check(r == r && r.is_finite(), "rounding a number gives a number");
    let unit = if d > 300 { 1e-300 } else if d < -300 { f64::INFINITY } else { 10f64.powi(-d) };
    rt::check((x - r).abs() <= unit * 0.5000001 + x.abs() * 1e-14, "rounding changes at most half a unit of the last digit");
    if d < -300 && x.abs() < 1e299 { rt::check(r == 0.0, "rounding to more digits than there are gives zero"); }
}

/// Random numbers: range, repetition and seeds.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_rnd(case: u32) {
    let w = world_i(1);
    let a = rt::pick(&[0, i32::MIN, 0x7fff_ff00, 0x1234_5600, -256]) ^ rt::u8_() as i32;
    w.ints.borrow_mut()[0] = a;
    let mut m = stdm(&w);
    match case {
        0 => {
            let o = m.run("RANDOMIZE IV(0)\nx = RND(1)\ny = RND(0)\nz = RND(0)\nt = RND()\nu = RND(0)\nOUT x = y, y = z, t = u\nRANDOMIZE IV(0)\nOUT RND(1) = x, RND() = t");
            rt::log(o.msg()); rt::check(o.ok(), "completes");
            expect_outs(&w, &[V::B(true), V::B(true), V::B(true), V::B(true), V::B(true)], "random numbers repeat with RND(0) and with the same seed");
        }
        1 => {
            rt::assume(a < 0);
            let o = m.run("q = RND()\nx = RND(IV(0))\ny = RND()\nq = RND(5)\nOUT RND(IV(0)) = x, RND(0) = x, RND(7) = y");
            rt::log(o.msg()); rt::check(o.ok(), "completes");
            expect_outs(&w, &[V::B(true), V::B(true), V::B(true)], "a negative argument restarts the sequence that belongs to it");
        }
        _ => {
            let seeds = [0, 1, -1, 42, i32::MIN, i32::MAX, 123456789];
            w.ints.borrow_mut()[0] = seeds[rt::choose(7)];
            let o = m.run("RANDOMIZE IV(0)\nc = 0\nl# = 2\nFOR i = 1 TO 8\nx# = RND(i)\nIF x < 0 THEN c = c + 1\nIF x > 1 THEN c = c + 1\nIF x = l THEN c = c + 1\nl = x\nNEXT\nOUT c");
            rt::log(o.msg()); rt::check(o.ok(), "completes");
            expect_outs(&w, &[V::I(0)], "random numbers are new and lie between 0 and 1");
        }
    }
}

// ---------------------------------------------------------------------------- DATA

/// READ takes the values of DATA in order, converted to the types of its variables.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_read(case: u32) {
    let w = world();
    let items = [("", None), ("7", Some(V::I(7))), ("2.5", Some(V::D(2.5))), ("\"t\"", Some(V::S("t".into()))), ("TRUE", Some(V::B(true))), ("-3", Some(V::I(-3))), ("3000000000.0", Some(V::D(3e9)))];
    let n = rt::choose(3) + 1;
    let mut data: Vec<usize> = (0..n).map(|i| match i { 0 => case as usize % 7, 1 => rt::choose(7), _ => rt::pick(&[0, 3]) }).collect();
    data.push(1);
    let two = rt::choose(2);
    let text = |k: &[usize]| k.iter().map(|i| items[*i].0).collect::<Vec<_>>().join(", ");
    let types: Vec<usize> = (0..2).map(|_| rt::choose(4)).collect();
    let restore = case as usize / 7;
    let sig = ["%", "#", "?", "$"];
    // The second statement comes after the reads.
    let mut src = format!("{}DATA {}\n", if two == 1 { "" } else { "ON ERROR RESUME NEXT\n" }, text(&data[..n]));
    let reads: Vec<(usize, usize)> = if restore == 2 { vec![(types[0], 0), (types[1], 1)] } else { vec![(types[0], 0), (types[1], 1), (types[0], 2)] };
    for (i, (t, k)) in reads.iter().enumerate() {
        if restore == 1 && i == 2 { src += "RESTORE\n"; }
        if restore == 2 && i == 0 { src += &format!("READ v0{}, v1{}\n", sig[reads[0].0], sig[reads[1].0]); }
        if restore != 2 { src += &format!("READ v{}{}\n", k, sig[*t]); }
    }
    src += &reads.iter().map(|(_, k)| format!("OUT v{}\n", k)).collect::<String>();
    src += &format!("DATA {}\n", text(&data[n..]));
    let mut m = stdm(&w);
    let o = m.run(&src);
    rt::log(o.msg());
    // Reference.
    let mut pos = 0;
    let mut vals = vec![];
    let mut err = None;
    'all: for (i, (t, _)) in reads.iter().enumerate() {
        if restore == 1 && i == 2 { pos = 0; }
        let zero = [V::I(0), V::D(0.0), V::B(false), V::S("".into())][*t].clone();
        if pos >= data.len() { vals.push(zero); if err.is_none() { err = Some((i, "Out of data")); } if two == 1 { break 'all; } continue; }
        let v = &items[data[pos]].1;
        pos += 1;
        let r = match (t, v) {
            (_, None) => Ok(zero.clone()),
            (0, Some(V::I(_))) | (1, Some(V::D(_))) | (2, Some(V::B(_))) | (3, Some(V::S(_))) => Ok(v.clone().unwrap()),
            (0, Some(V::D(d))) => if *d < 2e9 { Ok(V::I(3)) } else { Err("overflow") },
            (1, Some(V::I(k))) => Ok(V::D(*k as f64)),
            _ => Err("Cannot assign value of type"),
        };
        match r {
            Ok(v) => vals.push(v),
            Err(e) => { vals.push(zero.clone()); if err.is_none() { err = Some((i, e)); } if two == 1 || restore == 2 { if two != 1 && i == 0 { vals.push([V::I(0), V::D(0.0), V::B(false), V::S("".into())][reads[1].0].clone()); } break 'all; } }
        }
    }
    if two == 1 {
        match err {
            None => { rt::log(o.msg()); rt::check(o.ok(), "completes"); expect_outs(&w, &vals, "READ takes the values in order"); rt::cover("read"); }
            Some((i, e)) => {
                let line = if restore == 2 { 2 } else { 2 + i + (restore == 1 && i == 2) as usize };
                rt::check(matches!(&o, Outcome::Exc(l, _, m) if *l == line && m.contains(e)), "READ reports values that do not fit where they are read");
                rt::cover(if e == "Out of data" { "out of data" } else { "mismatch" });
            }
        }
    } else {
        rt::log(o.msg()); rt::check(o.ok(), "completes");
        expect_outs(&w, &vals, "READ goes on with the next value after an error");
    }
}

/// DATA across chunks and CLEAR.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_read_chunks(_case: u32) {
    let w = world();
    let mut m = stdmi(&w);
    let mut data: Vec<i32> = vec![];
    let mut pos = 0;
    let mut want = vec![];
    for step in 0..4 {
        match rt::choose(5) {
            0 => { rt::check(m.run(&format!("DATA {}, {}", step, step + 10)).ok(), "completes"); data.extend([step, step + 10]); }
            1 => { let o = m.run("READ x\nOUT x"); if pos < data.len() { rt::check(o.ok(), "READ takes the next value"); want.push(V::I(data[pos])); pos += 1; } else { rt::check(o.is_exc("Out of data"), "reading beyond the last value is an error"); } }
            2 => { rt::check(m.run("RESTORE").ok(), "completes"); pos = 0; }
            3 => { rt::check(m.run("CLEAR").ok(), "completes"); pos = 0; data.clear(); }
            _ => { let o = m.run(&format!("READ y\nOUT y\nDATA {}", step + 20)); data.push(step + 20); rt::check(o.ok(), "DATA counts before it is reached"); want.push(V::I(data[pos])); pos += 1; }
        }
        expect_outs(&w, &want, "READ continues across statements typed one by one");
    }
}

// ---------------------------------------------------------------------------- console commands

/// PRINT writes its arguments.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_print(case: u32) {
    let w = world();
    let n = rt::choose(4);
    let mut src = "PRINT ".to_owned();
    let mut want = String::new();
    let mut newline = true;
    for i in 0..n {
        let kind = if i == 0 { rt::assume(n > 0); case as usize % 7 } else { rt::choose(5) };
        let mut space = true;
        match kind {
            0 => { let v = if i == 0 { rt::choose(2) } else { i % 2 }; src += ["-12", "34"][v]; want += ["-12", " 34"][v]; }
            1 => { let v = if i == 0 { rt::choose(2) } else { i % 2 }; src += ["2.5", "-0.5"][v]; want += [" 2.5", "-0.5"][v]; }
            2 => { let v = if i == 0 { rt::choose(2) } else { i % 2 }; src += ["TRUE", "FALSE"][v]; want += ["TRUE", "FALSE"][v]; }
            3 => { let (s, _) = if i == 0 { text(rt::choose(2)) } else { text_of(1, i) }; push_str(&w, &s); src += &format!("SV({})", w.strs.borrow().len() - 1); want += &s; space = false; }
            4 => space = false,
            5 => { src += "\"fourteen chars\""; want += "fourteen chars"; space = false; }
            _ => { src += "\"thirteen글hars\""; want += "thirteen글hars"; space = false; }
        }
        newline = kind != 4 || n == 1 && false;
        if i + 1 < n || rt::choose(2) == 1 {
            newline = false;
            if rt::choose(2) == 0 { src += "; "; if space { want.push(' '); } } else { src += ", "; want.push(' '); while want.chars().count() % 14 != 0 { want.push(' '); } }
        }
    }
    if n == 0 && case > 0 { rt::assume(false); }
    if src == "PRINT " { newline = true; }
    // A last empty argument stands for a separator at the end.
    let mut m = stdm(&w);
    let o = m.run(&src);
    rt::log(o.msg());
    rt::log(o.msg()); rt::check(o.ok(), "completes");
    let c = m.c.borrow();
    rt::check(c.log.len() == 1, "PRINT writes once");
    match &c.log[0] {
        Ev::Print(s) => { rt::log(s); rt::log(&want); rt::check(newline, "a separator at the end keeps the line open"); rt::check(*s == want, "PRINT writes its arguments"); rt::cover("line") }
        Ev::Write(s) => { rt::log(s); rt::log(&want); rt::check(!newline, "PRINT ends the line"); rt::check(*s == want, "PRINT writes its arguments"); rt::cover("open line") }
        _ => rt::fail("PRINT writes"),
    }
}

/// LOCATE, COLOR, CLS, SCRCOLS and SCRROWS.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_screen(case: u32) {
    let w = world_i(2);
    let (x, y) = (w.ints.borrow()[0], w.ints.borrow()[1]);
    let mut m = stdm(&w);
    match case {
        0 => {
            let (cx, cy) = (rt::u16_(), rt::u16_());
            rt::assume((cx > 0) & (cy > 0));
            m.c.borrow_mut().size = endbasic_std::console::CharsXY::new(cx, cy);
            let o = m.run("LOCATE IV(0), IV(1)");
            let inside = (x >= 0) & (y >= 0) & (x < cx as i32) & (y < cy as i32);
            let c = m.c.borrow();
            if inside { rt::check(o.ok(), "LOCATE accepts positions on the screen"); rt::check(c.log == [Ev::Locate(x as u16, y as u16)], "LOCATE moves the cursor there"); rt::cover("located") }
            else { rt::check(matches!(&o, Outcome::Exc(1, c, m) if (*c == 8 || *c == 15) && (m.contains("range"))), "LOCATE rejects positions outside of the screen"); rt::check(c.log.is_empty(), "a rejected LOCATE has no effect"); rt::cover("outside") }
        }
        1 => {
            let k = rt::choose(5);
            let src = ["COLOR", "COLOR IV(0)", "COLOR IV(0), IV(1)", "COLOR , IV(1)", "COLOR IV(0),"][k];
            let o = m.run(src);
            let c = m.c.borrow();
            let (uf, ub) = ([false, true, true, false, true][k], [false, false, true, true, false][k]);
            let ok = |v: i32| (v >= 0) & (v <= 255);
            if (!uf || ok(x)) && (!ub || ok(y)) {
                rt::check(o.ok(), "COLOR accepts colors");
                rt::check(c.log == [Ev::Color(if uf { Some(x as u8) } else { None }, if ub { Some(y as u8) } else { None })], "COLOR sets the given colors and resets the others");
            } else {
                rt::check(matches!(&o, Outcome::Exc(1, c, m) if *c >= 7 && m == "Color out of range"), "COLOR rejects values that are no colors");
                rt::check(c.log.is_empty(), "a rejected COLOR has no effect");
                rt::cover("bad color");
            }
        }
        _ => {
            let (cx, cy) = (rt::u16_(), rt::u16_());
            m.c.borrow_mut().size = endbasic_std::console::CharsXY::new(cx, cy);
            let o = m.run("OUT SCRCOLS, SCRROWS\nCLS");
            rt::log(o.msg()); rt::check(o.ok(), "completes");
            expect_outs(&w, &[V::I(cx as i32), V::I(cy as i32)], "SCRCOLS and SCRROWS report the size of the screen");
            rt::check(m.c.borrow().log == [Ev::Clear(0)], "CLS clears the screen");
        }
    }
}

/// INPUT reads lines until one converts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_input(case: u32) {
    let w = world();
    let mut m = stdm(&w);
    let t = case as usize % 4;
    let sig = ["%", "#", "?", "$"][t];
    let nlines = 2;
    let mut lines: Vec<String> = vec![];
    for k in 0..nlines {
        let n = rt::choose(if k == 0 { 4 } else { 2 });
        let mut s = String::new();
        for _ in 0..n {
            s.push(match t { 0 => rt::byte_of(b"09-+5x ") as char, 1 => rt::pick(&['1', '.', '-', 'e', ' ']), 2 => rt::byte_of(b"yYnNtTeEsSoO ") as char, _ => { let b = rt::u8_(); rt::assume((b >= 32) & (b < 127)); b as char } });
        }
        lines.push(s);
    }
    let form = rt::choose(3);
    for l in &lines {
        for c in l.chars() { m.c.borrow_mut().keys.push_back(Key::Char(c)); }
        m.c.borrow_mut().keys.push_back(Key::NewLine);
    }
    let last = ["4", "2.5", "yes", "end"][t];
    for c in last.chars() { m.c.borrow_mut().keys.push_back(Key::Char(c)); }
    m.c.borrow_mut().keys.push_back(Key::NewLine);
    lines.push(last.into());
    let src = format!("INPUT {}v{}\nOUT v", ["", "\"pq\"; ", "\"pq\", "][form], sig);
    let o = m.run(&src);
    rt::log(o.msg());
    rt::log(o.msg()); rt::check(o.ok(), "completes");
    let mut want = None;
    let mut used = 0;
    for l in &lines {
        used += 1;
        let l = l.trim_end_matches(' ');
        want = match t { 0 => int(l).map(V::I), 1 => if l.contains(' ') { None } else { num(l).map(V::D) }, 2 => boolean(l).map(V::B), _ => Some(V::S(l.into())) };
        if want.is_some() { break; }
        rt::cover("retry");
    }
    expect_outs(&w, &[want.unwrap()], "INPUT stores the first line that converts");
    let c = m.c.borrow();
    let prompt = ["", "pq? ", "pq"][form];
    let mut text = String::new();
    for e in &c.log { match e { Ev::Write(s) => text += s, Ev::Print(s) => { rt::check(s.starts_with("Retry input: "), "INPUT tells about lines that do not convert"); text += "~" } _ => rt::fail("INPUT only writes") } }
    let parts: Vec<&str> = text.split('~').collect();
    rt::check(parts.len() == used, "INPUT tells about every line that does not convert");
    if !prompt.is_empty() && c.interactive { for p in &parts { rt::check(p.starts_with(prompt), "INPUT writes its prompt"); } }
}
fn int(s: &str) -> Option<i32> {
    let b = s.as_bytes();
    let (neg, d) = if !b.is_empty() && (b[0] == b'-' || b[0] == b'+') { (b[0] == b'-', &b[1..]) } else { (false, b) };
    if d.is_empty() { return None; }
    let mut v = 0;
    for c in d { if *c < b'0' || *c > b'9' { return None; } v = v * 10 + (*c - b'0') as i32; }
    Some(if neg { -v } else { v })
}
fn num(s: &str) -> Option<f64> { s.parse().ok() }
fn boolean(s: &str) -> Option<bool> {
    let u: String = s.chars().map(|c| if c >= 'a' && c <= 'z' { (c as u8 - 32) as char } else { c }).collect();
    if u == "Y" || u == "YES" || u == "TRUE" { Some(true) } else if u == "N" || u == "NO" || u == "FALSE" { Some(false) } else { None }
}

/// INKEY names keys.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_inkey(_case: u32) {
    let w = world();
    let mut m = stdm(&w);
    let b = rt::u8_();
    rt::assume((b >= 32) & (b < 127));
    let keys = [(Key::ArrowUp, "UP"), (Key::ArrowDown, "DOWN"), (Key::ArrowLeft, "LEFT"), (Key::ArrowRight, "RIGHT"), (Key::Backspace, "BS"), (Key::End, "END"), (Key::NewLine, "ENTER"), (Key::CarriageReturn, "ENTER"), (Key::EofOrDelete, "EOF"), (Key::Escape, "ESC"), (Key::Home, "HOME"), (Key::Interrupt, "INT"), (Key::PageUp, "PGUP"), (Key::PageDown, "PGDOWN"), (Key::Tab, "TAB"), (Key::Delete, "DEL"), (Key::Unknown, "?"), (Key::Char('글'), "글")];
    let k = rt::choose(19);
    let (key, name) = if k == 18 { (Key::Char(b as char), (b as char).to_string()) } else { (keys[k].0.clone(), keys[k].1.to_owned()) };
    m.c.borrow_mut().keys.push_back(key);
    rt::check(m.run("OUT INKEY, INKEY, INKEY = \"\"").ok(), "completes");
    expect_outs(&w, &[V::S(name), V::S("".into()), V::B(true)], "INKEY names keys and never blocks");
}

/// SLEEP, sounds and the clock.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_time(case: u32) {
    let w = world_d(1);
    let x = w.dbls.borrow()[0];
    let mut m = stdm(&w);
    match case {
        0 | 1 => {
            let src = ["SLEEP DV(0)", "PLAY 440, DV(0)"][case as usize];
            if case == 1 { let names: Vec<&str> = vec![]; let _ = names; }
            let o = m.run(if case == 0 { src } else { "SOUND 440, DV(0)" });
            rt::log(o.msg());
            rt::check(o.ok() || matches!(&o, Outcome::Exc(1, _, m) if !m.is_empty()), "a duration is accepted or rejected");
            let c = m.c.borrow();
            if o.ok() {
                rt::check(c.log.len() == 1, "there is one wait");
                rt::check((x >= 0.0) & (x < 2e19), "only durations are accepted");
                let n = match &c.log[0] { Ev::Sleep(_) => 0, Ev::Tone(440, _) => 1, _ => rt::fail("there is one wait") };
                rt::check(n == case, "there is one wait");
                rt::cover("slept");
            } else {
                rt::check(!((x >= 0.0) & (x <= 1e9)), "durations are accepted");
                rt::check(c.log.is_empty(), "rejected durations have no effect");
                rt::cover("rejected");
            }
        }
        3 => {
            // Any pitch.
            let (d, a) = (rt::pick(&[0.0, 0.001, 2.5, 100000.0]), rt::i32_());
            w.dbls.borrow_mut()[0] = d;
            push_int(&w, a);
            let o = m.run("SOUND IV(0), DV(0)");
            let c = m.c.borrow();
            if a > 0 {
                rt::check(o.ok() && c.log.len() == 1, "there is one tone");
                rt::check(matches!(&c.log[0], Ev::Tone(p, l) if *p == a as u32 && *l == Duration::from_secs_f64(d)), "the tone is the one asked for");
                rt::cover("slept");
            } else {
                rt::check(matches!(&o, Outcome::Exc(1, 7, m) if m.contains("must be positive")) && c.log.is_empty(), "rejected tones have no effect");
                rt::cover("rejected");
            }
        }
        5 | 6 => {
            // Any duration of a given size, compared in integers.
            let e = rt::choose(20) as u64;
            let f = rt::u64_();
            rt::assume(f < 1 << 52);
            w.dbls.borrow_mut()[0] = f64::from_bits((1019 + e) << 52 | f);
            rt::check(m.run(if case == 5 { "SLEEP DV(0)" } else { "SOUND 440, DV(0)" }).ok(), "durations are accepted");
            let c = m.c.borrow();
            rt::check(c.log.len() == 1, "there is one wait");
            let d = match &c.log[0] { Ev::Sleep(d) if case == 5 => *d, Ev::Tone(440, d) if case == 6 => *d, _ => rt::fail("there is one wait") };
            let whole = ((1 << 52) | f) >> (52 + 4 - e);
            rt::check((d.as_secs() == whole) | ((d.as_secs() == whole + 1) & (d.subsec_nanos() == 0)), "the wait is as long as asked");
            let half = ((1 << 52) | f) >> (52 + 4 - e - 1) & 1;
            rt::check((d.as_secs() != whole) | ((d.subsec_nanos() >= 500_000_000) == (half == 1)) | (d.subsec_nanos() == 500_000_000), "the wait is as long as asked");
            rt::cover("slept");
        }
        4 => {
            rt::check(m.run("BEEP").ok(), "completes");
            let c = m.c.borrow();
            rt::check(matches!(&c.log[..], [Ev::Tone(p, l)] if *p > 20 && *p < 20000 && *l >= Duration::from_millis(50) && *l <= Duration::from_secs(1)), "BEEP can be heard and ends");
        }
        _ => {
            let d = rt::pick(&[0.0, 0.001, 1.0, 2.5, 3600.0]);
            w.dbls.borrow_mut()[0] = d;
            rt::check(m.run("a# = MONOTONIC\nSLEEP DV(0)\nb# = MONOTONIC\nOUT b - a").ok(), "completes");
            expect_outs(&w, &[V::D(d)], "the clock advances");
            rt::check(m.c.borrow().log == [Ev::Sleep(Duration::from_secs_f64(d))], "SLEEP waits as long as asked");
        }
    }
}

/// Drawing commands pass on exactly the given coordinates or reject them. Case: command.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_gfx(case: u32) {
    let w = world_i(2);
    let (x, y) = (w.ints.borrow()[0], w.ints.borrow()[1]);
    let mut m = stdm(&w);
    const CMDS: [(&str, usize, &str); 12] = [("GFX_CIRCLE", 3, "circle"), ("GFX_CIRCLEF", 3, "circlef"), ("GFX_FILL", 2, "fill"), ("GFX_LINE", 4, "line"), ("GFX_PIXEL", 2, "pixel"), ("GFX_POLY", 8, "poly"), ("GFX_POLYF", 6, "polyf"), ("GFX_RECT", 4, "rect"), ("GFX_RECTF", 4, "rectf"), ("GFX_TRI", 6, "tri"), ("GFX_TRIF", 6, "trif"), ("GFX_PEEK", 2, "")];
    let (name, n, ev) = CMDS[case as usize];
    let p = rt::choose(n);
    let q = (p + 1 + rt::choose(n - 1)) % n;
    let mut vals = vec![11i64, -22, 33, -44, 32767, -32768, 0, 7];
    vals.truncate(n);
    if n == 3 { vals[2] = 65535; }
    let (mut cols, mut src) = (vec![], format!("{}{}", if ev.is_empty() { "OUT " } else { "" }, name));
    src.push(if ev.is_empty() { '(' } else { ' ' });
    for k in 0..n {
        if k > 0 { src += ", "; }
        cols.push(src.len() + 1);
        if k == p { src += "IV(0)"; vals[k] = x as i64; } else if k == q { src += "IV(1)"; vals[k] = y as i64; } else { src += &vals[k].to_string(); }
    }
    if ev.is_empty() { src.push(')'); }
    let pixel = if ev.is_empty() { rt::pick(&[None, Some(0), Some(255)]) } else { None };
    m.c.borrow_mut().pixel = pixel;
    let o = m.run(&src);
    rt::log(o.msg());
    // The first wrong argument is the one that is reported.
    let wrong = |k: usize| if k == 2 && n == 3 { (vals[k] < 0) | (vals[k] > 65535) } else { (vals[k] < -32768) | (vals[k] > 32767) };
    let mut at = None;
    for k in [p.min(q), p.max(q)] { if at.is_none() && wrong(k) { at = Some(k); } }
    let c = m.c.borrow();
    match at {
        Some(k) => {
            rt::check(matches!(&o, Outcome::Exc(1, c, _) if *c == cols[k]), "coordinates out of range are rejected where they are");
            rt::check(matches!(&o, Outcome::Exc(_, _, m) if m.contains(if k == 2 && n == 3 { "Radius" } else { "Coordinate" })), "coordinates out of range are rejected");
            rt::check(c.log.is_empty(), "a rejected command has no effect");
            rt::cover("rejected");
        }
        None => {
            rt::check(o.ok(), "coordinates that can be represented are accepted");
            if ev.is_empty() {
                expect_outs(&w, &[V::I(pixel.map_or(-1, |v| v as i32))], "GFX_PEEK returns the color of the pixel");
                rt::check(c.peeked.get() == Some((vals[0] as i16, vals[1] as i16)), "GFX_PEEK reads the given pixel");
            } else { rt::check(c.log == [Ev::Draw(ev, vals)], "exactly what was asked for is drawn"); }
            rt::cover("drawn");
        }
    }
}

/// Polygons from arrays, syncing and the size of the screen.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_gfx_more(case: u32) {
    let w = world_i(2);
    let (x, y) = (w.ints.borrow()[0], w.ints.borrow()[1]);
    let mut m = stdm(&w);
    match case {
        0..=3 => {
            let (name, ev) = [("GFX_POLY", "poly"), ("GFX_POLYF", "polyf")][case as usize % 2];
            let n = rt::pick(&[1, 2, 3, 4, 5, 7]);
            let flat = case < 2;
            let (p, q) = (rt::choose(2 * n), rt::pick(&[0, n, 2 * n - 1]));
            let mut src = if flat { format!("DIM a({}) AS INTEGER\n", 2 * n) } else { format!("DIM a({}, 2) AS INTEGER\n", n) };
            let at = |k: usize| if flat { k.to_string() } else { format!("{}, {}", k / 2, k % 2) };
            let mut vals: Vec<i64> = (0..2 * n).map(|k| if k % 3 == 2 { 0 } else { k as i64 * 9 - 11 }).collect();
            for k in 0..2 * n { if vals[k] != 0 { src += &format!("a({}) = {}\n", at(k), vals[k]); } }
            src += &format!("a({}) = IV(0)\na({}) = IV(1)\n{} a", at(p), at(q), name);
            vals[p] = x as i64;
            vals[q] = y as i64;
            let o = m.run(&src);
            let c = m.c.borrow();
            rt::log(o.msg());
            let bad = |v: i64| (v < -32768) | (v > 32767);
            if bad(vals[p]) | bad(vals[q]) {
                rt::check(matches!(&o, Outcome::Exc(_, c, m) if *c as usize == name.len() + 2 && m.contains("Coordinate")), "coordinates out of range are rejected");
                rt::check(c.log.is_empty(), "a rejected command has no effect");
                rt::cover("rejected");
            } else {
                rt::check(o.ok(), "coordinates that can be represented are accepted");
                rt::check(c.log == [Ev::Draw(ev, vals)], "exactly what was asked for is drawn");
                rt::cover("drawn");
            }
        }
        4 => {
            // Arrays and arguments that are no lists of points.
            let src = rt::pick(&["DIM a(3) AS INTEGER\nGFX_POLY a", "DIM a(1) AS INTEGER\nGFX_POLY a", "DIM a(9) AS INTEGER\nGFX_POLYF a", "DIM a(1, 1) AS INTEGER\nGFX_POLY a", "DIM a(2, 1) AS INTEGER\nGFX_POLY a", "DIM a(5, 3) AS INTEGER\nGFX_POLYF a", "DIM a(2, 4) AS INTEGER\nGFX_POLY a", "DIM a(2, 3) AS INTEGER\nGFX_POLYF a", "DIM a(2, 2, 2) AS INTEGER\nGFX_POLY a", "DIM a(4) AS DOUBLE\nGFX_POLY a", "GFX_POLY 1, 2, IV(0)", "GFX_POLYF 1, 2, 3, 4, 5"]);
            let o = m.run(src);
            rt::check(matches!(o, Outcome::Exc(..) | Outcome::Compile(..)), "what is no list of points is rejected");
            rt::check(m.c.borrow().log.is_empty(), "a rejected command has no effect");
        }
        5 => {
            let (a, b) = (rt::bool_(), rt::choose(2) == 1);
            w.bools.borrow_mut().push(a);
            m.c.borrow_mut().sync = b;
            let o = m.run("GFX_SYNC BV(0)\nGFX_SYNC");
            rt::check(o.ok(), "completes");
            let c = m.c.borrow();
            rt::check(c.sync == a, "GFX_SYNC sets whether to sync");
            let shows: Vec<&Ev> = c.log.iter().filter(|e| matches!(e, Ev::Show | Ev::Hide)).collect();
            rt::check(shows.len() == 1 && (*shows[0] == Ev::Show) == a, "the cursor is only visible while syncing");
            rt::check(c.log.last() == Some(&Ev::SyncNow), "GFX_SYNC syncs");
        }
        _ => {
            let (a, b) = (rt::u16_(), rt::u16_());
            rt::assume((a > 0) & (b > 0));
            m.c.borrow_mut().graphics = Some((a, b));
            rt::check(m.run("OUT GFX_WIDTH, GFX_HEIGHT").ok(), "completes");
            expect_outs(&w, &[V::I(a as i32), V::I(b as i32)], "GFX_WIDTH and GFX_HEIGHT report the size of the screen");
        }
    }
}

// ---------------------------------------------------------------------------- pins

use endbasic_std::gpio::{MockPins, Pin, PinMode, Pins};
/// Pins that record what is asked of them and may fail.
struct Gpio { log: Rc<std::cell::RefCell<Vec<(u8, i32, i32)>>>, fail: bool, level: bool }
impl Gpio { fn op(&mut self, o: u8, p: i32, v: i32) -> std::io::Result<()> { self.log.borrow_mut().push((o, p, v)); if self.fail { Err(std::io::Error::other("broken")) } else { Ok(()) } } }
fn mode(m: PinMode) -> i32 { match m { PinMode::In => 0, PinMode::InPullDown => 1, PinMode::InPullUp => 2, PinMode::Out => 3 } }
impl Pins for Gpio {
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any { self }
    fn setup(&mut self, p: Pin, m: PinMode) -> std::io::Result<()> { self.op(0, p.0 as i32, mode(m)) }
    fn clear(&mut self, p: Pin) -> std::io::Result<()> { self.op(1, p.0 as i32, 0) }
    fn clear_all(&mut self) -> std::io::Result<()> { self.op(2, 0, 0) }
    fn read(&mut self, p: Pin) -> std::io::Result<bool> { self.op(3, p.0 as i32, 0).map(|_| self.level) }
    fn write(&mut self, p: Pin, v: bool) -> std::io::Result<()> { self.op(4, p.0 as i32, v as i32) }
}

/// Pins of any number, with pins that may fail. Case: the command.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_gpio(case: u32) {
    let w = world();
    let log = Rc::new(std::cell::RefCell::new(vec![]));
    let (p, v, level, fail) = (rt::i32_(), rt::bool_(), rt::bool_(), rt::choose(2) == 1);
    push_int(&w, p);
    w.bools.borrow_mut().push(v);
    let (b, ..) = builder(&w);
    let mut m = b.with_gpio_pins(Rc::new(std::cell::RefCell::new(Gpio { log: log.clone(), fail, level }))).build();
    // Names of modes in any case, and anything else.
    const MODES: [&str; 4] = ["IN", "IN-PULL-DOWN", "IN-PULL-UP", "OUT"];
    let mut want = None;
    if case < 8 {
        let mut s = String::new();
        if case < 4 {
            for c in MODES[case as usize].bytes() { let up = c.is_ascii_alphabetic() && rt::bool_(); s.push(if up { c ^ 32 } else { c } as char); }
            want = Some(case as i32);
        } else {
            for _ in 0..case - 3 { let c = rt::u8_() & 127; rt::assume((c >= 32) & (c < 127)); s.push(c as char); }
            let t = s.to_ascii_uppercase();
            want = MODES.iter().position(|m| *m == t).map(|k| k as i32);
        }
        push_str(&w, &s);
    }
    let (src, at, call) = match case {
        0..=7 => ("GPIO_SETUP IV(0), SV(0)", 12, (0, want.unwrap_or(-1))),
        8 => ("GPIO_CLEAR IV(0)", 12, (1, 0)),
        9 => ("OUT GPIO_READ(IV(0))", 15, (3, 0)),
        10 => ("GPIO_WRITE IV(0), BV(0)", 12, (4, v as i32)),
        _ => ("GPIO_CLEAR", 1, (2, 0)),
    };
    rt::log(src);
    if m.compile(&mut src.as_bytes()).is_err() { rt::fail("accepted"); }
    let o = outcome(rt::block_on(m.exec()));
    let valid = (case == 11) | ((p >= 0) & (p <= 255));
    if !valid {
        rt::check(matches!(o, Outcome::Exc(1, c, ref m) if c == at && m.starts_with("Pin number ")), "pins that do not exist are reported at the argument");
        rt::check(log.borrow().is_empty(), "a rejected command has no effect");
        rt::cover("rejected");
    } else if case < 8 && want.is_none() {
        rt::check(matches!(o, Outcome::Exc(1, 19, ref m) if m.starts_with("Unknown pin mode ")), "unknown modes are reported at the argument");
        rt::check(log.borrow().is_empty(), "a rejected command has no effect");
        rt::cover("rejected");
    } else {
        let log = log.borrow();
        rt::check(log.len() == 1 && (log[0].0 == call.0) && log[0].1 == (if case == 11 { 0 } else { p }) && log[0].2 == call.1, "the pins do exactly what was asked");
        if fail { rt::check(matches!(o, Outcome::Exc(1, c, ref m) if c == (if case == 9 { 5 } else { 1 }) && m.contains("broken")), "failures of the pins are reported at the command"); }
        else { rt::check(o.ok(), "completes"); if case == 9 { expect_outs(&w, &[V::B(level)], "levels are read as they are"); } }
        rt::cover("done");
    }
    std::mem::forget(m);
}

/// Sequences of commands on the pins for testing. Case: the first command.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_gpio_mock(case: u32) {
    let w = world();
    let (b, c, ..) = builder(&w);
    let pins = Rc::new(std::cell::RefCell::new(MockPins::default()));
    let mut m = b.with_gpio_pins(pins.clone()).make_interactive().build();
    let mut trace: Vec<i32> = vec![];
    let mut reads: std::collections::VecDeque<(i32, bool)> = Default::default();
    for step in 0..(if case >= 100 { 4 } else { 3 }) {
        let op = if step == 0 { case as usize % 100 } else { rt::choose(10) };
        let p = if matches!(op, 0 | 1 | 5 | 6) { rt::pick(&[3, 255]) } else { 3 };
        let mut ok = true;
        let src = match op {
            0 => { reads.push_back((p, true)); format!("GPIO_MOCK_INJECT {}, TRUE", p) }
            1 => { reads.push_back((p, false)); format!("GPIO_MOCK_INJECT {}, FALSE", p) }
            2 => { let k = rt::choose(4); trace.push(301 + k as i32); format!("GPIO_SETUP 3, \"{}\"", ["IN", "IN-PULL-DOWN", "IN-PULL-UP", "OUT"][k]) }
            3 => { trace.push(305); "GPIO_CLEAR 3".into() }
            4 => { trace.push(-1); "GPIO_CLEAR".into() }
            5 | 6 => {
                // The values that were prepared are read in order, by the right pins.
                ok = match reads.pop_front() { Some((q, v)) if q == p => { trace.push(p * 100 + 10 + v as i32); c.borrow_mut().log.clear(); true } _ => false };
                let v = trace.last().copied().unwrap_or(0) % 2 == 1;
                if op == 5 { format!("IF GPIO_READ({}) <> {} THEN OUT \"wrong\"", p, if v { "TRUE" } else { "FALSE" }) } else { format!("v = GPIO_READ({})", p) }
            }
            7 => { trace.push(321); "GPIO_WRITE 3, TRUE".into() }
            8 => { trace.push(320); "GPIO_WRITE 3, FALSE".into() }
            _ => { trace.push(-1); "CLEAR".into() }
        };
        rt::log(&src);
        if m.compile(&mut src.as_bytes()).is_err() { rt::fail("accepted"); }
        rt::check(outcome(rt::block_on(m.exec())).ok() == ok, "commands fail exactly when they must");
        rt::check(w.outs.borrow().is_empty(), "the values that were prepared are read");
        rt::check(pins.borrow().trace() == trace, "the pins do exactly what was asked, in order");
    }
    if m.compile(&mut &b"OUT GPIO_MOCK_TRACE"[..]).is_err() { rt::fail("accepted"); }
    rt::check(outcome(rt::block_on(m.exec())).ok(), "completes");
    expect_outs(&w, &[V::S(trace.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" "))], "the trace shows everything that was done");
    rt::cover("done");
    std::mem::forget(m);
}

/// The bounds of arrays of up to three dimensions. Case: the function and the number of dimensions.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_bounds(case: u32) {
    let (f, n) = (["LBOUND", "UBOUND"][case as usize % 2], case as usize / 2 % 3 + 1);
    let sizes: Vec<usize> = (0..n).map(|_| if n == 3 { rt::pick(&[1, 3]) } else { 1 + rt::choose(4) }).collect();
    let types: &[&str] = if n == 3 { &["INTEGER", "STRING"] } else { &["INTEGER", "STRING", "DOUBLE", "BOOLEAN"] };
    let dim = format!("DIM {}a({}) AS {}", ["", "SHARED "][case as usize / 6 % 2], sizes.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(", "), rt::pick(types));
    let d = rt::i32_();
    let w = world();
    push_int(&w, d);
    let mut m = stdm(&w);
    let short = rt::choose(2) == 1;
    if short {
        let o = m.run(&format!("{}: OUT {}(a)", dim, f));
        if n == 1 { rt::check(o.ok(), "completes"); expect_outs(&w, &[V::I(if case % 2 == 0 { 0 } else { sizes[0] as i32 - 1 })], "the bounds are the ones of the array"); rt::cover("bound"); }
        else { rt::check(matches!(o, Outcome::Exc(..)), "the dimension is necessary if there are several"); rt::check(w.outs.borrow().is_empty(), "nothing is returned"); }
        return;
    }
    let o = m.run(&format!("{}: OUT {}(a, IV(0))", dim, f));
    if d >= 1 && d <= n as i32 {
        rt::check(o.ok(), "completes");
        expect_outs(&w, &[V::I(if case % 2 == 0 { 0 } else { sizes[d as usize - 1] as i32 - 1 })], "the bounds are the ones of the array");
        rt::cover("bound");
    } else {
        rt::check(matches!(&o, Outcome::Exc(1, c, _) if *c == dim.len() + 7 + f.len() + 4), "dimensions that do not exist are reported at the argument");
        rt::check(w.outs.borrow().is_empty(), "nothing is returned");
        rt::cover("no dimension");
    }
}

rt::harness_main!(h_substr, h_long, h_instr, h_chars, h_strval, h_num, h_angle, h_minmax, h_round, h_rnd, h_read, h_read_chunks, h_print, h_screen, h_input, h_inkey, h_time, h_gfx, h_gfx_more, h_gpio, h_gpio_mock, h_bounds);

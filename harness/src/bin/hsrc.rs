//! Source texts: any text is compiled or rejected, and what is written is what runs.
use rt::lang::{self, expect_outs, Machine, Outcome, World, V};
use std::io::Read;
use std::rc::Rc;

/// Programs with every kind of statement.
const PROGS: [&str; 24] = [
    "a = 1 + 2 * -3\nOUT a",
    "DIM SHARED b AS STRING\nb = \"x\"\nOUT b",
    "DIM a(2, 3) AS INTEGER\na(1, 2) = 4\nOUT a(1, 2)",
    "IF BV(0) THEN\nOUT 1\nELSEIF TRUE THEN\nOUT 2\nELSE\nOUT 3\nEND IF",
    "IF TRUE THEN OUT 1 ELSE OUT 2",
    "FOR i = 1 TO 3 STEP 2\nOUT i\nNEXT",
    "FOR x# = 3 TO 1 STEP -0.5: NEXT",
    "i = 0\nDO WHILE i < 2\ni = i + 1\nLOOP",
    "DO: EXIT DO: LOOP UNTIL TRUE",
    "WHILE FALSE\nWEND",
    "SELECT CASE 5\nCASE 1, 2\nCASE IS > 7\nCASE 4 TO 6: OUT 1\nCASE ELSE\nEND SELECT",
    "FUNCTION f%(a, b AS STRING)\nf = a\nEND FUNCTION\nOUT f(2, \"\")",
    "SUB s(v$)\nOUT v\nEXIT SUB\nEND SUB\ns \"q\"",
    "DECLARE SUB s\ns\nSUB s\nEND SUB",
    "GOTO @end\nOUT 1\n@end\nEND 3",
    "GOSUB @s: END\n@s: RETURN",
    "ON ERROR GOTO @h\nFAIL 0\n@h",
    "ON ERROR RESUME NEXT\nON ERROR GOTO 0",
    "DATA 1, \"a\", , -2.5, TRUE\nGETDATA",
    "OUT 1; 2, \"x\" AS TRUE",
    "OUT NOT (1 = 2) AND 3 <> 4 OR &xf >> 1 XOR 2 MOD 1 ^ 2",
    "SETV r, 0: OUT r ' note",
    "REM note: OUT 1\nOUT \"a\\\"b\"",
    "10 END\n20 REM",
];

fn setup() -> (Rc<World>, Machine) {
    let w = lang::world();
    w.ints.borrow_mut().push(7); w.bools.borrow_mut().push(false); w.dbls.borrow_mut().push(1.5); w.strs.borrow_mut().push("s".into()); w.fails.borrow_mut().push(true);
    let mut m = Machine::new(&w);
    m.max_stops = 12;
    (w, m)
}

/// Compiles a text and runs it for a while.
fn try_text(m: &mut Machine, w: &World, t: &str) {
    rt::log(t);
    let lines = t.split('\n').count();
    match m.run(t.as_bytes()) {
        Outcome::Compile(l, c, e) => {
            rt::check(l >= 1 && l <= lines && c >= 1, "errors are at a position of the text");
            rt::check(!e.is_empty(), "errors say what is wrong");
            rt::check(w.outs.borrow().is_empty(), "nothing of a rejected text runs");
            rt::cover("rejected");
        }
        // A program that goes on is not over.
        Outcome::Stuck => { rt::cover("accepted"); return; }
        Outcome::Exc(l, c, _) => { rt::check(l >= 1 && l <= lines && c >= 1, "errors are at a position of the text"); rt::cover("accepted"); }
        _ => rt::cover("accepted"),
    }
    // The machine can still be used.
    w.outs.borrow_mut().clear();
    rt::check(m.run(b"zz = 4\nOUTS zz").ok() && w.outs.borrow().len() == 2 && w.outs.borrow()[0].same(&V::I(4)), "the machine can still be used");
}

/// Programs with one character changed. Case: the program, plus 100 for any character.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_char(case: u32) {
    let p: Vec<char> = PROGS[case as usize % 100 % PROGS.len()].chars().collect();
    let (w, mut m) = setup();
    let (kind, at) = (rt::choose(3), rt::choose(p.len() + 1));
    if kind > 0 && at == p.len() { rt::done(); }
    let mut t: String = p[..at].iter().collect();
    if kind < 2 {
        if case < 100 { t.push(rt::pick(&['"', '\'', '(', ')', '-', ',', '.', '0', ':', '<', '=', '>', '@', 'a', '\n', '_', '%', '#', '$', '&', '\\', '{', '\0', '\u{e9}'])); }
        else { let c = rt::u8_() & 127; rt::assume((c >= 9) & ((c <= 10) | (c >= 32)) & (c < 127)); t.push(c as char); }
    }
    t.extend(&p[if kind > 0 { at + 1 } else { at }..]);
    try_text(&mut m, &w, &t);
}

const TOKENS: [&str; 62] = ["AND", "AS", "BOOLEAN", "CASE", "DATA", "DECLARE", "DIM", "DO", "ELSE", "ELSEIF", "END", "ERROR", "EXIT", "FALSE", "FOR", "FUNCTION", "GOSUB", "GOTO", "IF", "IS", "LOOP", "MOD", "NEXT", "NOT", "ON", "OR", "REM", "RESUME", "RETURN", "SELECT", "SHARED", "STEP", "STRING", "SUB", "THEN", "TO", "UNTIL", "WEND", "WHILE", "x", "y$", "z(", "@end", "1", "2.5", "\"t\"", "(", ")", "+", "-", "*", "^", "=", "<", "<>", ",", ";", ":", "\n", "&b1", "OUT", "IV"];

/// The words of a program.
fn words(p: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut word = false;
    let mut quoted = false;
    for c in p.chars() {
        let is = c.is_alphanumeric() || "_@&.%$#?".contains(c);
        if quoted || (is && word) { v.last_mut().unwrap().push(c); if c == '"' { quoted = false; word = false; } }
        else if c == ' ' { word = false; }
        else { v.push(c.to_string()); word = is; if c == '"' { quoted = true; } }
    }
    v
}

/// Programs with one word changed, removed, inserted or exchanged with the next. Case: the program and the change.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_words(case: u32) {
    let mut p = words(PROGS[case as usize / 3 % PROGS.len()]);
    let (w, mut m) = setup();
    let at = rt::choose(p.len());
    match case % 3 {
        0 => p[at] = rt::pick(&TOKENS).into(),
        1 => p.insert(at, rt::pick(&TOKENS).into()),
        _ => match rt::choose(4) { 0 => { p.remove(at); } 1 => { let x = p[at].clone(); p.insert(at, x); } 2 => { if at + 1 == p.len() { rt::done(); } p.swap(at, at + 1); } _ => p.truncate(at) },
    }
    try_text(&mut m, &w, &p.join(" "));
}

/// Short texts out of any words. Case: the first word, plus 100 for any third one.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_short(case: u32) {
    let (w, mut m) = setup();
    let (deep, case) = (case >= 100, case as usize % 100);
    let mut t = format!("{} {} ", TOKENS[case % TOKENS.len()], rt::pick(&TOKENS));
    t += if deep { rt::pick(&TOKENS) } else { rt::pick(&["END", "x", "1", "(", "=", ",", "\n", "\"t\"", "IF", "AS", "SUB", "OUT"]) };
    if deep && rt::choose(2) == 1 { t += "\nEND"; }
    try_text(&mut m, &w, &t);
}

/// A source that arrives in pieces and may fail.
struct Pieces<'a> { data: &'a [u8], cut: usize, pos: usize, fail: usize }
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.fail { return Err(std::io::Error::other("unreadable")); }
        let end = if self.pos < self.cut { self.cut } else { self.data.len() };
        let n = (end - self.pos).min(b.len()).min(self.fail - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Texts that arrive in pieces, with any bytes, and may become unreadable. Case: where the bytes are.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_bytes(case: u32) {
    let (w, mut m) = setup();
    let around = [("DATA \"", "\"\nGETDATA\nOUT 2"), ("OUT 1 '", "\nOUT 2"), ("", "\nOUT 2"), ("OUT 1\n", "")][case as usize % 4];
    let n = 1 + case as usize / 4 % 3;
    let mut bytes = rt::bytes(n);
    // Outside of strings and comments, words are looked up: few of their letters are arbitrary.
    if n > 1 && case % 4 > 1 { for b in bytes.iter_mut().skip(1) { *b = rt::pick(&[0x80, 0xbf, 0xa9, b'\n', b'a']); } }
    let mut t = around.0.as_bytes().to_vec();
    // Within a string, characters stand for themselves.
    if case % 4 == 0 { for b in &bytes { rt::assume((*b != b'"') & (*b != b'\\')); } }
    t.extend(&bytes);
    t.extend(around.1.as_bytes());
    let cut = around.0.len() + rt::choose(n + 1);
    let fail = if rt::choose(4) == 0 { let k = rt::choose(n + 3); if k < n + 2 { around.0.len() + k - 1.min(around.0.len()) } else { 0 } } else { usize::MAX };
    let mut src = Pieces { data: &t, cut, pos: 0, fail };
    let r = m.comp.compile_more(&mut m.img, &mut src);
    let text = std::str::from_utf8(&t).ok();
    if fail != usize::MAX || text.is_none() {
        rt::check(r.is_err(), "texts that cannot be read are rejected");
        rt::cover("unreadable");
    } else if case % 4 == 0 {
        rt::check(r.is_ok(), "strings may have any characters");
        rt::check(m.exec().ok(), "runs");
        rt::check(matches!(&w.data.borrow()[..], [Some(v)] if v.same(&V::S(text.unwrap()[6..text.unwrap().len() - around.1.len()].to_owned()))), "strings have the characters that were written");
        expect_outs(&w, &[V::I(2)], "strings have the characters that were written");
        rt::cover("text");
    } else if case % 4 == 1 {
        let lf = bytes.contains(&b'\n') || bytes.contains(&b'\r');
        if lf { if r.is_ok() { m.exec(); } } else { rt::check(r.is_ok() && m.exec().ok(), "comments may have any characters"); expect_outs(&w, &[V::I(1), V::I(2)], "comments do nothing"); rt::cover("text"); }
    } else if r.is_ok() { m.exec(); rt::cover("text"); }
    w.outs.borrow_mut().clear();
    rt::check(m.run(b"OUT 4").ok(), "the machine can still be used");
    expect_outs(&w, &[V::I(4)], "the machine can still be used");
}

// ---------------------------------------------------------------------------- literals

fn out_of(lit: &str) -> (Rc<World>, Outcome) {
    let src = format!("OUT {}", lit);
    rt::log(&src);
    let w = lang::world();
    let o = Machine::new(&w).run(src.as_bytes());
    (w, o)
}

/// Data: what the text says is not looked up in tables by its value.
fn data_of(lit: &str) -> (Rc<World>, Outcome) {
    let src = format!("DATA {}\nGETDATA", lit);
    rt::log(&src);
    let w = lang::world();
    let o = Machine::new(&w).run(src.as_bytes());
    for d in w.data.borrow().iter() { w.outs.borrow_mut().push(d.clone().unwrap()); }
    (w, o)
}

/// Integers of any digits. Case: the base and the number of digits.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_integer(case: u32) {
    let (base, n) = (case as usize / 40, case as usize % 40);
    let (pre, radix): (&str, u64) = [("", 10), ("&b", 2), ("&O", 8), ("&d_", 10), ("&x", 16), ("&X_", 16), ("&B_", 2)][base];
    let set: &[u8] = [&b"0123456789"[..], b"01", b"01234567", b"0123456789", b"0123456789abcdefABCDEF", b"0123456789abcdefABCDEF", b"01"][base];
    let mut s = String::from(pre);
    let (mut v, mut over) = (0u64, false);
    // Up to 4 digits are arbitrary. The others are those of the limits, or all the same.
    let rest: Vec<u8> = if n <= 4 { vec![] } else {
        let limit = match (base, rt::choose(4)) {
            (0, 0) => "2147483647".to_owned(),
            (0, 1) => "2147483648".to_owned(),
            (3, 0) => "4294967295".to_owned(),
            (3, 1) => "4294967296".to_owned(),
            (1 | 6, 0) => "1".repeat(32),
            (2, 0) => "37777777777".to_owned(),
            (4 | 5, 0) => "fFfffFfF".to_owned(),
            (_, 1) => format!("1{}", "0".repeat(match base { 2 => 10, 4 | 5 => 8, _ => 32 })),
            (_, 2) => String::new(),
            _ => (set[set.len() - 1] as char).to_string().repeat(n),
        };
        if limit.len() > n { rt::done(); }
        format!("{}{}", "0".repeat(n - limit.len()), limit).into_bytes()
    };
    let from = if n <= 4 { 0 } else { rt::choose(3) * (n - 2) / 2 };
    for k in 0..n {
        let c = if n <= 4 || k == from || k == from + 1 { rt::byte_of(set) } else { rest[k] };
        s.push(c as char);
        let d = if c >= b'a' { c - b'a' + 10 } else if c >= b'A' { c - b'A' + 10 } else { c - b'0' } as u64;
        v = v.wrapping_mul(radix).wrapping_add(d);
        over |= v > u32::MAX as u64;
        if over { v = 1 << 33; }
    }
    let bad = if base == 0 { v > i32::MAX as u64 } else { over };
    let (w, o) = if n > 3 { data_of(&s) } else { out_of(&s) };
    if bad {
        rt::check(matches!(o, Outcome::Compile(1, 6, _)), "numbers that do not fit are rejected where they are");
        rt::cover("rejected");
    } else {
        rt::check(o.ok(), "numbers that fit are accepted");
        expect_outs(&w, &[V::I(v as u32 as i32)], "numbers are the ones that were written");
        rt::cover("accepted");
    }
}

/// Numbers with any character in them. Case: the text around it.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_odd_number(case: u32) {
    let (pre, post, valid) = [("1", "2", "0123456789"), ("&b1", "0", "01"), ("&o7", "7", "01234567"), ("&d9", "", "0123456789"), ("&x", "e", "0123456789abcdefABCDEF_"), ("1.", "5", "0123456789"), ("&", "1", ""), ("&b", "1", "01_"), ("3", ".5", "0123456789")][case as usize % 9];
    let c = rt::u8_() & 127;
    rt::assume((c > 32) & (c < 127));
    // What separates words makes several of them.
    for s in b"():'=<>;,+-*/^" { rt::assume(c != *s); }
    let t = format!("{}{}{}", pre, c as char, post);
    let dot = c == b'.' && ((case == 0) || (case % 9 == 8 && false));
    let mut ok = dot;
    for v in valid.bytes() { ok |= c == v; }
    if case % 9 == 6 { rt::assume(!b"bBdDoOxX".contains(&c)); }
    let (w, o) = out_of(&t);
    rt::check(matches!(o, Outcome::Compile(1, ..)) != ok, "only digits make numbers");
    rt::check(ok || w.outs.borrow().is_empty(), "only digits make numbers");
    rt::cover(if ok { "accepted" } else { "rejected" });
}

/// Doubles. Case: the number of digits before and after the dot.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_double(case: u32) {
    let (a, b) = (1 + case as usize % 5, 1 + case as usize / 5);
    let mut s = String::new();
    let mut v = 0u64;
    for k in 0..a + b { if k == a { s.push('.'); } let d = if k == 0 || k + 1 == a + b { rt::choose(10) } else if k == 1 { rt::pick(&[0, 1, 9]) } else { rt::pick(&[0, 9]) }; s.push((b'0' + d as u8) as char); v = v * 10 + d as u64; }
    let (w, o) = out_of(&s);
    rt::check(o.ok(), "numbers are accepted");
    // Quotients of exact numbers are rounded to the nearest double, as literals must be.
    expect_outs(&w, &[V::D(v as f64 / 10f64.powi(b as i32))], "numbers are the ones that were written");
    rt::cover("accepted");
}

/// Strings of any characters. Case: how many, and what follows.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_string(case: u32) {
    let n = case as usize % 5;
    let (mut s, mut want, mut esc) = (String::from("\""), String::new(), false);
    for _ in 0..n {
        let c = rt::u8_() & 127;
        rt::assume((c >= 32) & (c < 127));
        if !esc { rt::assume(c != b'"'); }
        s.push(c as char);
        if esc { esc = false; want.push(c as char); } else if c == b'\\' { esc = true; } else { want.push(c as char); }
    }
    rt::assume(!esc);
    if case / 5 == 1 { s += "\u{e9}\u{1d11e}\\\u{e9}"; want += "\u{e9}\u{1d11e}\u{e9}"; }
    if case / 5 < 2 { s.push('"'); }
    let (w, o) = if n > 1 { data_of(&s) } else { out_of(&s) };
    if case / 5 < 2 {
        rt::check(o.ok(), "strings are accepted");
        expect_outs(&w, &[V::S(want)], "strings have the characters that were written");
        rt::cover("accepted");
    } else {
        rt::check(matches!(o, Outcome::Compile(1, 5 | 6, _)), "strings that do not end are rejected where they begin");
        rt::cover("rejected");
    }
}

// ---------------------------------------------------------------------------- spelling

/// Programs whose words are apart and whose statements end in | if they could end in a colon.
const SPELL: [&str; 10] = [
    "a = IV(0) + 2|OUT a|b$ = \"!\"|OUT b + \"?\"|",
    "DIM SHARED n AS INTEGER|n = IV(0)|SUB show ( k )\nOUT n , k\nEND SUB\nshow n|",
    "IF BV(0) AND NOT BV(1) THEN\nOUT 1\nELSEIF BV(1) THEN\nOUT 2\nELSE\nOUT 3\nEND IF\nOUT 4|",
    "FOR i = 1 TO 3 STEP 2\nOUT i * IV(0)|NEXT\nIF BV(0) THEN OUT 1 ELSE OUT 2\nOUT TRUE|",
    "k = 0|DO WHILE k < 2|k = k + 1|IF BV(0) THEN EXIT DO\nOUT k|LOOP\nDO|LOOP UNTIL TRUE|WHILE FALSE|WEND|",
    "SELECT CASE IV(0) MOD 4\nCASE 0 , 1\nOUT 1|CASE IS > 2\nOUT 2|CASE 2 TO 2\nOUT 3|CASE ELSE\nOUT 4|END SELECT\nOUT 5|",
    "FUNCTION twice% ( v AS INTEGER )\ntwice = v + v|END FUNCTION\nOUT twice ( IV(0) >> 1 )|",
    "ON ERROR GOTO @oops|OUT 1|FAIL 0|OUT 2|END\n@oops\nOUT 3|ON ERROR RESUME NEXT|FAIL 0|OUT LASTERR|",
    "GOSUB @s|OUT 2|END 5|@s\nOUT 1|RETURN|",
    "DIM m ( 2 , 3 ) AS DOUBLE|m ( 1 , 2 ) = DV(0)|DATA 1 , , \"x\" , TRUE , -2.5|GETDATA|OUT m ( 1 , 2 ) ; 3|",
];
/// A word in other letters: small, big, and both.
fn recase(w: &str, how: usize) -> String { w.chars().enumerate().map(|(k, c)| match how { 0 => c.to_ascii_lowercase(), 1 => c.to_ascii_uppercase(), 2 => if k % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }, _ => if k % 2 == 1 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } }).collect() }

/// Programs that are written in another way. Case: the program and the way.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_spelling(case: u32) {
    let p = SPELL[case as usize / 4 % SPELL.len()];
    let plain = p.replace('|', "\n");
    let w = lang::world();
    w.ints.borrow_mut().push(rt::i32_());
    for _ in 0..2 { w.bools.borrow_mut().push(rt::bool_()); }
    w.dbls.borrow_mut().push(rt::f64_());
    w.fails.borrow_mut().push(rt::bool_());
    let w2 = lang::world();
    *w2.ints.borrow_mut() = w.ints.borrow().clone(); *w2.bools.borrow_mut() = w.bools.borrow().clone(); *w2.dbls.borrow_mut() = w.dbls.borrow().clone(); *w2.fails.borrow_mut() = w.fails.borrow().clone();
    let cs: Vec<char> = p.chars().collect();
    let other = match case % 4 {
        // Letters.
        0 => {
            let ws = words(&plain);
            let letters: Vec<usize> = (0..ws.len()).filter(|k| ws[*k].chars().any(|c| c.is_ascii_alphabetic()) && !ws[*k].starts_with('"')).collect();
            let k = rt::choose(letters.len() + 1);
            let how = rt::choose(4);
            let mut t = String::new();
            for (j, x) in ws.iter().enumerate() { t += &if letters.contains(&j) && (k == letters.len() || j == letters[k]) { recase(x, how) } else { x.clone() }; if x == "\n" || x == ">" && ws.get(j + 1).is_some_and(|y| y == ">") { continue; } t.push(' '); }
            t
        }
        // Spaces and ends of statements.
        1 => {
            let gaps: Vec<usize> = (0..cs.len()).filter(|k| matches!(cs[*k], ' ' | '|' | '\n')).collect();
            let at = gaps[rt::choose(gaps.len())];
            let with = match cs[at] { ' ' => rt::pick(&["  ", "\t", " \t ", " \r"]), '|' => rt::pick(&[":", " : ", "::\n", "\r\n", ": 'x\n", ":REM\n", " ' : y\n\n"]), _ => rt::pick(&["\n\n", " \n", "\r\n", "  ' OUT 9\n", "\n\tREM OUT 9\n", "\n \n:\n"]) };
            let mut t: String = cs[..at].iter().collect();
            t += with;
            t.extend(&cs[at + 1..]);
            t.replace('|', "\n")
        }
        // No more spaces than necessary around operators, or everywhere.
        2 => {
            let ops: Vec<usize> = (0..cs.len()).filter(|k| "=+*<>,;()".contains(cs[*k])).collect();
            let k = rt::choose(ops.len() + 1);
            let mut t = String::new();
            for (j, c) in cs.iter().enumerate() {
                let near = |o: usize| o == j + 1 || o + 1 == j;
                if *c == ' ' && (if k == ops.len() { ops.iter().any(|o| near(*o)) } else { near(ops[k]) }) { continue; }
                // A negative number after a comma keeps its sign.
                t.push(*c);
            }
            t.replace('|', "\n")
        }
        // Everything at once, and the first line.
        _ => {
            let mut t = rt::pick(&["", "#!/usr/bin/env endbasic\n", "\n\n", "' x\n", "REM", "\r\n", " : "]).to_owned();
            if t == "REM" { t.push('\n'); }
            t += &match rt::choose(3) { 0 => p.replace('|', ":"), 1 => p.replace('|', "\r\n").replace(' ', "\t"), _ => p.replace('|', " ' \"\n").replace(' ', "   ") };
            if rt::choose(2) == 1 { t.pop(); }
            t
        }
    };
    rt::log(&other);
    let (a, b) = (Machine::new(&w).run(plain.as_bytes()), Machine::new(&w2).run(other.as_bytes()));
    rt::check(a.ok() || matches!(a, Outcome::End(_) | Outcome::Exc(..)), "the program is valid");
    rt::check(match (&a, &b) { (Outcome::Exc(_, _, x), Outcome::Exc(_, _, y)) => x == y, _ => a.code() == b.code() }, "the program ends in the same way");
    let want: Vec<V> = w.outs.borrow().clone();
    expect_outs(&w2, &want, "the program does the same");
    let (x, y) = (w.data.borrow(), w2.data.borrow());
    rt::check(x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| match (a, b) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false }), "the data is the same");
    rt::cover("same");
}

// ---------------------------------------------------------------------------- sizes

/// Programs with many of something. Case: of what.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_many(case: u32) {
    let sizes: &[usize] = match case { 3 => &[1, 2, 6, 7, 8, 15, 16, 17, 31, 40], 4 | 5 => &[5, 60, 61, 62, 63, 64, 65, 66, 100, 126, 127, 128, 186, 189, 190, 191, 192, 193, 250, 253, 254, 255, 256, 257, 258, 300], _ => &[5, 61, 62, 63, 64, 65, 66, 127, 128, 188, 189, 190, 191, 192, 193, 254, 255, 256, 257, 300] };
    let n = rt::pick(sizes);
    let w = lang::world();
    let m = 3;
    for _ in 0..m { w.ints.borrow_mut().push(rt::i32_()); }
    let val = |k: usize| V::I(w.ints.borrow()[k % m]);
    let mut want: Vec<V> = vec![];
    let mut p = String::new();
    let least = match case {
        // Variables, shared or not, at the top or within a SUB.
        0 | 1 => {
            for k in 0..n { if case == 1 { p += &format!("DIM SHARED v{} AS INTEGER\n", k); } p += &format!("v{} = IV({})\n", k, k % m); }
            for k in 0..n { p += &format!("OUT v{}\n", k); want.push(val(k)); }
            50
        }
        2 => {
            p += "SUB s\n";
            for k in 0..n { p += &format!("v{} = IV({})\n", k, k % m); }
            for k in 0..n { p += &format!("OUT v{}\n", k); want.push(val(k)); }
            p += "END SUB\ns\n";
            50
        }
        // Dimensions.
        3 => {
            let (s, ix) = (vec!["2"; n].join(", "), (0..n).map(|k| if k % 3 == 0 { "1" } else { "0" }).collect::<Vec<_>>().join(", "));
            p += &format!("DIM a({}) AS INTEGER\na({}) = IV(0)\nOUT a({})\n", s, ix, ix);
            want.push(val(0));
            3
        }
        // Arguments and parameters.
        4 => {
            p += &format!("OUT {}\n", (0..n).map(|k| format!("IV({})", k % m)).collect::<Vec<_>>().join(", "));
            for k in 0..n { want.push(val(k)); }
            50
        }
        5 => {
            p += &format!("SUB s({})\n", (0..n).map(|k| format!("p{} AS INTEGER", k)).collect::<Vec<_>>().join(", "));
            for k in 0..n { p += &format!("OUT p{}\n", k); want.push(val(k)); }
            p += &format!("END SUB\ns {}\n", (0..n).map(|k| format!("IV({})", k % m)).collect::<Vec<_>>().join(", "));
            50
        }
        // Operands that wait for others.
        6 => {
            p += "OUT ";
            for k in 0..n { p += &format!("(IV({}) XOR ", k % m); }
            p += "1";
            for _ in 0..n { p += ")"; }
            let mut v = 1;
            for k in 0..n { if let V::I(x) = val(k) { v ^= x; } }
            want.push(V::I(v));
            50
        }
        7 => {
            p += "OUT 1";
            let mut v = 1;
            for k in 0..n { p += &format!(" XOR IV({})", k % m); if let V::I(x) = val(k) { v ^= x; } }
            want.push(V::I(v));
            300
        }
        // Strings, labels and callables.
        8 => { for k in 0..n { p += &format!("OUT \"s{}\"\n", k); want.push(V::S(format!("s{}", k))); } 300 }
        9 => { for k in 0..n { p += &format!("GOTO @l{}\nOUT 0\n@l{}\nOUT {}\n", k, k, 70000 + k); want.push(V::I(70000 + k as i32)); } 300 }
        10 => { for k in 0..n { p += &format!("FUNCTION f{}%\nf{} = IV({}) XOR {}\nEND FUNCTION\n", k, k, k % m, k); } for k in 0..n { p += &format!("OUT f{}\n", k); if let V::I(x) = val(k) { want.push(V::I(x ^ k as i32)); } } 300 }
        // Variables and operands together.
        _ => {
            for k in 0..40 { p += &format!("v{} = IV({})\n", k, k % m); }
            p += "OUT ";
            let n = n.min(200);
            for k in 0..n { p += &format!("(v{} XOR ", k % 40); }
            p += "1";
            for _ in 0..n { p += ")"; }
            let mut v = 1;
            for k in 0..n { if let V::I(x) = val(k % 40) { v ^= x; } }
            want.push(V::I(v));
            p += "\n";
            for k in 0..40 { p += &format!("OUT v{}\n", k); want.push(val(k)); }
            50
        }
    };
    let mut m = Machine::new(&w);
    match m.compile(p.as_bytes()) {
        Ok(()) => { rt::check(m.exec().ok(), "runs"); 
            let outs = w.outs.borrow();
            rt::check(outs.len() == want.len() && outs.iter().zip(&want).all(|(a, b)| a.same(b)), "programs that are accepted run right");
            rt::cover("accepted");
        }
        Err(o) => {
            rt::check(n > least, "programs of a moderate size are accepted");
            rt::log(o.msg());
            rt::check(o.msg().starts_with("Out of ") || o.msg().contains("oo many") || o.msg().contains("dimensions"), "programs that are too large are rejected");
            rt::check(m.run(b"OUT 4").ok(), "the machine can still be used");
            expect_outs(&w, &[V::I(4)], "the machine can still be used");
            rt::cover("rejected");
        }
    }
}

/// Jumps over many statements. Case: the kind of jump.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_far(case: u32) {
    let (deep, case) = (case >= 100, case as usize % 100);
    let n = if deep { rt::pick(&[100, 10000, 20000, 21845, 32760, 32767, 40000, 65530, 65535, 70000]) } else { rt::pick(&[100, 66000]) };
    let body = "x = 1\n".repeat(n);
    let w = lang::world();
    w.bools.borrow_mut().push(rt::bool_());
    w.fails.borrow_mut().push(true);
    let b = w.bools.borrow()[0];
    let (src, want): (String, Vec<i32>) = match case {
        0 => (format!("IF BV(0) THEN\n{}OUT 1\nELSE\nOUT 2\nEND IF\nOUT 3", body), vec![if b { 1 } else { 2 }, 3]),
        1 => (format!("IF BV(0) THEN\nOUT 1\nELSE\n{}OUT 2\nEND IF\nOUT 3", body), vec![if b { 1 } else { 2 }, 3]),
        2 => (format!("i = 0\nDO\n{}i = i + 1\nOUT i\nLOOP WHILE i < 2\nOUT 9", body), vec![1, 2, 9]),
        3 => (format!("FOR i = 1 TO 2\n{}OUT i\nNEXT\nOUT 9", body), vec![1, 2, 9]),
        4 => (format!("GOTO @e\n{}\n@e\nOUT 1", body), vec![1]),
        5 => (format!("GOSUB @e\nOUT 2\nEND\n{}\n@e\nOUT 1\nRETURN", body), vec![1, 2]),
        6 => (format!("ON ERROR GOTO @e\nFAIL 0\nOUT 2\n{}\n@e\nOUT 1", body), vec![1]),
        7 => (format!("{}SUB s\nOUT 1\nEND SUB\ns\nOUT 2", body), vec![1, 2]),
        8 => (format!("SUB s\n{}OUT 1\nEND SUB\ns\nOUT 2", body), vec![1, 2]),
        9 => (format!("SELECT CASE BV(0)\nCASE TRUE\n{}OUT 1\nCASE ELSE\nOUT 2\nEND SELECT", body), vec![if b { 1 } else { 2 }]),
        10 => (format!("WHILE BV(0)\n{}OUT 1\nEXIT DO\nWEND\nOUT 2", body.clone()).replace("WHILE BV(0)", "DO WHILE BV(0)").replace("WEND", "LOOP"), if b { vec![1, 2] } else { vec![2] }),
        _ => (format!("{}@e\nx = x + 1\nOUT x\nIF x < 3 THEN GOTO @e\nOUT 9", body), vec![2, 3, 9]),
    };
    let mut m = Machine::new(&w);
    m.max_stops = 200;
    match m.compile(src.as_bytes()) {
        Ok(()) => {
            rt::check(m.exec().ok(), "runs");
            let want: Vec<V> = want.iter().map(|v| V::I(*v)).collect();
            expect_outs(&w, &want, "programs that are accepted run right");
            rt::cover("accepted");
        }
        Err(o) => { rt::log(o.msg()); rt::check(n > 20000, "programs of a moderate size are accepted"); rt::check(o.msg().contains("too far"), "jumps that are too long are rejected"); rt::cover("rejected"); }
    }
    std::mem::forget(m);
}

rt::harness_main!(h_char, h_words, h_short, h_bytes, h_integer, h_odd_number, h_double, h_string, h_spelling, h_many, h_far);

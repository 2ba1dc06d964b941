//! Scripts run from the command line, on files that may be read in pieces or fail.
use endbasic::{extract_propline, run_script, setup_console};
use endbasic_std::Signal;
use std::io::Write;
#[path = "../fsm.rs"]
mod fsm;
use fsm::*;

const P: &str = "/h/s.bas";
fn world(max: usize, text: &[u8]) {
    let f = fs();
    f.on = true;
    f.max = max;
    f.dirs = vec!["/h".into()];
    f.files = vec![(P.into(), text.to_vec())];
}
/// Runs the script: what it wrote, and its exit code or error.
fn script(gpio: Option<&str>, stop: bool) -> (String, Result<i32, String>) {
    let (tx, rx) = async_channel::unbounded();
    if stop { let _ = tx.try_send(Signal::Break); }
    let Ok((_host, factory)) = setup_console(None, tx.clone()) else { rt::fail("the text console is the default one") };
    let r = rt::block_on(run_script(P, factory, (tx, rx), gpio)).map_err(|e| { let s = e.to_string(); std::mem::forget(e); s });
    let _ = std::io::stdout().flush();
    (String::from_utf8_lossy(&std::mem::take(&mut fs().out)).into_owned(), r)
}

/// Scripts and how they end. Case: the script and the bytes that are read at once.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_script(case: u32) {
    let d = || { let b = rt::u8_(); rt::assume((b >= b'0') & (b <= b'9')); b };
    let (a, b, c) = (d(), d(), d());
    let n = (a - b'0') as i32 * 100 + (b - b'0') as i32 * 10 + (c - b'0') as i32;
    let num = String::from_utf8(vec![a, b, c]).unwrap();
    let one = String::from_utf8(vec![a]).unwrap();
    let mut input = String::new();
    let (src, out, end): (String, String, Result<i32, &str>) = match case / 3 {
        0 => ("".into(), "".into(), Ok(0)),
        1 => ("#!/usr/bin/env endbasic".into(), "".into(), Ok(0)),
        2 => (format!("#!/x {}\nPRINT {}\n", num, num), format!(" {}\n", n), Ok(0)),
        3 => (format!("PRINT \"a\"\nEND {}\nPRINT \"b\"\n", num), if n <= 127 { "a\n".into() } else { "".into() }, if n <= 127 { Ok(n) } else { Err("2:5: ") }),
        4 => ("PRINT \"a\": END\nPRINT \"b\"".into(), "a\n".into(), Ok(0)),
        5 => (format!("PRINT \"a\"\nPRINT {} / 0.0\n", one), "a\n inf\n".into(), Ok(0)),
        6 => (format!("PRINT \"a\"\nx = {} MOD 0\nPRINT \"b\"\n", one), "a\n".into(), Err("2:7: Modulo by zero")),
        7 => ("PRINT \"a\"\nPRINT 1 +\n".into(), "".into(), Err("2:")),
        8 => ("PRINT \"a\"\nLOAD \"x\"\n".into(), "".into(), Err("2:1: Undefined symbol LOAD")),
        9 => (format!("INPUT \"n\"; n\nPRINT n + {}\n", one), format!("n? {}\n {}\n", num, n + (a - b'0') as i32), Ok(0)),
        10 => (format!("#!/x\r\n' endbasic cli: console=sdl\r\nPRINT {}\r\n", one), format!(" {}\n", a - b'0'), Ok(0)),
        11 => (format!("ON ERROR RESUME NEXT\nx = 1 MOD 0\nEND {}", one), "".into(), Ok((a - b'0') as i32)),
        12 => (format!("GPIO_MOCK_INJECT {}, TRUE\nGPIO_SETUP {}, \"IN\"\nPRINT GPIO_READ({})\n", one, one, one), "TRUE\n".into(), Ok(0)),
        13 => ("PRINT \"\\t\u{e9}\u{7}b\"; \"\u{1}\"\n".into(), "t\u{e9} b \n".into(), Ok(0)),
        14 => (format!("PRINT \"a\"\nx = {}: END x\nPRINT \"b\"\n", num), "a\n".into(), if n <= 127 { Ok(n) } else { Err("2:") }),
        _ => (format!("SUB s(n)\nIF n = {} THEN END n\ns(n + 1)\nEND SUB\ns(0)\nPRINT \"b\"\n", one), "".into(), Ok((a - b'0') as i32)),
    };
    if case / 3 == 9 { input = format!("{}\n", num); rt::assume(a != b'0'); }
    if case / 3 == 5 { rt::assume(a != b'0'); }
    world([1, 5, 8192][case as usize % 3], src.as_bytes());
    fs().input = input.into_bytes();
    let (o, r) = script(if case / 3 == 12 { Some("mock") } else { None }, false);
    rt::check(o == out, "scripts write exactly what they print");
    match (&r, &end) {
        (Ok(r), Ok(e)) => { rt::check(r == e, "the exit code is the one of the script"); rt::cover("ended") }
        (Err(r), Err(e)) => { rt::check(r.starts_with(e), "errors of scripts are reported where they are"); rt::cover("failed") }
        _ => rt::fail("scripts fail exactly if they have errors"),
    }
    rt::check(fs().fds.iter().all(|f| f.is_none()), "files are closed");
    end_();
}
fn end_() { end(); }

/// Scripts that cannot be read. Case: the bytes that are read at once.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_unreadable(case: u32) {
    world([3, 7, 8192][case as usize % 3], b"#!/x\nPRINT 1\n' more\nEND 3\n");
    let gone = case / 3 == 1;
    if gone { fs().files.clear(); }
    fs().fail = rt::choose(16);
    fs().err = rt::pick(&[EINTR, EIO, EACCES]);
    let lost = fs().err != EINTR;
    let line = case / 3 == 2;
    if line {
        let r = extract_propline(P);
        rt::check(r.is_ok() == !(fs().failed && lost), "the properties are read if the script is");
        if let Ok(r) = r { rt::check(r.console_spec.is_none(), "the console is the one asked for"); }
    } else {
        let (o, r) = script(None, false);
        let bad = gone || fs().failed && lost;
        rt::check(r == if bad { r.clone().and(Err(String::new())).or(r.clone()) } else { Ok(3) } && r.is_err() == bad, "scripts that cannot be read fail");
        rt::check(o == if bad { "" } else { " 1\n" }, "scripts run as a whole or not at all");
    }
    rt::cover(if fs().failed && lost { "failed" } else { "worked" });
    end_();
}

/// Interruptions. Case: the script.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_interrupt(case: u32) {
    world(8192, ["PRINT 1\nDO\nLOOP\nPRINT 2", "@a: GOTO @a", "ON ERROR GOTO @e\nWHILE TRUE\nWEND\nEND 1\n@e: PRINT 3", "SUB s\nDO: LOOP\nEND SUB\nPRINT 1\ns\nEND 5"][case as usize].as_bytes());
    let (o, r) = script(None, true);
    rt::check(r == Ok(130), "scripts that are interrupted say so");
    rt::check(o == ["", "", "", ""][case as usize] || o == " 1\n", "interrupted scripts stop");
    rt::cover("interrupted");
    end_();
}

/// The line of properties. Case: what the line begins with, and the characters after it.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_propline(case: u32) {
    const PRE: [&str; 12] = ["", "' ", "REM ", "' endbasic cli: ", "rem endbasic cli: ", "' endbasic cli: console=", "REM endbasic cli: console", "'  endbasic cli: console=", "RE", "a=\"", "' endbasic cli:console=", "' EndBASIC cli: console="];
    const FIRST: [&str; 4] = ["#!/usr/bin/env endbasic\n", "#!x\r\n", "PRINT 1\n", "#\n"];
    let first = if case % 5 == 0 { rt::pick(&FIRST) } else { FIRST[case as usize % 2] };
    let mut l = String::from(PRE[case as usize / 5]);
    // Any characters, one of which may not be ASCII.
    let n = case as usize % 5;
    let odd = rt::choose(n + 1);
    for k in 0..n { if k == odd { l.push(rt::pick(&['\u{e9}', '\u{20ac}', '\u{1f600}'])) } else { let b = rt::u8_(); rt::assume((b >= b' ') & (b <= b'~')); l.push(b as char) } }
    let tail = rt::pick(&["", "\n", "\r\n", "\nREM endbasic cli: console=no\n"]);
    world(8192, format!("{}{}{}", first, l, tail).as_bytes());
    let r = extract_propline(P);
    let body = l.strip_prefix("' ").or_else(|| { let b = l.as_bytes(); if b.len() >= 4 && b[..4].eq_ignore_ascii_case(b"rem ") { Some(&l[4..]) } else { None } });
    // Nothing: no property. Or else the specification, if there is a valid one.
    let w = if !first.starts_with("#!") { Ok(None) } else {
        match body.and_then(|b| b.strip_prefix("endbasic cli: ")) {
            None => Ok(None),
            Some(p) => match p.strip_prefix("console=") { Some(s) if !s.is_empty() => Ok(Some(s.to_owned())), _ => Err(()) },
        }
    };
    match (r, w) {
        (Ok(r), Ok(w)) => { rt::check(r.console_spec == w, "the console is the one asked for"); rt::cover(if w.is_some() { "console" } else { "nothing" }) }
        (Err(_), Err(())) => rt::cover("bad"),
        _ => rt::fail("exactly the lines that are wrong are rejected"),
    }
    end_();
}

/// Consoles that can be asked for. Case: the driver.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_driver(case: u32) {
    let mut s = String::from(["text", "tex", "textt", "sdl", "st7735s", "", "Text"][case as usize]);
    for _ in 0..2 { let k = rt::choose(5); if k == 4 { break; } s += [":", "a", "=1", ","][k]; }
    let (tx, _rx) = async_channel::unbounded();
    let ok = setup_console(Some(&s), tx).is_ok();
    let (driver, flags) = s.split_once(':').unwrap_or((&s, ""));
    rt::check(ok == (driver == "text" && flags.split(',').all(|f| f.is_empty())), "exactly the consoles that exist are accepted");
    rt::cover(if ok { "accepted" } else { "rejected" });
}

/// Pins that can be asked for. Case: the pins.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pins(case: u32) {
    let uses = rt::choose(2) == 1;
    world(8192, if uses { b"PRINT 1\nGPIO_SETUP 3, \"OUT\"\nGPIO_WRITE 3, TRUE\nPRINT 2\n" } else { b"PRINT 1\nPRINT 2\n" });
    let (o, r) = script([None, Some("noop"), Some("mock"), Some("rppal"), Some(""), Some("Mock"), Some("mocks"), Some("moc")][case as usize], false);
    let (want, ok) = match (case, uses) { (0 | 1, true) => (" 1\n", false), (0..=2, _) => (" 1\n 2\n", true), _ => ("", false) };
    rt::check(o == want, "scripts run exactly if their pins exist");
    rt::check(if ok { r == Ok(0) } else { r.is_err() }, "pins that do not exist are reported");
    rt::cover(if ok { "accepted" } else { "rejected" });
    end_();
}

rt::harness_main!(h_pins, h_script, h_unreadable, h_interrupt, h_propline, h_driver);

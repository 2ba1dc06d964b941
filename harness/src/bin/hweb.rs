//! The terminal in a web page, over a page in memory: sessions, files, keys, shapes and time.
use endbasic_std::gfx::lcd::fonts::FONT_VGA8X16;
use endbasic_web::WebTerminal;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Waker};
use web_sys::{world, HtmlCanvasElement, InputEvent, KeyboardEvent, Press, Seg, Shape};

enum Input { Key(Press), Text(&'static str), Owned(String), Nothing, Screen(usize) }
struct Page { run: Pin<Box<dyn Future<Output = ()>>>, input: Box<dyn Fn(Input)>, ended: bool }
/// Loads the page with a canvas of that many characters; what was stored stays.
fn open(w: u32, h: u32) -> Page {
    world().frames.clear();
    world().timers.clear();
    world().messages.clear();
    let t = WebTerminal::new(HtmlCanvasElement::of(w * 8, h * 16), "https://service.example/".into());
    let k = t.on_screen_keyboard();
    let input = move |i: Input| match i {
        Input::Key(p) => k.inject_keyboard_event(KeyboardEvent::of(p)),
        Input::Text(s) => k.inject_input_event(InputEvent::of(Some(s.to_owned()))),
        Input::Owned(s) => k.inject_input_event(InputEvent::of(Some(s))),
        Input::Nothing => k.inject_input_event(InputEvent::of(None)),
        Input::Screen(0) => k.press_escape(),
        Input::Screen(1) => k.press_arrow_up(),
        Input::Screen(2) => k.press_arrow_down(),
        Input::Screen(3) => k.press_arrow_left(),
        Input::Screen(_) => k.press_arrow_right(),
    };
    let mut p = Page { run: Box::pin(t.run_repl_loop()), input: Box::new(input), ended: false };
    p.settle();
    p
}
fn key(code: u32, ctrl: bool) -> Input { Input::Key(Press { code, key: "Unidentified".into(), ctrl, ..Default::default() }) }
impl Page {
    fn step(&mut self) { if !self.ended { self.ended = self.run.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready(); } }
    /// Goes on until there is nothing left to do but wait for keys.
    fn settle(&mut self) {
        for _ in 0..400 { self.step(); if !world().turn() { break; } }
        rt::check(!self.ended, "the terminal goes on");
        rt::check(wasm_bindgen::page_console().log.is_empty() && wasm_bindgen::page_console().errors.is_empty(), "nothing goes wrong in the page");
    }
    fn line(&mut self, s: &str) {
        (self.input)(Input::Owned(s.to_owned()));
        (self.input)(key(13, false));
        self.settle();
    }
    /// What the canvas shows.
    fn screen(&self) -> Vec<String> {
        let w = world();
        let (cw, ch) = (w.size.0 as usize / 8, w.size.1 as usize / 16);
        let mut v = vec![];
        for y in 0..ch {
            let mut s = String::new();
            for x in 0..cw {
                let mut bits = [0u8; 16];
                for j in 0..16 { for i in 0..8 { if w.px[(y * 16 + j) * w.size.0 as usize + x * 8 + i] != 0 { bits[j] |= 0x80 >> i; } } }
                if bits == [0; 16] { s.push(' '); continue; }
                let k = FONT_VGA8X16.data.chunks(16).position(|g| g == bits);
                s.push(match k { Some(k) => (b' ' + k as u8) as char, None => '_' });
            }
            v.push(s.trim_end().trim_end_matches('_').trim_end().to_owned());
        }
        while v.last().map(|s| s.is_empty()).unwrap_or(false) { v.pop(); }
        v
    }
    fn shows(&self, s: &str) -> bool { self.screen().iter().any(|l| l == s) }
}
/// The programs in the storage of the page.
fn stored() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = world().storage.iter().filter_map(|(k, v)| {
        let name = k.strip_prefix("endbasic-program:")?;
        let v: serde_json::Value = serde_json::from_str(v).unwrap();
        let b: Vec<u8> = v["content"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        Some((name.to_owned(), String::from_utf8(b).unwrap()))
    }).collect();
    v.sort();
    v
}
fn entry(text: &str) -> String { format!("{{\"version\":1,\"content\":{:?},\"mtime\":[2024,60,12,34,56,0,0,0,0]}}", text.as_bytes()) }
fn store(name: &str, text: &str) { world().storage.push((format!("endbasic-program:{}", name), entry(text))); }

/// A program is written, saved, and loaded and run after the page is loaded again. Case: its text.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_session(case: u32) {
    world().storage.push(("other".into(), "x".into()));
    let (keys, text, out): (&'static str, &str, &str) = [("PRINT 6 * 7", "PRINT 6 * 7\n", " 42"), ("PRINT \"\u{e9}a\"", "PRINT \"\u{e9}a\"\n", "?a"), ("A$ = \"x;y\": PRINT A$", "A$ = \"x;y\": PRINT A$\n", "x;y")][case as usize % 3];
    let mut p = open(40, 8);
    p.line("EDIT");
    (p.input)(Input::Text(keys));
    p.settle();
    (p.input)(if case < 3 { Input::Screen(0) } else { key(27, false) });
    p.settle();
    let (name, other) = rt::pick(&[("a", "A"), ("Prog.bas", "PROG"), ("x.BAS", "X.bas"), ("9", "9")]);
    let full = rt::choose(3);
    if full == 1 { world().quota = 40; }
    if full == 2 { world().fail = 1 + rt::choose(2) as u32; }
    let failing = world().fail;
    p.line(&format!("SAVE \"{}\"", name));
    let failed = full == 1 || failing > 0 && world().fail == 0;
    for l in p.screen() { rt::log(&l); }
    world().quota = usize::MAX;
    world().fail = 0;
    let mut file = name.to_uppercase();
    if !file.ends_with(".BAS") { file.push_str(".BAS"); }
    rt::check(world().storage.iter().any(|x| *x == ("other".into(), "x".into())), "nothing else in the storage changes");
    if failed {
        rt::check(stored().is_empty(), "programs are saved whole or not at all");
        rt::check(!p.shows("Saved as LOCAL:/".to_owned().as_str()) && p.screen().iter().any(|l| l.starts_with("ERROR")), "failures are reported");
        rt::cover("failed");
        return;
    }
    rt::check(stored() == [(file.clone(), text.to_owned())], "programs are saved");
    drop(p);
    js_sys::clock().zone = [0.0, -330.0, 480.0][case as usize % 3];
    let mut p = open(40, 18);
    p.line(&format!("LOAD \"{}\"", other));
    p.line("RUN");
    for l in p.screen() { rt::log(&l); }
    rt::check(p.shows(out.trim_start()) || p.shows(out), "programs are there after the page is loaded again");
    p.line("DIR");
    for l in p.screen() { rt::log(&l); }
    rt::check(p.screen().iter().any(|l| l.ends_with(&file)), "programs are listed");
    rt::cover("saved");
}

/// Commands on files. Case: the first one.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_files(case: u32) {
    store("A.BAS", "PRINT 1\n");
    store("B.BAS", "PRINT 2\n");
    let mut p = open(40, 6);
    let mut model: std::collections::BTreeMap<String, String> = [("A.BAS".to_owned(), "PRINT 1\n".to_owned()), ("B.BAS".to_owned(), "PRINT 2\n".to_owned())].into();
    let mut program = String::new();
    let ops = ["KILL \"a.bas\"", "KILL \"B.BAS\"", "COPY \"A.BAS\", \"b.bas\"", "COPY \"b.bas\", \"C.BAS\"", "LOAD \"a\"", "LOAD \"B.bas\"", "SAVE \"C\"", "SAVE \"a.bas\"", "KILL \"c.bas\"", "COPY \"C.BAS\", \"MEMORY:/X.BAS\"", "COPY \"MEMORY:/X.BAS\", \"local:/a.BAS\"", "NEW", "KILL \"c\"", "COPY \"A.BAS\", \"D.TXT\""];
    let mut memory: Option<String> = None;
    for n in 0..3 {
        let k = if n == 0 { case as usize % ops.len() } else { rt::choose(ops.len()) };
        rt::log(ops[k]);
        p.line("CLS");
        p.line(ops[k]);
        let get = |m: &std::collections::BTreeMap<String, String>, k: &str| m.get(k).cloned();
        let ok = match k {
            0 => model.remove("A.BAS").is_some(),
            1 => model.remove("B.BAS").is_some(),
            2 => get(&model, "A.BAS").map(|t| { model.insert("B.BAS".into(), t); }).is_some(),
            3 => get(&model, "B.BAS").map(|t| { model.insert("C.BAS".into(), t); }).is_some(),
            4 => get(&model, "A.BAS").map(|t| program = t).is_some(),
            5 => get(&model, "B.BAS").map(|t| program = t).is_some(),
            6 => { model.insert("C.BAS".into(), program.clone()); true }
            7 => { model.insert("A.BAS".into(), program.clone()); true }
            8 => model.remove("C.BAS").is_some(),
            9 => get(&model, "C.BAS").map(|t| memory = Some(t)).is_some(),
            10 => memory.clone().map(|t| { model.insert("A.BAS".into(), t); }).is_some(),
            11 => { program.clear(); true }
            _ => false,
        };
        rt::check(p.screen().iter().any(|l| l.starts_with("ERROR")) == !ok, "operations succeed if and only if they can be done");
        rt::check(stored() == model.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>(), "every file has what was last put in it");
        rt::cover(if ok { "done" } else { "refused" });
    }
}

/// Names of other versions and what others stored. Case: the order.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_names(case: u32) {
    let names = ["a.bas", "B.BAS", "cee.Bas", "D.bas"];
    let others = [("endbasic-program", "1"), ("x:endbasic-program:Z.BAS", "2"), ("endbasic-program:notes.txt", "3"), ("ENDBASIC-PROGRAM:Y.BAS", "4")];
    for i in 0..4 {
        let n = [[0, 1, 2, 3], [3, 2, 1, 0], [0, 2, 3, 1], [2, 0, 1, 3]][case as usize % 4][i];
        if rt::choose(2) == 1 { store(names[n], &format!("PRINT {}\n", n)); }
        if rt::choose(2) == 1 { world().storage.push((others[i].0.into(), others[i].1.into())); }
    }
    let before = world().storage.clone();
    let p = open(40, 6);
    let mut want: Vec<(String, String)> = before.iter().filter(|x| x.0.starts_with("endbasic-program:") && x.0.to_uppercase().ends_with(".BAS")).map(|x| (x.0["endbasic-program:".len()..].to_uppercase(), x.1.clone())).collect();
    let mut got: Vec<(String, String)> = world().storage.iter().filter(|x| x.0.starts_with("endbasic-program:") && x.0.to_uppercase().ends_with(".BAS")).map(|x| (x.0["endbasic-program:".len()..].to_owned(), x.1.clone())).collect();
    want.sort();
    got.sort();
    rt::check(want == got, "programs of other versions can be used");
    for o in others { rt::check(before.iter().filter(|x| x.0 == o.0).eq(world().storage.iter().filter(|x| x.0 == o.0)), "nothing else in the storage changes"); }
    drop(p);
    rt::cover(if want.is_empty() { "none" } else { "some" });
}

/// Any key becomes what it stands for. Case: the kind.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_keys(case: u32) {
    store("AUTOEXEC.BAS", "DO\nK$ = INKEY\nIF K$ > \"~\" THEN K$ = \"U\"\nIF K$ <> \"\" THEN PRINT \"<\" + K$ + \">\"\nSLEEP 0.1\nLOOP\n");
    let w = world();
    let mut p = Page { ..waiting() };
    let (want, n): (Option<String>, usize) = match case {
        0 => {
            // Keys that have names, with or without CTRL.
            let (code, ctrl) = (rt::u8_() as u32, rt::bool_());
            rt::assume(!((code == 67) & ctrl));
            (p.input)(Input::Key(Press { code, key: "Unidentified".into(), ctrl, ..Default::default() }));
            let mut k = None;
            for (v, c, s) in [(8u32, false, "BS"), (9, false, "TAB"), (10, false, "ENTER"), (13, false, "ENTER"), (27, false, "ESC"), (33, false, "PGUP"), (34, false, "PGDOWN"), (35, false, "END"), (36, false, "HOME"), (37, false, "LEFT"), (38, false, "UP"), (39, false, "RIGHT"), (40, false, "DOWN"), (46, false, "DEL"),
                (65, true, "HOME"), (66, true, "LEFT"), (68, true, "EOF"), (69, true, "END"), (70, true, "RIGHT"), (74, true, "ENTER"), (77, true, "ENTER"), (78, true, "DOWN"), (80, true, "UP")] {
                if code == v && (ctrl || !c) { k = Some(s.to_owned()); }
            }
            (k, 1)
        }
        1 => {
            // Keys that are characters, with any modifiers.
            let (code, ch) = rt::pick(&[(65u32, 'a'), (49, '!'), (222, '\''), (190, '.'), (186, '~'), (229, 'x'), (32, ' '), (186, '\u{f1}')]);
            let (ctrl, alt, meta, shift) = (rt::choose(2) == 1, rt::choose(2) == 1, rt::choose(2) == 1, rt::choose(2) == 1);
            (p.input)(Input::Key(Press { code, key: ch.to_string(), ctrl, alt, meta, shift }));
            (if ctrl && code == 65 { Some("HOME".into()) } else if ctrl || alt || meta { None } else { Some(if ch.is_ascii() { ch.to_string() } else { "U".into() }) }, 1)
        }
        2 => {
            // Characters of other keyboards.
            (p.input)(Input::Text("hi"));
            (p.input)(Input::Nothing);
            (Some("h>|<i".into()), 2)
        }
        3 => {
            // Buttons of the page.
            let k = rt::choose(5);
            (p.input)(Input::Screen(k));
            (Some(["ESC", "UP", "DOWN", "LEFT", "RIGHT"][k].into()), 1)
        }
        _ => {
            // Interrupting the program.
            (p.input)(key(67, true));
            for _ in 0..20 { p.step(); w.turn(); }
            p.line("PRINT 5 + 5");
            for l in p.screen() { rt::log(&l); }
            rt::check(p.shows("10") || p.shows(" 10"), "CTRL+C interrupts the program");
            rt::cover("keys");
            return;
        }
    };
    for _ in 0..10 { p.step(); w.turn(); }
    let got: Vec<String> = p.screen().into_iter().filter(|l| l.starts_with('<')).collect();
    for l in &got { rt::log(l); }
    match &want {
        None => { rt::check(got.is_empty() || got.iter().all(|l| l.starts_with("<?") || l == "<UNKNOWN>"), "other keys are not reported"); rt::cover("nothing"); }
        Some(k) => { rt::check(got.join("|") == format!("<{}>", k), "every key that is pressed is reported once"); rt::check(got.len() == n, "every key that is pressed is reported once"); rt::cover("keys"); }
    }
}
/// A page whose program waits.
fn waiting() -> Page {
    let t = WebTerminal::new(HtmlCanvasElement::of(40 * 8, 6 * 16), "https://service.example/".into());
    let k = t.on_screen_keyboard();
    let input = move |i: Input| match i {
        Input::Key(p) => k.inject_keyboard_event(KeyboardEvent::of(p)),
        Input::Text(s) => k.inject_input_event(InputEvent::of(Some(s.to_owned()))),
        Input::Owned(s) => k.inject_input_event(InputEvent::of(Some(s))),
        Input::Nothing => k.inject_input_event(InputEvent::of(None)),
        Input::Screen(0) => k.press_escape(),
        Input::Screen(1) => k.press_arrow_up(),
        Input::Screen(2) => k.press_arrow_down(),
        Input::Screen(3) => k.press_arrow_left(),
        Input::Screen(_) => k.press_arrow_right(),
    };
    let mut p = Page { run: Box::pin(t.run_repl_loop()), input: Box::new(input), ended: false };
    for _ in 0..4 { p.step(); world().turn(); }
    p
}

/// Shapes that programs draw. Case: the shape.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shapes(case: u32) {
    let mut p = open(20, 3);
    p.line("COLOR 7, 0");
    let bg = 0u32;
    world().shapes.clear();
    let before = world().px.clone();
    let (c, rgb) = rt::pick(&[(9, 0xff5f5fu32), (0, 0), (21, 0x0000ff)]);
    let _ = rgb;
    let m = |x: i32, y: i32| Seg::Move(x as f64, y as f64);
    let l = |x: i32, y: i32| Seg::Line(x as f64, y as f64);
    let (x1, y1, x2, y2) = rt::pick(&[(0, 0, 9, 1), (3, 20, 170, 40), (-5, 47, 9, 40), (159, 47, 0, 0), (30, 5, 10, 25), (0, 46, 159, 47), (7, 50, 8, -9)]);
    let arc = |r: u32| Seg::Arc(x1 as f64, y1 as f64, r as f64, 0.0, 2.0 * std::f64::consts::PI);
    let (cmd, want): (String, Vec<(&'static str, Vec<Seg>)>) = match case {
        0 => (format!("GFX_LINE {}, {}, {}, {}", x1, y1, x2, y2), vec![("stroke", vec![m(x1, y1), l(x2, y2)])]),
        1 => (format!("GFX_CIRCLE {}, {}, {}", x1, y1, 7), vec![("stroke", vec![arc(7)])]),
        2 => (format!("GFX_CIRCLEF {}, {}, {}", x1, y1, 7), vec![("fill", vec![arc(7)])]),
        3 => (format!("GFX_TRI {}, {}, {}, {}, 5, 6", x1, y1, x2, y2), vec![("stroke", vec![m(x1, y1), l(x2, y2), l(5, 6), Seg::Close])]),
        4 => (format!("GFX_TRIF {}, {}, {}, {}, 5, 6", x1, y1, x2, y2), vec![("fill", vec![m(x1, y1), l(x2, y2), l(5, 6), Seg::Close])]),
        5 => (format!("GFX_RECT {}, {}, {}, {}", x1, y1, x2, y2), vec![("stroke_rect", vec![])]),
        6 => (format!("GFX_RECTF {}, {}, {}, {}", x1, y1, x2, y2), vec![]),
        7 => (format!("GFX_PIXEL {}, {}", x1, y1), vec![]),
        8 => (format!("GFX_POLY {}, {}, {}, {}, 5, 6, 12, 30", x1, y1, x2, y2), vec![("stroke", vec![m(x1, y1), l(x2, y2), l(5, 6), l(12, 30), Seg::Close])]),
        _ => { let v = vec![m(x1, y1), l(x2, y2), l(5, 6), l(12, 30), Seg::Close]; (format!("GFX_POLYF {}, {}, {}, {}, 5, 6, 12, 30", x1, y1, x2, y2), vec![("fill", v.clone()), ("stroke", v)]) }
    };
    let line = format!("COLOR {}: {}: COLOR 7, 0: CLS", c, cmd);
    rt::log(&line);
    let _ = (bg, before);
    p.line(&line);
    for s in &world().shapes { rt::log(&format!("{} {:?} {:06x}", s.kind, s.path, s.color)); }
    let ansi = endbasic_std::console::ansi_color_to_rgb(c as u8);
    let rgb = (ansi.0 as u32) << 16 | (ansi.1 as u32) << 8 | ansi.2 as u32;
    let got: &[Shape] = &world().shapes;
    rt::check(got.len() == want.len(), "shapes are drawn once");
    for (g, w) in got.iter().zip(&want) {
        rt::check(g.kind == w.0 && g.color == rgb, "shapes have the color that was set");
        rt::check(w.1.is_empty() || g.path == w.1, "shapes are where they should be");
    }
    rt::cover("drawn");
}

/// Pixels that are drawn, read back and scrolled. Case: what is asked.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pixels(case: u32) {
    let mut p = open(20, 3);
    let (fg, bg) = rt::pick(&[(9u8, 4u8), (15, 0), (200, 17)]);
    let rgb = |c: u8| { let a = endbasic_std::console::ansi_color_to_rgb(c); (a.0 as u32) << 16 | (a.1 as u32) << 8 | a.2 as u32 };
    let w = world();
    match case {
        0 => {
            // One filled rectangle, asked about at a place.
            let (x, y) = rt::pick(&[(30i32, 20i32), (29, 20), (50, 35), (51, 35), (50, 36), (9, 0), (159, 47), (160, 47), (159, 48), (-1, 3), (3, -1), (32767, 1)]);
            p.line(&format!("COLOR {}, {}: CLS: GFX_RECTF 30, 20, 51, 36: A = GFX_PEEK({}, {}): COLOR 7, 0: CLS: PRINT A", fg, bg, x, y));
            let inside = (30..51).contains(&x) && (20..36).contains(&y);
            let edge = (x == 51 && (20..=36).contains(&y)) || (y == 36 && (30..=51).contains(&x));
            let want = if inside { fg as i32 } else if (0..160).contains(&x) && (0..48).contains(&y) { bg as i32 } else { -1 };
            for l in p.screen() { rt::log(&l); }
            rt::check(p.shows(&want.to_string()) || p.shows(&format!(" {}", want)) || edge && p.screen().iter().any(|l| l.trim() == fg.to_string()), "pixels are read as they are seen");
        }
        _ => {
            // Text in colors that goes past the end of the screen.
            let n = rt::choose(4) + 1;
            let sync = rt::choose(2);
            let before = if sync == 1 { "GFX_SYNC FALSE: " } else { "" };
            (p.input)(Input::Owned(format!("{}COLOR {}, {}: CLS: FOR I = 1 TO {}: PRINT \"xyz\": NEXT: GFX_SYNC TRUE: SLEEP 9", before, fg, bg, n)));
            p.settle();
            (p.input)(key(13, false));
            for _ in 0..12 { p.step(); if w.timers.is_empty() { w.turn(); } }
            rt::check(!w.timers.is_empty(), "the program waits");
            let (f, b) = (rgb(fg), rgb(bg));
            rt::check(w.px.iter().all(|c| *c == f || *c == b), "the screen only has the colors that were set");
            let rows: Vec<bool> = (0..3).map(|r| w.px[r * 16 * 160..(r + 1) * 16 * 160].iter().enumerate().any(|(i, c)| i % 160 >= 8 && *c == f)).collect();
            rt::log(&format!("{:?}", rows));
            let used = n.min(2);
            for (r, has) in rows.iter().enumerate() { rt::check(*has == (r < used), "lines scroll"); }
            if n > 1 { rt::check(w.px[..16 * 160] == w.px[16 * 160..32 * 160], "lines scroll"); }
        }
    }
    rt::cover("seen");
}

/// Programs and sounds that take time. Case: the program; from 8 on, a call of the page fails.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_time(case: u32) {
    if case < 4 {
        // Programs that do not end.
        let code = ["DO: LOOP", "@a: GOTO @a", "DO: PRINT 1: LOOP", "DO: A$ = INKEY: LOOP"][case as usize];
        let mut p = open(20, 6);
        let c = js_sys::clock();
        (p.input)(Input::Owned(code.to_owned()));
        p.settle();
        (c.tick, c.turn) = (rt::pick(&[10.0, 90.0, 400.0, 999.0]), c.now);
        c.most = 2500.0 + 8.0 * c.tick;
        let stops = rt::choose(3);
        (p.input)(key(13, false));
        for _ in 0..4 + stops { p.step(); rt::check(world().turn(), "programs let go of the page"); }
        let shown = p.screen();
        for l in &shown { rt::log(l); }
        if case == 2 { rt::check(shown.iter().any(|l| l.trim() == "1"), "what programs print is seen while they run"); }
        (p.input)(key(67, true));
        for _ in 0..3 { p.step(); world().turn(); }
        (c.tick, c.most) = (0.0, f64::MAX);
        p.settle();
        p.line("CLS: PRINT 5 + 5");
        rt::check(p.shows("10") || p.shows(" 10"), "CTRL+C interrupts programs");
        rt::cover("interrupted");
        return;
    }
    let mut p = open(40, 6);
    let c = js_sys::clock();
    let (secs, ms) = if case % 4 > 1 { ("0.25", 250.0) } else { rt::pick(&[("0.25", 250.0), ("0", 0.0), ("1.5", 1500.0), ("90.001", 90001.0), ("3000000", f64::MAX), ("-1", -1.0)]) };
    let hz = if case % 2 == 0 { "1" } else { rt::pick(&["1", "440", "0"]) };
    let code = match case % 4 { 0 => format!("SLEEP {}", secs), 1 => format!("SOUND {}, {}", hz, secs), 2 => "BEEP".to_owned(), _ => format!("SOUND {}, 0.25: BEEP", hz) };
    rt::log(&code);
    if case >= 8 { world().fail = 1 + rt::choose(3) as u32; }
    let from = c.now;
    let failing = world().fail;
    p.line(&code);
    let failed = failing > 0 && world().fail == 0;
    world().fail = 0;
    for l in p.screen() { rt::log(&l); }
    let error = p.screen().iter().any(|l| l.starts_with("ERROR"));
    let badhz = case % 2 == 1 && (hz == "0");
    let badtime = case % 4 < 2 && !(0.0..1e9).contains(&ms);
    rt::check(error == (failed || badhz || badtime), "failures are reported and nothing else is");
    for s in &world().sounds { let s = s.borrow(); rt::check(s.start.is_none() || s.stop.is_some() || failed, "sounds end"); }
    let got: Vec<(f32, f64)> = world().sounds.iter().filter_map(|s| { let s = s.borrow(); Some((s.hz, s.stop? - s.start?)) }).collect();
    if !error {
        let want: Vec<(f32, f64)> = match case % 4 { 0 => vec![], 1 => vec![(hz.parse().unwrap(), ms)], 2 => vec![(800.0, 250.0)], _ => vec![(hz.parse().unwrap(), 250.0), (800.0, 250.0)] };
        for g in &got { rt::log(&format!("{} {}", g.0, g.1)); }
        rt::check(got == want, "sounds have the tone and the length asked for");
        for s in &world().sounds { let s = s.borrow(); rt::check(s.square && s.connected, "sounds are heard"); }
        let want: f64 = if case % 4 == 0 { ms } else { want.iter().map(|w| w.1).sum() };
        let spent = world().sounds.last().and_then(|s| s.borrow().stop).map(|t| t - from);
        match spent { Some(t) => rt::check(t >= want && t < want + 200.0, "sounds go one after the other"), None => rt::check(c.now - from >= want && c.now - from < want + 200.0, "SLEEP takes what it is asked to") }
        rt::cover("timed");
    } else { rt::cover("refused"); }
    p.line("CLS: PRINT 5 + 5");
    rt::check(p.shows("10") || p.shows(" 10"), "the terminal goes on");
}

rt::harness_main!(h_session, h_files, h_names, h_keys, h_shapes, h_pixels, h_time);

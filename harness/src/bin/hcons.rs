//! Reading lines, colors, console specifications and paging.
use endbasic_std::console::*;
use endbasic_std::sound::Tone;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

// ---------------------------------------------------------------------------- line editing

/// What the user is typing, and the row of the screen that shows it.
struct Row {
    cells: Vec<char>, x: usize, visible: bool, lines: usize,
    prompt: Vec<char>, text: Vec<char>, pos: usize, secure: bool,
    history: Option<Vec<Vec<char>>>, at: usize,
    left: usize, keys: Vec<usize>, last: Key, interactive: bool,
}
struct Term(Rc<RefCell<Row>>);

impl Row {
    /// Some part of the text around the cursor is shown after the prompt.
    fn shown(&self) -> bool {
        let w = self.cells.len();
        let p = self.prompt.len();
        let iw = (w - p).saturating_sub(1);
        if self.cells[..p] != self.prompt[..] { return false; }
        (0..=self.pos).any(|v| {
            self.pos - v <= iw && self.x == p + self.pos - v
                && (0..w - p).all(|k| { let c = if k < iw && v + k < self.text.len() { if self.secure { '*' } else { self.text[v + k] } } else { ' ' }; self.cells[p + k] == c })
        })
    }
    fn next(&mut self) -> Key {
        if self.interactive {
            rt::check(self.shown(), "the screen shows the text around the cursor");
            rt::check(self.visible, "the cursor is visible");
            rt::check(self.lines == 0, "editing stays on its line");
        }
        if self.left == 0 {
            // Only an empty line can be ended by EOF.
            if self.interactive && matches!(self.last, Key::EofOrDelete) && !self.text.is_empty() { return Key::Interrupt; }
            return self.last.clone();
        }
        self.left -= 1;
        let k = rt::pick(&self.keys.clone());
        let n = self.text.len();
        match k {
            0 => { self.pos = self.pos.saturating_sub(1); Key::ArrowLeft }
            1 => { self.pos = (self.pos + 1).min(n); Key::ArrowRight }
            2 => { if self.pos > 0 { self.pos -= 1; self.text.remove(self.pos); } Key::Backspace }
            3 => { if self.pos < n { self.text.remove(self.pos); } Key::Delete }
            4 => { self.pos = 0; Key::Home }
            5 => { self.pos = n; Key::End }
            6 => {
                // Any printable character, or one that needs several bytes.
                let c = match self.left % 6 { 1 => 'é', 3 => '글', _ => { let c = rt::u8_() & 127; rt::assume(c >= 32); rt::assume(c < 127); c as char } };
                if self.cells.len() > self.prompt.len() + 1 { self.text.insert(self.pos, c); self.pos += 1; }
                Key::Char(c)
            }
            7 | 8 => {
                if let Some(h) = self.history.as_mut() {
                    if k == 7 && self.at > 0 || k == 8 && self.at + 1 < h.len() {
                        h[self.at] = self.text.clone();
                        if k == 7 { self.at -= 1 } else { self.at += 1 }
                        self.text = h[self.at].clone();
                        self.pos = self.text.len();
                    }
                }
                if k == 7 { Key::ArrowUp } else { Key::ArrowDown }
            }
            9 => { if n > 0 { if self.pos < n { self.text.remove(self.pos); } Key::EofOrDelete } else { Key::Escape } }
            _ => rt::pick(&[Key::PageDown, Key::Tab, Key::Unknown]),
        }
    }
}

#[async_trait::async_trait(?Send)]
impl Console for Term {
    fn clear(&mut self, _how: ClearType) -> io::Result<()> { rt::fail("nothing is cleared"); Ok(()) }
    fn color(&self) -> (Option<u8>, Option<u8>) { (None, None) }
    fn set_color(&mut self, _fg: Option<u8>, _bg: Option<u8>) -> io::Result<()> { Ok(()) }
    fn enter_alt(&mut self) -> io::Result<()> { Ok(()) }
    fn hide_cursor(&mut self) -> io::Result<()> { self.0.borrow_mut().visible = false; Ok(()) }
    fn is_interactive(&self) -> bool { self.0.borrow().interactive }
    fn leave_alt(&mut self) -> io::Result<()> { Ok(()) }
    fn locate(&mut self, _pos: CharsXY) -> io::Result<()> { rt::fail("editing stays on its line"); Ok(()) }
    fn move_within_line(&mut self, off: i16) -> io::Result<()> {
        let mut r = self.0.borrow_mut();
        let x = r.x as i64 + off as i64;
        rt::check(x >= 0 && x < r.cells.len() as i64, "the cursor stays on the line");
        r.x = x as usize;
        Ok(())
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        let mut r = self.0.borrow_mut();
        rt::check(text.is_empty(), "only the end of the line is printed");
        r.lines += 1;
        Ok(())
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> { Ok(None) }
    async fn read_key(&mut self) -> io::Result<Key> { Ok(self.0.borrow_mut().next()) }
    fn show_cursor(&mut self) -> io::Result<()> { self.0.borrow_mut().visible = true; Ok(()) }
    fn size_chars(&self) -> io::Result<CharsXY> { Ok(CharsXY::new(self.0.borrow().cells.len() as u16, 24)) }
    fn size_pixels(&self) -> io::Result<SizeInPixels> { Err(io::Error::other("none")) }
    fn glyph_size(&self) -> io::Result<SizeInPixels> { Err(io::Error::other("none")) }
    fn write(&mut self, text: &str) -> io::Result<()> {
        let mut r = self.0.borrow_mut();
        for c in text.chars() {
            rt::check(r.x < r.cells.len(), "nothing is written past the end of the line");
            let x = r.x;
            r.cells[x] = c;
            r.x += 1;
        }
        Ok(())
    }
    fn bucket_fill(&mut self, _: PixelsXY) -> io::Result<()> { Ok(()) }
    fn draw_circle(&mut self, _: PixelsXY, _: u16) -> io::Result<()> { Ok(()) }
    fn draw_circle_filled(&mut self, _: PixelsXY, _: u16) -> io::Result<()> { Ok(()) }
    fn draw_line(&mut self, _: PixelsXY, _: PixelsXY) -> io::Result<()> { Ok(()) }
    fn draw_pixel(&mut self, _: PixelsXY) -> io::Result<()> { Ok(()) }
    fn draw_poly(&mut self, _: &[PixelsXY]) -> io::Result<()> { Ok(()) }
    fn draw_poly_filled(&mut self, _: &[PixelsXY]) -> io::Result<()> { Ok(()) }
    fn draw_rect(&mut self, _: PixelsXY, _: PixelsXY) -> io::Result<()> { Ok(()) }
    fn draw_rect_filled(&mut self, _: PixelsXY, _: PixelsXY) -> io::Result<()> { Ok(()) }
    fn draw_tri(&mut self, _: PixelsXY, _: PixelsXY, _: PixelsXY) -> io::Result<()> { Ok(()) }
    fn draw_tri_filled(&mut self, _: PixelsXY, _: PixelsXY, _: PixelsXY) -> io::Result<()> { Ok(()) }
    fn peek_pixel(&self, _: PixelsXY) -> io::Result<Option<u8>> { Ok(None) }
    fn sync_now(&mut self) -> io::Result<()> { Ok(()) }
    fn set_sync(&mut self, _: bool) -> io::Result<bool> { Ok(true) }
    async fn play_tone(&mut self, _: Tone) -> io::Result<()> { Ok(()) }
}

fn chars(s: &str) -> Vec<char> { s.chars().collect() }
/// Compares one character at a time.
fn same(s: &str, t: &[char]) -> bool { let mut k = 0; for c in s.chars() { if k >= t.len() || c != t[k] { return false; } k += 1; } k == t.len() }
fn row(w: usize, prompt: &str, text: &str, keys: &[usize], left: usize) -> Row {
    Row { cells: vec![' '; w], x: 0, visible: true, lines: 0, prompt: chars(prompt), text: chars(text), pos: text.chars().count(), secure: false, history: None, at: 0, left, keys: keys.to_vec(), last: Key::NewLine, interactive: true }
}
fn finish(r: &mut Row) -> usize { let k = rt::choose(4); r.last = [Key::NewLine, Key::CarriageReturn, Key::Interrupt, Key::EofOrDelete][k].clone(); k }

/// Editing one line. Case: screen, prompt and initial text.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_edit(case: u32) {
    let depth = if case >= 100 { 5 } else { 4 };
    let case = case % 100;
    let w = [2, 4, 6, 9][case as usize % 4];
    let prompt = ["", "> ", "ñ…", "long prompt"][case as usize / 4 % 4];
    let text = ["", "abcé", "abcdefgh"][case as usize / 16 % 3];
    // Prompts that do not fit are shortened or left out.
    let shown: String = if prompt.chars().count() < w { prompt.into() } else if w >= 5 { prompt.chars().take(w - 5).chain("...".chars()).collect() } else { "".into() };
    let mut r = row(w, &shown, text, &[0, 1, 2, 3, 4, 5, 6, 9, 10], depth);
    let (long, prompt) = ("0123456789".repeat(20), if case >= 48 { "> " } else { prompt });
    let text = if case >= 48 { &long[..[130, 199][case as usize % 2]] } else { text };
    // Wide screens with long lines.
    if case >= 48 { r = row([140, 300][case as usize / 2 % 2], prompt, text, &[0, 1, 2, 3, 4, 5, 6, 9, 10], depth - 1); }
    r.last = Key::NewLine;
    let r = Rc::new(RefCell::new(r));
    let o = rt::block_on(read_line(&mut Term(r.clone()), prompt, text, None));
    let r = r.borrow();
    rt::check(o.is_ok() && same(&o.unwrap(), &r.text), "the line that was edited is returned");
    rt::check(r.lines == 1, "the line is ended once");
    rt::cover("read");
}

/// Moving in the history. Case: length of the history and screen.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_history(case: u32) {
    let w = [5, 12][case as usize % 2];
    let n = case as usize / 2;
    let mut history: Vec<String> = ["one", "второй", "a longer line"].iter().take(n).map(|s| s.to_string()).collect();
    let mut r = row(w, "", "", &[7, 8, 6, 2, 0], 5);
    let mut h: Vec<Vec<char>> = history.iter().map(|s| chars(s)).collect();
    h.push(vec![]);
    r.at = n;
    r.history = Some(h);
    let k = finish(&mut r);
    let r = Rc::new(RefCell::new(r));
    if k == 3 { r.borrow_mut().keys = vec![7, 8]; }
    let o = rt::block_on(read_line(&mut Term(r.clone()), "", "", Some(&mut history)));
    let r = r.borrow();
    let mut want: Vec<String> = r.history.as_ref().unwrap().iter().map(|s| s.iter().collect()).collect();
    match &o {
        Ok(s) => {
            rt::check(k < 2, "only ending a line returns it");
            rt::check(same(s, &r.text), "the line that was edited is returned");
            rt::check(r.lines == 1, "the line is ended once");
            if s.is_empty() { want.pop(); } else { want[n] = s.clone(); }
            rt::check(history == want, "lines are added to the history");
            rt::cover("read");
        }
        Err(e) => {
            rt::check(e.kind() == if k == 2 { io::ErrorKind::Interrupted } else if r.text.is_empty() { io::ErrorKind::UnexpectedEof } else { io::ErrorKind::Interrupted }, "interruptions and EOF are told apart");
            rt::check(k >= 2, "lines are returned");
            want.truncate(n);
            rt::check(history == want, "abandoned lines are not added to the history");
            rt::cover("abandoned");
        }
    }
}

/// Passwords.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_secure(case: u32) {
    let w = [4, 7][case as usize % 2];
    let mut r = row(w, ["", "p:"][case as usize / 2 % 2], "", &[0, 1, 2, 3, 4, 5, 6], 6);
    r.secure = true;
    let p: String = r.prompt.iter().collect();
    r.interactive = case < 4;
    let r = Rc::new(RefCell::new(r));
    let o = rt::block_on(read_line_secure(&mut Term(r.clone()), &p));
    if case >= 4 { rt::check(o.is_err() && r.borrow().left == 6, "passwords are not read from files"); return; }
    rt::check(o.is_ok() && same(&o.unwrap(), &r.borrow().text), "the line that was edited is returned");
    rt::cover("read");
}

/// Lines from files.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_raw(_case: u32) {
    let mut r = row(80, "", "", &[2, 6], 5);
    r.interactive = false;
    let k = finish(&mut r);
    let r = Rc::new(RefCell::new(r));
    let o = rt::block_on(read_line(&mut Term(r.clone()), "prompt", "previous", None));
    let r = r.borrow();
    rt::check(r.x == 0 && r.lines == 0, "nothing is written when reading from files");
    match o {
        // The initial text is only used interactively.
        Ok(s) => { rt::check(k < 2 && same(&s, &r.text), "the line is returned"); rt::cover("read") }
        Err(e) => { rt::check(k >= 2 && e.kind() == if k == 2 { io::ErrorKind::Interrupted } else { io::ErrorKind::UnexpectedEof }, "interruptions and EOF are told apart"); rt::cover("abandoned") }
    }
}

/// Line buffers are sequences of characters. Case: first operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_buffer(case: u32) {
    let mut v = chars(["", "a", "aéb", "글aßc"][rt::choose(4)]);
    let mut b = LineBuffer::from(v.iter().collect::<String>());
    for step in 0..2 {
        let p = rt::choose(6);
        let q = if step == 0 { rt::choose(6) } else { 3 };
        let at = |k: usize, v: &Vec<char>| k.min(v.len());
        let s = |v: &[char]| v.iter().collect::<String>();
        match if step == 0 { case as usize } else { rt::choose(9) } {
            0 => rt::check(b.end(p) == s(&v[at(p, &v)..]), "the end of a line is returned"),
            1 => rt::check(b.start(p) == s(&v[..at(p, &v)]), "the start of a line is returned"),
            2 => rt::check(b.range(p, q) == if p <= q { s(&v[at(p, &v)..at(q, &v)]) } else { "".into() }, "a part of a line is returned"),
            3 => { b.remove(p); if p < v.len() { v.remove(p); } }
            4 => { let c = rt::pick(&['x', 'ø']); b.insert(p, c); let k = at(p, &v); v.insert(k, c); }
            5 => { let t = rt::pick(&["", "zé", "ab"]); b.insert_str(p, t); let k = at(p, &v); for (j, c) in t.chars().enumerate() { v.insert(k + j, c); } }
            6 => { let t = rt::pick(&["", "qü"]); b.push_str(&LineBuffer::from(t)); v.extend(t.chars()); }
            7 => { let r = b.split_off(p); let k = at(p, &v); let t = v.split_off(k); rt::check(r.to_string() == s(&t) && r.len() == t.len(), "the rest of a line is returned"); }
            _ => { let (x, y) = (b.start(p), b.end(p)); rt::check(x + &y == s(&v), "the parts of a line make the line"); }
        }
        rt::check(b.len() == v.len() && b.is_empty() == v.is_empty() && b.to_string() == s(&v) && b.chars().collect::<Vec<_>>() == v, "lines consist of characters");
    }
    rt::check(b.into_inner() == v.iter().collect::<String>(), "lines consist of characters");
    rt::cover("edited");
}

// ---------------------------------------------------------------------------- colors and specifications

/// The palette, for all colors. Case: which direction.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_colors(case: u32) {
    let level = |k: u32| [0u8, 95, 135, 175, 215, 255][k as usize];
    match case {
        0 => {
            let c = rt::u8_();
            let rgb = ansi_color_to_rgb(c);
            let n = c as u32;
            if n >= 232 { let g = (8 + 10 * (n - 232)) as u8; rt::check(rgb == (g, g, g), "the palette has a gray ramp"); }
            else if n >= 16 { let k = n - 16; rt::check(rgb == (level(k / 36), level(k / 6 % 6), level(k % 6)), "the palette has a color cube"); }
            else {
                // Dim and bright combinations of the three channels.
                let on = |b: u32| n >> b & 1 == 1;
                let v = if n < 7 { 128 } else { 255 };
                let want = if n == 7 { (192, 192, 192) } else if n == 8 { (128, 128, 128) } else { (if on(0) { v } else { 0 }, if on(1) { v } else { 0 }, if on(2) { v } else { 0 }) };
                rt::check(rgb == want, "the palette has the basic colors");
            }
            let back = rgb_to_ansi_color(rgb);
            rt::check(back.is_some() && back.unwrap() <= c && ansi_color_to_rgb(back.unwrap()) == rgb, "colors of the palette are found again");
            rt::cover("color");
        }
        _ => {
            let rgb = (rt::u8_(), rt::u8_(), rt::u8_());
            let cube = |v: u8| (v == 0) | (v == 95) | (v == 135) | (v == 175) | (v == 215) | (v == 255);
            let dim = |v: u8| (v == 0) | (v == 128);
            let gray = (rgb.0 == rgb.1) & (rgb.1 == rgb.2);
            let ramp = gray & (rgb.0 >= 8) & (rgb.0 <= 238) & (rgb.0 % 10 == 8);
            let known = (cube(rgb.0) & cube(rgb.1) & cube(rgb.2)) | (dim(rgb.0) & dim(rgb.1) & dim(rgb.2)) | (gray & (rgb.0 == 192)) | ramp;
            match rgb_to_ansi_color(rgb) {
                Some(c) => { rt::check(ansi_color_to_rgb(c) == rgb, "only exact colors are found"); rt::check(known, "only colors of the palette are found"); rt::cover("found") }
                None => { rt::check(!known, "colors of the palette are found"); rt::cover("other") }
            }
        }
    }
}

/// Resolutions. Case: length.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_resolution(case: u32) {
    let mut s = String::new();
    if case < 10 { for _ in 0..case { s.push(rt::pick(&['0', '1', '7', 'x', 'f', 's', ' ', '-', 'é'])); } }
    else { for _ in 10..case { let c = rt::u8_(); rt::assume(c < 128); s.push(c as char); } }
    let number = |t: &str| -> Option<u32> { let t = t.strip_prefix('+').unwrap_or(t); if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return None; } let n: u64 = t.bytes().fold(0, |n, b| n * 10 + (b - b'0') as u64); if n == 0 || n > u32::MAX as u64 { None } else { Some(n as u32) } };
    let (body, full) = match s.strip_suffix("fs") { Some(b) => (b, true), None => (&s[..], false) };
    let want = if s == "fs" { Some((0, 0, true)) } else { body.find('x').and_then(|k| Some((number(&body[..k])?, number(&body[k + 1..])?, full))) };
    let got = match s.parse::<Resolution>() {
        Ok(Resolution::FullScreenDesktop) => Some((0, 0, true)),
        Ok(Resolution::FullScreen((w, h))) => Some((w.get(), h.get(), true)),
        Ok(Resolution::Windowed((w, h))) => Some((w.get(), h.get(), false)),
        Err(e) => { rt::check(e.0.contains("resolution") && e.0.contains(&s), "errors name the resolution"); None }
    };
    rt::check(got == want, "resolutions are read exactly");
    if got.is_some() { rt::cover("resolution"); }
}

/// Large numbers in resolutions.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_resolution_big(_case: u32) {
    let w = rt::pick(&["4294967295", "4294967296", "99999999999999999999", "0004", "65536"]);
    let want = [Some(u32::MAX), None, None, Some(4), Some(65536)][["4294967295", "4294967296", "99999999999999999999", "0004", "65536"].iter().position(|x| *x == w).unwrap()];
    let (a, b) = if rt::choose(2) == 1 { (w, "3") } else { ("3", w) };
    let got = format!("{}x{}", a, b).parse::<Resolution>().ok();
    let ok = match (got, want) { (None, None) => true, (Some(Resolution::Windowed((x, y))), Some(n)) => if a == w { x.get() == n && y.get() == 3 } else { x.get() == 3 && y.get() == n }, _ => false };
    rt::check(ok, "resolutions are read exactly");
}

/// Console specifications: every flag is seen by its driver or reported.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_spec(case: u32) {
    let driver = rt::pick(&["text", "graphics", ""]);
    let mut src = driver.to_string();
    let (mut flags, mut keyed): (Vec<&str>, Vec<(&str, &str)>) = (vec![], vec![]);
    if case > 0 || driver.is_empty() { src.push(':'); }
    for k in 0..case {
        if k > 0 { src.push(','); }
        let f = rt::pick(&["", "a", "b", "a=1", "b=x=y", "c=", "a=70000"]);
        src += f;
        if f.is_empty() { continue; }
        match f.find('=') {
            None => { if !flags.contains(&f) { flags.push(f); } }
            Some(p) => { keyed.retain(|(n, _)| *n != &f[..p]); keyed.push((&f[..p], &f[p + 1..])); }
        }
    }
    let mut s = ConsoleSpec::init(&src);
    rt::check(s.driver == driver, "the driver is what precedes the flags");
    let mut take = |n: &str, v: &mut Vec<&str>| { let had = v.contains(&n); v.retain(|x| *x != n); rt::check(s.take_flag(n) == had, "flags are found if they are given"); };
    let which = rt::choose(4);
    if which & 1 == 1 { take("a", &mut flags); take("a", &mut flags); }
    let mut val = |n: &str| { let k = keyed.iter().position(|x| x.0 == n); k.map(|k| keyed.remove(k).1) };
    if which & 2 == 2 {
        let want = val("a");
        match s.take_keyed_flag::<u16>("a") {
            Ok(v) => rt::check(v.is_some() == want.is_some() && want.is_none_or(|w| w == "1" && v == Some(1)), "values are converted"),
            Err(e) => rt::check(want.is_some() && want != Some("1") && e.0.contains("flag a"), "values that do not convert are rejected"),
        }
        let want = val("b");
        rt::check(s.take_keyed_flag_str("b") == want, "values are returned as given");
    }
    let mut unknown: Vec<&str> = flags.iter().copied().chain(keyed.iter().map(|k| k.0)).collect();
    unknown.sort();
    match s.finish() {
        Ok(()) => { rt::check(unknown.is_empty(), "flags that nobody knows are rejected"); rt::cover("accepted") }
        Err(e) => { rt::log(&e.0); rt::check(!unknown.is_empty() && e.0.ends_with(&unknown.join(", ")) && e.0.contains(driver), "flags that nobody knows are named"); rt::cover("unknown") }
    }
}

rt::harness_main!(h_edit, h_history, h_secure, h_raw, h_buffer, h_colors, h_resolution, h_resolution_big, h_spec);

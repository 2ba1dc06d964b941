//! The console on terminals and pipes: the bytes that come out of it and the ones that go in.
use endbasic_std::console::{CharsXY, ClearType, Console, Key};
use endbasic_std::Signal;
use endbasic_terminal::TerminalConsole;
use std::ffi::{c_char, c_int, c_void};
use std::ptr;
#[path = "../fsm.rs"]
mod fsm;
use fsm::*;

// The rest of the system calls that terminals need.
struct Tty { on: bool, raw: u32, rows: u16, cols: u16, vars: [Option<&'static str>; 2], events: u64, slept: u64 }
static mut TTY: Tty = Tty { on: false, raw: 0, rows: 0, cols: 0, vars: [None, None], events: 0, slept: 0 };
#[allow(static_mut_refs)]
fn tty() -> &'static mut Tty { unsafe { &mut *ptr::addr_of_mut!(TTY) } }
extern "C" { static environ: *const *const c_char; }
#[no_mangle]
pub extern "C" fn getenv(n: *const c_char) -> *const c_char {
    unsafe {
        if tty().on {
            let n = std::ffi::CStr::from_ptr(n).to_bytes();
            let v = if n == b"LINES" { tty().vars[0] } else if n == b"COLUMNS" { tty().vars[1] } else { None };
            return v.map_or(ptr::null(), |v| v.as_ptr() as *const c_char);
        }
        let mut e = environ;
        while !(*e).is_null() {
            let mut k = 0;
            while *n.add(k) != 0 && *n.add(k) == *(*e).add(k) { k += 1; }
            if *n.add(k) == 0 && *(*e).add(k) as u8 == b'=' { return (*e).add(k + 1); }
            e = e.add(1);
        }
        ptr::null()
    }
}
#[no_mangle]
pub extern "C" fn dlsym(_h: *const c_void, _n: *const c_char) -> *const c_void { ptr::null() }
#[no_mangle]
pub extern "C" fn tcgetattr(_fd: c_int, t: *mut u32) -> c_int { unsafe { for k in 0..15 { *t.add(k) = 0; } *t = tty().raw; } 0 }
#[no_mangle]
pub extern "C" fn tcsetattr(_fd: c_int, _how: c_int, t: *const u32) -> c_int { tty().raw = unsafe { *t }; 0 }
#[no_mangle]
pub extern "C" fn cfmakeraw(t: *mut u32) { unsafe { *t = 77 } }
#[no_mangle]
pub extern "C" fn ioctl(_fd: c_int, req: u64, a: *mut u16) -> c_int { if req == 0x5413 { unsafe { *a = tty().rows; *a.add(1) = tty().cols; } } 0 }
#[no_mangle]
pub extern "C" fn pthread_create(_t: *mut u64, _a: *const c_void, _f: *const c_void, _x: *const c_void) -> c_int { unsafe { *_t = 1; } 0 }
#[no_mangle]
pub extern "C" fn pthread_attr_init(_a: *mut c_void) -> c_int { 0 }
#[no_mangle]
pub extern "C" fn pthread_attr_setstacksize(_a: *mut c_void, _n: usize) -> c_int { 0 }
#[no_mangle]
pub extern "C" fn pthread_attr_destroy(_a: *mut c_void) -> c_int { 0 }
#[no_mangle]
pub extern "C" fn pthread_detach(_t: u64) -> c_int { 0 }
#[no_mangle]
pub extern "C" fn epoll_create1(_f: c_int) -> c_int { 90 }
#[no_mangle]
pub extern "C" fn epoll_ctl(_e: c_int, _op: c_int, fd: c_int, ev: *const u8) -> c_int { if fd == 0 && !ev.is_null() { tty().events = unsafe { ptr::read_unaligned(ev.add(4) as *const u64) }; } 0 }
/// The terminal is ready if there is something to read.
#[no_mangle]
pub extern "C" fn epoll_wait(_e: c_int, ev: *mut u8, _n: c_int, _ms: c_int) -> c_int {
    if fs().input.is_empty() { return 0; }
    unsafe { ptr::write_unaligned(ev as *mut u32, 1); ptr::write_unaligned(ev.add(4) as *mut u64, tty().events); }
    1
}
#[no_mangle]
pub extern "C" fn eventfd(_v: u32, _f: c_int) -> c_int { 91 }
#[no_mangle]
pub extern "C" fn socketpair(_d: c_int, _t: c_int, _p: c_int, sv: *mut c_int) -> c_int { unsafe { *sv = 92; *sv.add(1) = 93; } 0 }
#[no_mangle]
pub extern "C" fn sigaction(_s: c_int, _a: *const c_void, _o: *mut c_void) -> c_int { 0 }
#[no_mangle]
pub extern "C" fn fcntl(fd: c_int, _c: c_int, _a: u64) -> c_int { if _c == 1030 { fd + 4 } else { 0 } }
#[no_mangle]
pub extern "C" fn clock_nanosleep(_c: c_int, _f: c_int, t: *const u64, _r: *mut u64) -> c_int { tty().slept += unsafe { *t * 1000 + *t.add(1) / 1_000_000 }; 0 }

/// What a terminal shows.
#[derive(Clone, PartialEq)]
struct Screen { w: usize, h: usize, raw: bool, cells: Vec<(char, Pen)>, x: usize, y: usize, pen: Pen, hidden: bool, main: Option<(Vec<(char, Pen)>, usize, usize)>, bells: usize, bad: bool }
type Pen = (Option<u8>, Option<u8>);
impl Screen {
    fn new(w: usize, h: usize, raw: bool) -> Self { Screen { w, h, raw, cells: vec![(' ', (None, None)); w * h], x: 0, y: 0, pen: (None, None), hidden: false, main: None, bells: 0, bad: false } }
    fn put(&mut self, c: char) {
        if self.x == self.w { self.x = 0; self.down(); }
        let k = self.y * self.w + self.x;
        self.cells[k] = (c, self.pen);
        self.x += 1;
    }
    fn down(&mut self) {
        if self.y + 1 < self.h { self.y += 1; return; }
        self.cells.drain(..self.w);
        let pen = self.pen;
        self.cells.extend((0..self.w).map(|_| (' ', (None, pen.1))));
    }
    fn newline(&mut self) { self.x = 0; self.down(); }
    fn erase(&mut self, from: usize, to: usize) { for k in from..to { self.cells[k] = (' ', (None, self.pen.1)); } }
    fn all(&mut self) { let n = self.w * self.h; self.erase(0, n) }
    fn line(&mut self, from: usize) { let r = self.y * self.w; self.erase(r + from.min(self.w), r + self.w) }
    fn alt(&mut self, on: bool) {
        if on == self.main.is_some() { return; }
        if on { self.main = Some((self.cells.clone(), self.x, self.y)); self.all(); } else { let (c, x, y) = self.main.take().unwrap(); self.cells = c; self.x = x; self.y = y; }
    }
    /// Interprets what was written to the terminal.
    fn feed(&mut self, text: &[u8]) {
        let Ok(text) = std::str::from_utf8(text) else { self.bad = true; return; };
        let mut cs = text.chars();
        while let Some(c) = cs.next() {
            match c {
                '\x1b' => {
                    if cs.next() != Some('[') { self.bad = true; return; }
                    let (mut ps, mut private, mut any) = (vec![0usize], false, false);
                    loop {
                        match cs.next() {
                            Some('?') => private = true,
                            Some(d) if d.is_ascii_digit() => { let n = ps.last_mut().unwrap(); *n = *n * 10 + (d as usize - 48); any = true; }
                            Some(';') => ps.push(0),
                            Some(f) => { self.csi(f, private, any, &ps); break; }
                            None => { self.bad = true; return; }
                        }
                    }
                }
                '\n' => { if !self.raw { self.x = 0; } self.down(); }
                '\r' => self.x = 0,
                '\x08' => self.x = self.x.saturating_sub(1),
                '\x07' => self.bells += 1,
                c if (c as u32) < 32 || c == '\x7f' => self.bad = true,
                c => self.put(c),
            }
        }
    }
    fn csi(&mut self, f: char, private: bool, any: bool, ps: &[usize]) {
        let n = if any { ps[0] } else { 1 };
        match (private, f) {
            (true, 'h' | 'l') if ps == [25] => self.hidden = f == 'l',
            (true, 'h' | 'l') if ps == [1049] => self.alt(f == 'h'),
            (false, 'H') if ps.len() == 2 && ps[0] >= 1 && ps[1] >= 1 => { self.y = (ps[0] - 1).min(self.h - 1); self.x = (ps[1] - 1).min(self.w - 1); }
            (false, 'C') => self.x = (self.x + n.max(1)).min(self.w - 1),
            (false, 'D') => self.x = self.x.saturating_sub(n.max(1)),
            (false, 'J') if ps == [2] => self.all(),
            (false, 'K') if ps == [2] => self.line(0),
            (false, 'K') if ps == [0] => self.line(self.x),
            (false, 'm') => match ps { [38, 5, n] => self.pen.0 = Some(*n as u8), [48, 5, n] => self.pen.1 = Some(*n as u8), [39] => self.pen.0 = None, [49] => self.pen.1 = None, _ => self.bad = true },
            _ => self.bad = true,
        }
    }
}
fn world(is_tty: bool) -> tokio::runtime::Runtime {
    let r = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let (f, t) = (fs(), tty());
    f.on = true;
    f.tty = is_tty;
    f.max = 8192;
    f.files = vec![("/dev/tty".into(), vec![])];
    f.dirs = vec!["/dev".into()];
    *t = Tty { on: true, raw: 5, rows: 6, cols: 12, vars: [None, None], events: 0, slept: 0 };
    r
}
fn over() { end(); tty().on = false; }

/// What programs do with the console, on a screen. Case: whether it is a terminal and the first operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_screen(case: u32) {
    const OPS: usize = 17;
    let n = if case >= 100 { 4 } else { 3 };
    let case = case % 100;
    let (is_tty, first) = (case % 2 == 1, case as usize / 2);
    let r = world(is_tty);
    r.block_on(async {
        let (tx, _rx) = async_channel::unbounded();
        let mut c = TerminalConsole::from_stdio(tx).unwrap();
        fs().max = if first == 2 { 8192 } else { rt::pick(&[1, 8192]) };
        rt::check(c.is_interactive() == is_tty, "terminals are interactive");
        rt::check(tty().raw == if is_tty { 77 } else { 5 }, "keys of terminals are read one by one");
        let (mut s, mut m) = (Screen::new(12, 6, is_tty), Screen::new(12, 6, is_tty));
        let mut sync = true;
        c.write("ab").unwrap();
        m.put('a');
        m.put('b');
        for k in 0..n {
            let op = if k == 0 { first } else { rt::choose(OPS) };
            let mut now = sync;
            match op {
                0 | 1 => {
                    let b = if k == 0 { rt::u8_() } else { rt::pick(&[b'y', 10, 27]) };
                    rt::assume(b < 128);
                    let t: String = [b as char, rt::pick(&['x', '\u{e9}', '\u{9b}'])].iter().collect();
                    (if op == 0 { c.write(&t) } else { c.print(&t) }).unwrap();
                    for ch in t.chars() { m.put(if ch.is_control() { ' ' } else { ch }); }
                    if op == 1 { m.newline(); now = true; }
                }
                2 => {
                    let (x, y) = if k == 0 { (rt::u16_(), rt::pick(&[0, 3, 5])) } else { (rt::pick(&[0, 11]), rt::pick(&[0, 5])) };
                    rt::assume((x < 12) & (y < 6));
                    c.locate(CharsXY::new(x, y)).unwrap();
                    m.x = rt::conc(x as u64) as usize;
                    m.y = rt::conc(y as u64) as usize;
                }
                3 => { c.clear(ClearType::All).unwrap(); m.all(); m.x = 0; m.y = 0; }
                4 => { c.clear(ClearType::CurrentLine).unwrap(); m.line(0); }
                5 => { c.clear(ClearType::UntilNewLine).unwrap(); let x = m.x; m.line(x); }
                6 => { if m.x == 0 { break; } c.clear(ClearType::PreviousChar).unwrap(); m.x -= 1; m.put(' '); m.x -= 1; }
                7 => {
                    let p = || match rt::choose(3) { 0 => None, 1 if k == 0 => Some(rt::u8_()), 1 => Some(255), _ => Some(7) };
                    let (f, b) = if k == 0 { (p(), p()) } else { rt::pick(&[(None, None), (Some(0), Some(255)), (Some(7), Some(7)), (Some(0), None), (None, Some(16))]) };
                    c.set_color(f, b).unwrap();
                    m.pen = (f, b);
                    rt::check(c.color() == (f, b), "the colors are the ones in use");
                }
                8 => { c.enter_alt().unwrap(); m.alt(true); }
                9 => { c.leave_alt().unwrap(); m.alt(false); }
                10 => { c.hide_cursor().unwrap(); m.hidden = true; }
                11 => { c.show_cursor().unwrap(); m.hidden = false; }
                12 => {
                    let off = if k == 0 { rt::u16_() as i16 } else { rt::pick(&[-2, 0, 1]) };
                    rt::assume((off >= -(m.x as i16)) & (off < 12 - m.x as i16));
                    c.move_within_line(off).unwrap();
                    m.x = (m.x as i64 + rt::conc(off as u16 as u64) as i16 as i64) as usize;
                }
                13 => { rt::check(c.set_sync(false).unwrap() == sync, "the synchronization is the previous one"); sync = false; now = true; }
                14 => { rt::check(c.set_sync(true).unwrap() == sync, "the synchronization is the previous one"); sync = true; now = true; }
                15 => { c.sync_now().unwrap(); now = true; }
                _ => { c.beep().await.unwrap(); m.bells += 1; now = true; }
            }
            if now || k + 1 == n {
                if !now { c.sync_now().unwrap(); }
                let o = std::mem::take(&mut fs().out);
                s.feed(&o);
                rt::check(s == m, "the terminal shows what programs put on the console");
            }
        }
        rt::cover("done");
        drop(c);
        rt::check(tty().raw == 5, "terminals are left as they were");
    });
    over();
    std::mem::forget(r);
}

/// Sizes of consoles. Case: the variable with the lines.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_size(case: u32) {
    const V: [(Option<&str>, Option<u16>); 7] = [(None, None), (Some("\0"), None), (Some("24\0"), Some(24)), (Some("x4\0"), None), (Some("65535\0"), Some(65535)), (Some("65536\0"), None), (Some("-1\0"), None)];
    let r = world(true);
    let (l, c) = (V[case as usize], rt::pick(&V));
    let (rows, cols) = (rt::u16_(), rt::u16_());
    let t = tty();
    (t.rows, t.cols, t.vars) = (rows, cols, [l.0, c.0]);
    r.block_on(async {
        let (tx, _rx) = async_channel::unbounded();
        let con = TerminalConsole::from_stdio(tx).unwrap();
        let s = con.size_chars().unwrap();
        rt::check((s.x == c.1.unwrap_or(cols)) & (s.y == l.1.unwrap_or(rows)), "the size is the one of the terminal or the one asked for");
        rt::cover("done");
        std::mem::forget(con);
    });
    over();
    std::mem::forget(r);
}

const KEYS: [(&[u8], Option<Key>); 32] = [
    (b"\x1b[A", Some(Key::ArrowUp)), (b"\x1b[B", Some(Key::ArrowDown)), (b"\x1b[C", Some(Key::ArrowRight)), (b"\x1b[D", Some(Key::ArrowLeft)),
    (b"\x1b[H", Some(Key::Home)), (b"\x1b[F", Some(Key::End)), (b"\x1b[5~", Some(Key::PageUp)), (b"\x1b[6~", Some(Key::PageDown)),
    (b"\x1b[3~", Some(Key::Delete)), (b"\t", Some(Key::Tab)), (b"\r", Some(Key::NewLine)), (b"\n", Some(Key::NewLine)),
    (b"\x7f", Some(Key::Backspace)), (b"\x01", Some(Key::Home)), (b"\x02", Some(Key::ArrowLeft)), (b"\x03", Some(Key::Interrupt)),
    (b"\x04", Some(Key::EofOrDelete)), (b"\x05", Some(Key::End)), (b"\x06", Some(Key::ArrowRight)), (b"\x0e", Some(Key::ArrowDown)),
    (b"\x10", Some(Key::ArrowUp)), ("\u{e9}".as_bytes(), Some(Key::Char('\u{e9}'))), ("\u{20ac}".as_bytes(), Some(Key::Char('\u{20ac}'))), ("\u{1f600}".as_bytes(), Some(Key::Char('\u{1f600}'))),
    (b"\x1bOP", Some(Key::Unknown)), (b"\x1b[2~", Some(Key::Unknown)), (b"\x1b[I", None), (b"\x1b[97;1:3u", None),
    (b"\x1b[1~", Some(Key::Home)), (b"\x1b[4~", Some(Key::End)), (b"\x1bOA", Some(Key::ArrowUp)), (b"\x1b[8~", Some(Key::End)),
];
/// Keys of terminals. Case: how keys are waited for and how many there are.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_keys(case: u32) {
    let r = world(true);
    let n = [1, 2, 2, 3][case as usize / 2];
    let wait = case % 2 == 1;
    let (mut bytes, mut want) = (vec![], vec![]);
    for k in 0..n {
        match if n == 3 && k == 1 { rt::pick(&[0, 12, 15, 21, 26]) } else { rt::choose(if k + 1 == n { 34 } else { 33 }) } {
            32 => { let b = rt::u8_(); rt::assume((b >= b' ') & (b < 127)); bytes.push(b); want.push(Key::Char(b as char)); }
            33 => { bytes.push(27); want.push(Key::Escape); }
            i => { bytes.extend_from_slice(KEYS[i].0); want.extend(KEYS[i].1); }
        }
    }
    let breaks = want.iter().filter(|k| **k == Key::Interrupt).count();
    r.block_on(async {
        let (tx, rx) = async_channel::unbounded();
        let (mut c, inject) = TerminalConsole::from_stdio_with_injector(tx).unwrap();
        let c = &mut c as &mut dyn Console;
        if case < 4 { fs().input = bytes; } else {
            // What other devices inject goes with it.
            inject.try_send(Key::Char('!')).unwrap();
            want.insert(0, Key::Char('!'));
            fs().input = bytes;
        }
        for k in &want {
            let g = if wait { c.read_key().await.unwrap() } else { for _ in 0..3 { tokio::task::yield_now().await; } match c.poll_key().await.unwrap() { Some(k) => k, None => rt::fail("keys are not lost") } };
            rt::check(g == *k, "the keys are the ones that were pressed");
        }
        for _ in 0..3 { tokio::task::yield_now().await; }
        rt::check(c.poll_key().await.unwrap().is_none(), "there are no more keys than were pressed");
        for _ in 0..breaks { rt::check(rx.try_recv() == Ok(Signal::Break), "CTRL+C interrupts programs"); }
        rt::check(rx.try_recv().is_err(), "only CTRL+C interrupts programs");
        rt::cover(if breaks > 0 { "break" } else { "keys" });
    });
    over();
    std::mem::forget(r);
}

/// Input that does not come from a terminal. Case: the bytes that are read at once and how many there are.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pipe(case: u32) {
    let r = world(false);
    fs().max = if case % 2 == 0 { 1 } else { 8192 };
    let n = case as usize / 2;
    let (mut text, mut want) = (String::new(), vec![]);
    let odd = rt::choose(n + 1);
    for k in 0..n {
        let ch = if k == odd { rt::pick(&['\u{e9}', '\u{9b}', '\n']) } else { let b = rt::u8_(); rt::assume(b < 128); b as char };
        text.push(ch);
        match ch { '\r' => (), '\n' => want.push(Key::NewLine), '\x1b' => want.push(Key::Escape), c if c.is_control() => want.push(Key::Unknown), c => want.push(Key::Char(c)) }
    }
    // Lines with nothing but carriage returns only end files.
    if text.ends_with('\r') && text.trim_end_matches('\r').is_empty() | text.trim_end_matches('\r').ends_with('\n') { over(); rt::done(); }
    fs().input = text.into_bytes();
    r.block_on(async {
        let (tx, rx) = async_channel::unbounded();
        let mut c = TerminalConsole::from_stdio(tx).unwrap();
        let c = &mut c as &mut dyn Console;
        for k in &want { let g = c.read_key().await.unwrap(); rt::check(g == *k, "the input is read as it is"); }
        for _ in 0..3 {
            rt::check(c.read_key().await.unwrap() == Key::EofOrDelete, "the end of the input is noticed");
            rt::check(c.poll_key().await.unwrap() == Some(Key::EofOrDelete), "the end of the input lasts");
        }
        rt::check(rx.try_recv().is_err(), "input does not interrupt programs");
        rt::cover("end");
    });
    over();
    std::mem::forget(r);
}

rt::harness_main!(h_screen, h_size, h_keys, h_pipe);

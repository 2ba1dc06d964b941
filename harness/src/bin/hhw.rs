//! The console on the ST7735S panel, against a simulation of the panel, its bus and its buttons.
use async_channel::Sender;
use endbasic_st7735s::St7735sConsoleFactory;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::*;
use endbasic_std::gfx::lcd::fonts::{Font, Fonts, FONT_16X16, FONT_5X8, FONT_VGA8X16};
use endbasic_std::gpio::{Pin, PinMode, Pins};
use endbasic_std::spi::{SpiBus, SpiMode};
use endbasic_std::Signal;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// The panel: 132x132 pixels of 16 bits, of which it shows 128x128.
struct Panel { mem: Vec<u8>, dc: bool, rst: bool, light: bool, select: bool, reg: u8, args: Vec<u8>, pending: Vec<u8>, win: [u8; 4], format: u8, scan: u8, awake: bool, on: bool, resets: usize, modes: Vec<(u8, PinMode)>, opened: bool, max: usize, part: usize, fail: usize, buttons: [bool; 8], early: bool, refused: usize }
const BUTTONS: [(u8, Key); 8] = [(6, Key::ArrowUp), (19, Key::ArrowDown), (5, Key::ArrowLeft), (26, Key::ArrowRight), (13, Key::NewLine), (21, Key::Char('1')), (20, Key::Char('2')), (16, Key::Char('3'))];
type Hw = Arc<Mutex<Panel>>;
const MW: usize = 132;
impl Panel {
    fn new(max: usize, part: usize) -> Panel {
        Panel { mem: vec![0x55; MW * MW * 2], dc: false, rst: true, light: false, select: true, reg: 0, args: vec![], pending: vec![], win: [0; 4], format: 0, scan: 0, awake: false, on: false, resets: 0, modes: vec![], opened: false, max, part, fail: usize::MAX, buttons: [true; 8], early: false, refused: 0 }
    }
    /// Stores the pixels that were sent.
    fn flush(&mut self) {
        if self.pending.is_empty() { return; }
        // Transfers that fail may come at any point.
        if self.refused > 0 { self.pending.clear(); return; }
        let p = std::mem::take(&mut self.pending);
        let [x1, x2, y1, y2] = self.win.map(|v| v as usize);
        rt::check(self.format == 5 && self.scan == 0x68 && self.resets == 1, "the panel is set up before it is written to");
        rt::check((x1 <= x2) & (y1 <= y2) & (x2 < MW) & (y2 < MW), "windows are within the panel");
        rt::check(p.len() == (x2 + 1 - x1) * (y2 + 1 - y1) * 2, "windows are filled exactly");
        let n = (x2 + 1 - x1) * 2;
        for (k, row) in p.chunks(n).enumerate() { let o = ((y1 + k) * MW + x1) * 2; self.mem[o..o + n].copy_from_slice(row); }
    }
    /// The pixel that is seen at a position.
    fn px(&self, x: usize, y: usize) -> [u8; 2] { let o = ((y + 2) * MW + x + 1) * 2; [self.mem[o], self.mem[o + 1]] }
    fn recv(&mut self, data: &[u8]) {
        if !self.dc {
            self.flush();
            for b in data {
                self.reg = *b; self.args.clear();
                match b { 0x11 => self.awake = true, 0x29 => { rt::check(self.awake, "the panel wakes up before it is turned on"); self.on = true } _ => () }
            }
        } else if self.reg == 0x2c { self.pending.extend_from_slice(data); }
        else {
            self.args.extend_from_slice(data);
            match (self.reg, self.args.len()) {
                (0x2a, 4) => { rt::check(self.args[0] == 0 && self.args[2] == 0, "coordinates of windows"); self.win[0] = self.args[1]; self.win[1] = self.args[3]; }
                (0x2b, 4) => { rt::check(self.args[0] == 0 && self.args[2] == 0, "coordinates of windows"); self.win[2] = self.args[1]; self.win[3] = self.args[3]; }
                (0x3a, 1) => self.format = self.args[0],
                (0x36, 1) => self.scan = self.args[0],
                _ => (),
            }
        }
    }
}
struct Wires(Hw);
impl Pins for Wires {
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any { self }
    fn setup(&mut self, p: Pin, m: PinMode) -> io::Result<()> { self.0.lock().unwrap().modes.push((p.0, m)); Ok(()) }
    fn clear(&mut self, _: Pin) -> io::Result<()> { Ok(()) }
    fn clear_all(&mut self) -> io::Result<()> { Ok(()) }
    fn read(&mut self, p: Pin) -> io::Result<bool> {
        let h = self.0.lock().unwrap();
        match BUTTONS.iter().position(|b| b.0 == p.0) { Some(k) => Ok(h.buttons[k]), None => Err(io::Error::other("no button")) }
    }
    fn write(&mut self, p: Pin, v: bool) -> io::Result<()> {
        let mut h = self.0.lock().unwrap();
        if !h.modes.contains(&(p.0, PinMode::Out)) { h.early = true; }
        match p.0 {
            8 => h.select = v,
            24 => h.light = v,
            25 => h.dc = v,
            27 => { if h.rst && !v { h.resets += 1; h.format = 0; h.scan = 0; h.awake = false; h.on = false; } h.rst = v; }
            _ => h.early = true,
        }
        Ok(())
    }
}
struct Bus(Hw);
impl io::Write for Bus {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut h = self.0.lock().unwrap();
        rt::check(buf.len() <= h.max, "transfers are not larger than the bus allows");
        if h.fail == 0 { h.refused += 1; return Err(io::Error::other("bus")); }
        h.fail = h.fail.saturating_sub((h.fail != usize::MAX) as usize);
        if h.select || !h.rst || !h.opened { h.early = true; }
        let n = buf.len().min(h.part);
        h.recv(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl SpiBus for Bus { fn max_size(&self) -> usize { self.0.lock().unwrap().max } }
/// A keyboard with some keys.
struct Kbd(VecDeque<Key>);
#[async_trait::async_trait(?Send)]
impl InputOps for Kbd {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> { Ok(self.0.pop_front()) }
    async fn read_key(&mut self) -> io::Result<Key> { match self.0.pop_front() { Some(k) => Ok(k), None => std::future::pending().await } }
}
fn signals() -> Sender<Signal> { let (t, r) = async_channel::unbounded(); std::mem::forget(r); t }
type Con = Rc<RefCell<dyn Console>>;
fn build(hw: &Hw, flags: &str, keys: &[Key]) -> io::Result<Con> {
    let h2 = hw.clone();
    let keys: VecDeque<Key> = keys.iter().copied().collect();
    let mut spec = ConsoleSpec::init(flags);
    let f = St7735sConsoleFactory::new(Wires(hw.clone()), move |bus, dev, speed, mode| { let ok = bus == 0 && dev == 0 && speed <= 15_000_000 && mode == SpiMode::Mode0; rt::check(ok, "the bus is opened as the panel requires"); h2.lock().unwrap().opened = true; Ok(Bus(h2.clone())) }, move |_| Ok(Kbd(keys)), &mut spec, &Fonts::all(), signals())?;
    spec.finish().map_err(|e| io::Error::other(e.to_string()))?;
    Box::new(f).build()
}
fn runtime() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap() }

fn rgb565(c: u8) -> [u8; 2] {
    let (r, g, b) = ansi_color_to_rgb(c);
    [(r & 0xf8) | (g >> 5), ((g << 3) & 0xe0) | (b >> 3)]
}

/// What must be seen.
struct Want { px: Vec<[u8; 2]>, font: &'static Font, cols: usize, rows: usize, cx: usize, cy: usize, fg: u8, bg: u8, shown: Option<(usize, usize, u8)>, visible: bool }
impl Want {
    fn new(font: &'static Font, fg: u8, bg: u8) -> Want {
        let (cols, rows) = (128 / font.glyph_size.width, 128 / font.glyph_size.height);
        let mut w = Want { px: vec![rgb565(bg); 128 * 128], font, cols, rows, cx: 0, cy: 0, fg, bg, shown: None, visible: true };
        w.cursor();
        w
    }
    fn cursor(&mut self) { self.shown = if self.visible && self.cx < self.cols { Some((self.cx, self.cy, self.fg)) } else { None }; }
    fn rect(&mut self, x1: i32, y1: i32, x2: i32, y2: i32, c: u8) { let c = rgb565(c); for y in y1.max(0)..=y2.min(127) { for x in x1.max(0)..=x2.min(127) { self.px[y as usize * 128 + x as usize] = c; } } }
    fn newline(&mut self) {
        self.cx = 0;
        if self.cy + 1 < self.rows { self.cy += 1; return; }
        let gh = self.font.glyph_size.height;
        let last = (self.rows - 1) * gh;
        for y in 0..last { for x in 0..128 { self.px[y * 128 + x] = self.px[(y + gh) * 128 + x]; } }
        let bg = self.bg;
        self.rect(0, last as i32, 127, 127, bg);
    }
    fn text(&mut self, s: &str) {
        let (gw, gh) = (self.font.glyph_size.width, self.font.glyph_size.height);
        for c in s.chars() {
            let c = if c.is_control() { ' ' } else if c > '~' { '?' } else { c };
            if self.cx == self.cols { self.newline(); }
            let g = &self.font.data[(c as usize - 32) * gh * self.font.stride..];
            let (fg, bg) = (rgb565(self.fg), rgb565(self.bg));
            for y in 0..gh { for x in 0..gw {
                let on = g[y * self.font.stride + x / 8] & (0x80 >> (x % 8)) != 0;
                self.px[(self.cy * gh + y) * 128 + self.cx * gw + x] = if on { fg } else { bg };
            } }
            self.cx += 1;
        }
    }
    fn compare(&self, hw: &Hw) {
        let h = hw.lock().unwrap();
        let (gw, gh) = (self.font.glyph_size.width, self.font.glyph_size.height);
        let mut bad = false;
        for y in 0..128 { for x in 0..128 {
            let c = match self.shown { Some((cx, cy, c)) if x / gw == cx && y / gh == cy => rgb565(c), _ => self.px[y * 128 + x] };
            bad |= h.px(x, y) != c;
        } }
        rt::check(!bad, "the panel shows the screen");
    }
}

const COORDS: [i16; 9] = [0, 127, 63, -1, 128, 1, 126, i16::MIN, i16::MAX];
const FONTS: [(&str, &Font); 3] = [("5x8", &FONT_5X8), ("16x16", &FONT_16X16), ("vga8x16", &FONT_VGA8X16)];

/// Sequences of operations. Case: the transfers, and the first operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_panel(case: u32) {
    let (deep, case) = (case >= 100, case as usize % 100);
    let (first, bus) = (case % 9, case / 9 % 4);
    let coord = || rt::pick(&COORDS[..if deep { 9 } else { 5 }]);
    let (max, part) = [(4096, 4096), (100, 100), (4096, 999), (7, 5)][bus];
    let hw: Hw = Arc::new(Mutex::new(Panel::new(max, part)));
    let r = runtime();
    let _g = r.enter();
    let c = build(&hw, "st7735s", &[]).unwrap();
    let mut c = c.borrow_mut();
    let mut w = Want::new(&FONT_5X8, 7, 0);
    {
        let mut h = hw.lock().unwrap();
        h.flush();
        rt::check(h.light && h.on && h.awake && !h.early, "the panel is turned on");
        rt::check(BUTTONS.iter().all(|b| h.modes.contains(&(b.0, PinMode::InPullUp))), "the buttons are set up");
    }
    let mut sync = true;
    for step in 0..2 {
        let op = if step == 0 { first } else if first < 3 && !deep { rt::pick(&[0, 3, 5, 8]) } else { rt::choose(9) };
        // What is drawn under the cursor goes away with it.
        if op < 3 { c.hide_cursor().unwrap(); w.visible = false; w.cursor(); }
        match op {
            0 => {
                let col = if first == 8 && bus == 0 || deep { rt::u8_() } else { rt::pick(&[9, 216]) };
                c.set_color(Some(col), None).unwrap();
                w.fg = col;
                let (x, y) = if step == 0 { (coord(), coord()) } else { rt::pick(&[(0, 127), (1, 63)]) };
                c.draw_pixel(PixelsXY::new(x, y)).unwrap();
                w.rect(x as i32, y as i32, if x < 128 { x as i32 } else { -1 }, if y < 128 { y as i32 } else { -1 }, col);
            }
            1 => {
                let (x1, x2) = if step == 0 { (coord(), coord()) } else { (3, 90) };
                c.draw_rect_filled(PixelsXY::new(x1, 3), PixelsXY::new(x2, 9)).unwrap();
                let fg = w.fg;
                if x1 == x2 { w.rect(x1 as i32, 3, x1 as i32, 9, fg); } else { w.rect(x1.min(x2) as i32, 3, x1.max(x2) as i32 - 1, 8, fg); }
            }
            2 => {
                let (y1, y2) = if step == 0 { (coord(), coord()) } else { (3, 90) };
                c.draw_line(PixelsXY::new(63, y1), PixelsXY::new(63, y2)).unwrap();
                let fg = w.fg;
                w.rect(63, y1.min(y2) as i32, 63, y1.max(y2) as i32, fg);
            }
            3 => { let t = rt::pick(&["a", "", "Hello, world! This line is longer than the screen is", "~\u{e9}\t"]); c.write(t).unwrap(); w.text(t); w.cursor(); }
            4 => { c.print("some text").unwrap(); w.text("some text"); w.newline(); w.cursor(); }
            5 => { c.clear(ClearType::All).unwrap(); let bg = w.bg; w.rect(0, 0, 127, 127, bg); w.cx = 0; w.cy = 0; w.cursor(); }
            6 => { let (x, y) = rt::pick(&[(24, 15), (0, 0), (7, 3)]); c.locate(CharsXY::new(x, y)).unwrap(); w.cx = x as usize; w.cy = y as usize; w.cursor(); }
            7 => { let b = rt::pick(&[1, 255]); c.set_color(None, Some(b)).unwrap(); w.fg = 7; w.bg = b; }
            _ => { sync = !sync; c.set_sync(sync).unwrap(); }
        }
        hw.lock().unwrap().flush();
        if sync { w.compare(&hw); }
    }
    if !sync { c.sync_now().unwrap(); hw.lock().unwrap().flush(); w.compare(&hw); }
    rt::check(!hw.lock().unwrap().early, "pins are used as they were set up");
    rt::cover("shown");
    rt::done();
}

/// Fonts and colors. Case: the font.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_fonts(case: u32) {
    let hw: Hw = Arc::new(Mutex::new(Panel::new(4096, 4096)));
    let r = runtime();
    let _g = r.enter();
    let name = ["5x8", "16x16", "vga8x16", "6x8", ""][case as usize % 5];
    let k = rt::choose(97);
    let (fg, bg) = if k > 0 && case < 3 { (Some("10"), Some("20")) } else { rt::pick(&[(None, None), (Some("15"), None), (None, Some("255")), (Some("0"), Some("7")), (Some("256"), None), (None, Some("-1")), (Some("x"), None), (None, Some(""))]) };
    let flags = format!("st7735s:font={}{}{}", name, fg.map(|v| format!(",fg_color={}", v)).unwrap_or_default(), bg.map(|v| format!(",bg_color={}", v)).unwrap_or_default());
    rt::log(&flags);
    let num = |v: Option<&str>, d: u8| match v { None => Some(d), Some(v) => v.parse::<u8>().ok() };
    let font = FONTS.iter().find(|f| f.0 == name);
    let c = build(&hw, &flags, &[]);
    let (f, b, font) = match (num(fg, 7), num(bg, 0), font) {
        (Some(f), Some(b), Some(font)) => (f, b, font.1),
        _ => { rt::check(c.is_err(), "bad settings are rejected"); rt::check(hw.lock().unwrap().modes.is_empty(), "nothing is touched if the settings are bad"); rt::cover("rejected"); rt::done() }
    };
    let c = match c { Ok(c) => c, Err(_) => rt::fail("accepted") };
    let mut c = c.borrow_mut();
    let mut w = Want::new(font, f, b);
    let (gw, gh) = (font.glyph_size.width, font.glyph_size.height);
    rt::check(c.size_chars().unwrap() == CharsXY::new((128 / gw) as u16, (128 / gh) as u16) && c.size_pixels().unwrap() == SizeInPixels::new(128, 128) && c.glyph_size().unwrap() == SizeInPixels::new(gw as u16, gh as u16), "the sizes are those of the panel and the font");
    let (x, y) = if k % 16 == 0 { (rt::choose(2) * (w.cols - 1), rt::choose(2) * (w.rows - 1)) } else { (w.cols - 1, 0) };
    if x + y > 0 { c.locate(CharsXY::new(x as u16, y as u16)).unwrap(); w.cx = x; w.cy = y; w.cursor(); }
    // Any characters.
    let mut t = String::new();
    t.push(match k { 95 => '\u{e9}', 96 => '\u{4}', k => (k as u8 + 32) as char });
    t.push_str("gW");
    c.write(&t).unwrap(); w.text(&t); w.cursor();
    hw.lock().unwrap().flush();
    w.compare(&hw);
    if k == 0 {
        // Resetting the colors uses those of the settings.
        c.set_color(Some(3), Some(4)).unwrap(); c.set_color(None, None).unwrap(); c.clear(ClearType::All).unwrap();
        let mut w = Want::new(font, f, b);
        c.print("x").unwrap(); w.text("x"); w.newline(); w.cursor();
        hw.lock().unwrap().flush();
        w.compare(&hw);
    }
    rt::cover("shown");
    rt::done();
}

/// Failures of the bus, and the end. Case: the operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_bus(case: u32) {
    let hw: Hw = Arc::new(Mutex::new(Panel::new(4096, 4096)));
    let r = runtime();
    let _g = r.enter();
    if case == 0 {
        // The panel cannot be set up unless every transfer works.
        let n = rt::choose(70);
        hw.lock().unwrap().fail = n;
        let c = build(&hw, "st7735s", &[]);
        rt::check(c.is_err() != worked(&hw), "failures to set up the panel are reported");
        rt::cover(if c.is_ok() { "worked" } else { "failed" });
        std::mem::forget(c);
        rt::done();
    }
    let c = build(&hw, "st7735s", &[]).unwrap();
    let n = rt::choose(20);
    hw.lock().unwrap().fail = n;
    let res = {
        let mut c = c.borrow_mut();
        match case {
            1 => c.print("hello"),
            2 => c.draw_pixel(PixelsXY::new(100, 100)),
            3 => c.draw_rect_filled(PixelsXY::new(3, 2), PixelsXY::new(500, 90)),
            4 => c.draw_circle(PixelsXY::new(60, 60), 8),
            5 => c.clear(ClearType::All),
            6 => c.enter_alt(),
            7 => { c.set_sync(false).unwrap(); c.write("hello").unwrap(); rt::check(hw.lock().unwrap().fail == n, "nothing is sent until it is asked for"); c.sync_now() }
            8 => c.bucket_fill(PixelsXY::new(70, 70)),
            _ => {
                hw.lock().unwrap().fail = usize::MAX;
                c.write("hello").unwrap();
                Ok(())
            }
        }
    };
    if case >= 9 {
        drop(c);
        let mut h = hw.lock().unwrap();
        h.flush();
        rt::check(!h.light && (0..128).all(|y| (0..128).all(|x| h.px(x, y) == [0, 0])), "the panel is blank and dark at the end");
        rt::cover("failed"); rt::cover("worked");
        rt::done();
    }
    rt::check(res.is_err() != worked(&hw), "failures of the bus are reported");
    rt::cover(if res.is_ok() { "worked" } else { "failed" });
    // The console can still be used.
    { let mut h = hw.lock().unwrap(); h.pending.clear(); h.fail = usize::MAX; h.refused = 0; }
    if !c.borrow_mut().set_sync(true).unwrap() { rt::cover("was off"); }
    c.borrow_mut().clear(ClearType::All).unwrap();
    hw.lock().unwrap().flush();
    Want::new(&FONT_5X8, 7, 0).compare(&hw);
    std::mem::forget(c);
    rt::done();
}
/// Whether the bus never failed.
fn worked(hw: &Hw) -> bool { hw.lock().unwrap().refused == 0 }

/// Buttons that are held down and keys that are typed. Case: how keys are asked for.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_buttons(case: u32) {
    let hw: Hw = Arc::new(Mutex::new(Panel::new(4096, 4096)));
    let r = runtime();
    let mut want: Vec<Key> = vec![];
    let nkeys = rt::choose(3);
    for k in 0..8 { let up = rt::choose(2) == 1; hw.lock().unwrap().buttons[k] = up; if !up { want.push(BUTTONS[k].1); } }
    let keys = &[Key::Char('x'), Key::Escape][..nkeys];
    r.block_on(async {
        let c = build(&hw, "st7735s", keys).unwrap();
        let mut got = vec![];
        if case == 1 {
            // Keys come before the buttons are looked at for the first time.
            for _ in 0..nkeys { got.push(c.borrow_mut().poll_key().await.unwrap().unwrap()); }
            rt::check(got == keys, "keys are read in order");
            rt::check(c.borrow_mut().poll_key().await.unwrap().is_none(), "there are no more keys");
            tokio::task::yield_now().await;
            for k in &want { rt::check(c.borrow_mut().poll_key().await.unwrap() == Some(*k), "buttons are the keys that they stand for"); }
            rt::check(c.borrow_mut().poll_key().await.unwrap().is_none(), "buttons are read once");
        } else {
            tokio::task::yield_now().await;
            let total = want.len() + nkeys;
            for _ in 0..total { got.push(if case == 0 { c.borrow_mut().poll_key().await.unwrap().unwrap() } else { c.borrow_mut().read_key().await.unwrap() }); }
            let b: Vec<Key> = got.iter().copied().filter(|k| !keys.contains(k)).collect();
            let k: Vec<Key> = got.iter().copied().filter(|k| keys.contains(k)).collect();
            rt::check(b == want, "buttons are the keys that they stand for");
            rt::check(k == keys, "keys are read in order");
            rt::check(c.borrow_mut().poll_key().await.unwrap().is_none(), "there are no more keys");
        }
        std::mem::forget(c);
    });
    rt::cover("read");
    rt::done();
}

rt::harness_main!(h_panel, h_fonts, h_bus, h_buttons);

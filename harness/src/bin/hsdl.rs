//! The console in a window: what the window shows, the sounds and what it makes of events. The
//! window and the program are two threads that take turns.
use endbasic_sdl::setup;
use endbasic_std::console::drawing;
use endbasic_std::console::graphics::{InputOps, RasterInfo, RasterOps};
use endbasic_std::console::*;
use endbasic_std::gfx::lcd::fonts::{Font, Fonts};
use endbasic_std::sound::{NoopAudioOps, Tone, Waveform};
use endbasic_std::Signal;
use sdl2::event::Event;
use sdl2::keyboard::{Keycode, Mod};
use sdl2::pixels::PixelFormatEnum;
use sdl2::world;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;
use std::time::Duration;

type Con = Rc<RefCell<dyn Console>>;
static mut ENDED: u8 = 0;
fn ended() -> u8 { unsafe { *std::ptr::addr_of!(ENDED) } }
/// The thread of the window.
extern "C" fn host(x: *mut u8) {
    let h = unsafe { Box::from_raw(x as *mut Box<dyn ConsoleHost>) };
    let r = (*h).run();
    unsafe { ENDED = if r.is_ok() { 1 } else { 2 }; }
    loop { rt::turn(); }
}
fn open(flags: &str) -> io::Result<(Con, async_channel::Receiver<Signal>)> {
    let (tx, rx) = async_channel::unbounded();
    let mut spec = ConsoleSpec::init(flags);
    let (h, f) = setup(&mut spec, tx, &Fonts::all())?;
    spec.finish().map_err(|e| io::Error::other(e.to_string()))?;
    rt::thread(host, Box::into_raw(Box::new(h)) as *mut u8);
    Ok((f.build()?, rx))
}

/// A window of which every pixel is what was asked for last.
struct Plain { w: i32, h: i32, font: &'static Font, px: Vec<u32>, color: u32, shown: Vec<u32>, presents: usize }
#[derive(Clone)]
struct Shared(Rc<RefCell<Plain>>);
impl Plain {
    fn set(&mut self, x: i32, y: i32, c: u32) { if x >= 0 && y >= 0 && x < self.w && y < self.h { self.px[(y * self.w + x) as usize] = c; } }
    fn get(&self, x: i32, y: i32) -> Option<u32> { if x >= 0 && y >= 0 && x < self.w && y < self.h { Some(self.px[(y * self.w + x) as usize]) } else { None } }
    fn fill(&mut self, x: i32, y: i32, w: i32, h: i32) { let c = self.color; for v in y.max(0)..(y + h).min(self.h) { for u in x.max(0)..(x + w).min(self.w) { self.set(u, v, c); } } }
    fn read(&self, xy: PixelsXY, s: SizeInPixels) -> Vec<Option<u32>> { let mut v = vec![]; for y in 0..s.height as i32 { for x in 0..s.width as i32 { v.push(self.get(xy.x as i32 + x, xy.y as i32 + y)); } } v }
    fn put(&mut self, xy: PixelsXY, s: SizeInPixels, d: &[Option<u32>]) { let mut k = 0; for y in 0..s.height as i32 { for x in 0..s.width as i32 { if let Some(c) = d[k] { self.set(xy.x as i32 + x, xy.y as i32 + y, c); } k += 1; } } }
}
impl RasterOps for Shared {
    type ID = (Vec<Option<u32>>, SizeInPixels);
    fn get_info(&self) -> RasterInfo { let p = self.0.borrow(); let s = SizeInPixels::new(p.w as u16, p.h as u16); RasterInfo { size_pixels: s, glyph_size: p.font.glyph_size.into(), size_chars: p.font.chars_in_area(s) } }
    fn set_draw_color(&mut self, c: RGB) { self.0.borrow_mut().color = (c.0 as u32) << 16 | (c.1 as u32) << 8 | c.2 as u32; }
    fn clear(&mut self) -> io::Result<()> { let mut p = self.0.borrow_mut(); let (w, h) = (p.w, p.h); p.fill(0, 0, w, h); Ok(()) }
    fn present_canvas(&mut self) -> io::Result<()> { let mut p = self.0.borrow_mut(); p.shown = p.px.clone(); p.presents += 1; Ok(()) }
    fn peek_pixel(&self, xy: PixelsXY) -> io::Result<Option<u8>> {
        Ok(self.0.borrow().get(xy.x as i32, xy.y as i32).and_then(|v| (0..=255u8).find(|c| { let r = ansi_color_to_rgb(*c); (r.0 as u32) << 16 | (r.1 as u32) << 8 | r.2 as u32 == v })))
    }
    fn read_pixels(&mut self, xy: PixelsXY, s: SizeInPixels) -> io::Result<Self::ID> { Ok((self.0.borrow().read(xy, s), s)) }
    fn put_pixels(&mut self, xy: PixelsXY, (d, s): &Self::ID) -> io::Result<()> { self.0.borrow_mut().put(xy, *s, d); Ok(()) }
    fn move_pixels(&mut self, a: PixelsXY, b: PixelsXY, s: SizeInPixels) -> io::Result<()> {
        let mut p = self.0.borrow_mut();
        let d = p.read(a, s);
        p.fill(a.x as i32, a.y as i32, s.width as i32, s.height as i32);
        p.put(b, s, &d);
        Ok(())
    }
    fn write_text(&mut self, xy: PixelsXY, text: &str) -> io::Result<()> { let f = self.0.borrow().font; drawing::draw_text(self, f, xy, text) }
    fn draw_circle(&mut self, c: PixelsXY, r: u16) -> io::Result<()> { drawing::draw_circle(self, c, r) }
    fn draw_circle_filled(&mut self, c: PixelsXY, r: u16) -> io::Result<()> { drawing::draw_circle_filled(self, c, r) }
    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        if a == b { return Ok(()); }
        let mut p = self.0.borrow_mut();
        let c = p.color;
        for (x, y) in sdl2::render::line((a.x as i32, a.y as i32), (b.x as i32, b.y as i32)) { p.set(x, y, c); }
        Ok(())
    }
    fn draw_pixel(&mut self, a: PixelsXY) -> io::Result<()> { let mut p = self.0.borrow_mut(); let c = p.color; p.set(a.x as i32, a.y as i32, c); Ok(()) }
    fn draw_poly(&mut self, v: &[PixelsXY]) -> io::Result<()> { drawing::draw_poly(self, v) }
    fn draw_poly_filled(&mut self, v: &[PixelsXY]) -> io::Result<()> { drawing::draw_poly_filled(self, v) }
    fn draw_rect(&mut self, a: PixelsXY, s: SizeInPixels) -> io::Result<()> {
        let mut p = self.0.borrow_mut();
        let (x, y, w, h) = (a.x as i32, a.y as i32, s.width as i32, s.height as i32);
        p.fill(x, y, w, 1); p.fill(x, y + h - 1, w, 1); p.fill(x, y, 1, h); p.fill(x + w - 1, y, 1, h);
        Ok(())
    }
    fn draw_rect_filled(&mut self, a: PixelsXY, s: SizeInPixels) -> io::Result<()> { self.0.borrow_mut().fill(a.x as i32, a.y as i32, s.width as i32, s.height as i32); Ok(()) }
    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> { drawing::draw_tri(self, a, b, c) }
    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> { drawing::draw_tri_filled(self, a, b, c) }
}
struct NoKeys;
#[async_trait::async_trait(?Send)]
impl InputOps for NoKeys {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> { Ok(None) }
    async fn read_key(&mut self) -> io::Result<Key> { std::future::pending().await }
}
fn plain(w: i32, h: i32, font: &str, fg: Option<u8>, bg: Option<u8>) -> (GraphicsConsole<NoKeys, Shared, NoopAudioOps>, Shared) {
    let s = Shared(Rc::new(RefCell::new(Plain { w, h, font: Fonts::all().get(font).unwrap(), px: vec![0; (w * h) as usize], color: 0, shown: vec![], presents: 0 })));
    (GraphicsConsole::new(NoKeys, s.clone(), NoopAudioOps, fg, bg).unwrap(), s)
}

const OPS: usize = 30;
fn xy(x: i16, y: i16) -> PixelsXY { PixelsXY::new(x, y) }
/// Does one operation and tells its result.
fn op(c: &mut dyn Console, k: usize) -> String {
    let tri = [xy(2, 3), xy(40, 9), xy(7, -4)];
    let u = |r: io::Result<()>| format!("{:?}", r.map_err(|e| (e.kind(), e.to_string())));
    match k {
        0 => u(c.clear(ClearType::All)),
        1 => u(c.clear(ClearType::CurrentLine)),
        2 => u(c.clear(ClearType::PreviousChar)),
        3 => u(c.clear(ClearType::UntilNewLine)),
        4 => u(c.set_color(Some(9), Some(12))),
        5 => u(c.set_color(None, Some(200))),
        6 => u(c.set_color(Some(3), None)),
        7 => u(c.enter_alt()),
        8 => u(c.leave_alt()),
        9 => u(c.hide_cursor()),
        10 => u(c.show_cursor()),
        11 => u(c.locate(CharsXY::new(3, 1))),
        12 => u(c.locate(CharsXY::new(0, 0))),
        13 => { let r = c.locate(CharsXY::new(4, 0)); u(r.and_then(|_| c.move_within_line(-3))) }
        14 => { let r = c.locate(CharsXY::new(1, 1)); u(r.and_then(|_| c.move_within_line(2))) }
        15 => u(c.print("a\x07b\u{e9}")),
        16 => u(c.print("")),
        17 => u(c.print("wrapped text")),
        18 => u(c.write("x\n\x1by")),
        19 => u(c.draw_pixel(xy(31, 0))),
        20 => u(c.draw_line(xy(-5, 2), xy(12, 19))),
        21 => u(c.draw_rect(xy(30, 18), xy(-3, 4))),
        22 => u(c.draw_rect_filled(xy(5, 5), xy(9, 25))),
        23 => u(c.draw_circle(xy(10, 10), 6)) + &u(c.draw_circle_filled(xy(30, 1), 3)),
        24 => u(c.draw_tri(tri[0], tri[1], tri[2])) + &u(c.draw_tri_filled(xy(20, 12), xy(28, 12), xy(24, 19))),
        25 => u(c.draw_poly(&[xy(1, 1), xy(9, 1), xy(9, 9), xy(5, 5)])) + &u(c.draw_poly_filled(&[xy(11, 1), xy(19, 1), xy(19, 9), xy(15, 5)])),
        26 => u(c.bucket_fill(xy(31, 19))),
        27 => format!("{:?}", c.set_sync(false).map_err(|e| e.kind())),
        28 => format!("{:?}", c.set_sync(true).map_err(|e| e.kind())),
        _ => u(c.sync_now()),
    }
}
fn same_window(s: &Shared) {
    let p = s.0.borrow();
    rt::check(world().shown.len() == p.shown.len(), "the window has the size of the console");
    let mut same = true;
    for (a, b) in world().shown.iter().zip(&p.shown) { same &= a == b; }
    rt::check(same, "the window shows what the console was asked to show");
}

/// Sequences of operations. Case: the first one and, from 100 on, longer sequences.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_window(case: u32) {
    let k = case as usize % 100;
    world().format = [PixelFormatEnum::RGB888, PixelFormatEnum::RGB24, PixelFormatEnum::BGR888][k % 3];
    let (fg, bg) = [(None, None), (Some(7), Some(4))][k % 2];
    let flags = ["graphics:resolution=32x20,font=5x8", "graphics:resolution=32x20,font=5x8,fg_color=7,bg_color=4"][k % 2];
    let (c, _rx) = open(flags).unwrap();
    let mut c = std::mem::ManuallyDrop::new(c);
    let (mut r, s) = plain(32, 20, "5x8", fg, bg);
    same_window(&s);
    let c = std::rc::Rc::get_mut(&mut *c).unwrap().get_mut();
    rt::check(c.size_chars().unwrap() == CharsXY::new(6, 2) && c.size_pixels().unwrap().width == 32 && c.size_pixels().unwrap().height == 20 && c.glyph_size().unwrap().width == 5, "the sizes are those of the window");
    let second = rt::choose(OPS);
    let third = if case >= 100 { rt::choose(OPS) } else { rt::pick(&[4, 8, 17, 18, 23, 28]) };
    let last = rt::pick(&[15usize, 13]);
    for k in [k, second, third, last] {
        rt::log(&k.to_string());
        let (a, b) = (op(c, k), op(&mut r, k));
        rt::check(a == b, "operations succeed if and only if they can be done");
        rt::check(c.color() == r.color(), "the colors are the last ones that were set");
        same_window(&s);
    }
    let at = rt::pick(&[xy(0, 0), xy(31, 19), xy(32, 0), xy(0, -1), xy(7, 3)]);
    rt::check(c.peek_pixel(at).unwrap() == r.peek_pixel(at).unwrap(), "pixels are those of the console");
    rt::check(c.is_interactive(), "windows are interactive");
    rt::cover("done");
}

/// Any event becomes the key that it stands for. Case: the event.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_events(case: u32) {
    let (c, rx) = open("graphics:resolution=16x16,font=5x8").unwrap();
    let mut c = std::mem::ManuallyDrop::new(c);
    let c = std::rc::Rc::get_mut(&mut *c).unwrap().get_mut();
    rt::check(world().text_input, "text can be typed");
    let e = |keycode, keymod, repeat| Event::KeyDown { timestamp: 1, window_id: 1, keycode, scancode: None, keymod, repeat };
    let mut want = vec![];
    match case {
        0 | 1 => {
            // Every key with any modifiers.
            let (code, mods) = (rt::u32_(), rt::u16_());
            if case == 1 { rt::assume((code >= 97) & (code <= 122)); }
            world().events.push_back(e(Keycode::from_i32(code as i32), Mod::from_bits_truncate(mods), rt::bool_()));
            let ctrl = mods & 0xc0 != 0;
            let mut k = None;
            for (v, needs, x) in [(97u32, true, Key::Home), (98, true, Key::ArrowLeft), (99, true, Key::Interrupt), (100, true, Key::EofOrDelete), (101, true, Key::End), (102, true, Key::ArrowRight), (106, true, Key::NewLine), (109, true, Key::NewLine), (110, true, Key::ArrowDown), (112, true, Key::ArrowUp),
                (8, false, Key::Backspace), (127, false, Key::Delete), (1 << 30 | 77, false, Key::End), (27, false, Key::Escape), (1 << 30 | 74, false, Key::Home), (13, false, Key::NewLine), (9, false, Key::Tab),
                (1 << 30 | 81, false, Key::ArrowDown), (1 << 30 | 80, false, Key::ArrowLeft), (1 << 30 | 79, false, Key::ArrowRight), (1 << 30 | 82, false, Key::ArrowUp), (1 << 30 | 78, false, Key::PageDown), (1 << 30 | 75, false, Key::PageUp)] {
                if code == v && (ctrl || !needs) { k = Some(x); }
            }
            want.extend(k);
        }
        2 => {
            // Any character.
            let u = rt::u32_();
            rt::assume((u >= 32) & (u < 0x11_0000));
            let u = if u < 127 { u } else { rt::pick(&[0xe9, 0x20ac, 0x1f600, 0x10ffff]) };
            let ch = char::from_u32(rt::conc(u as u64) as u32).unwrap();
            let mut text = String::from(ch);
            if rt::choose(2) == 1 { text.push('z'); }
            world().events.push_back(Event::TextInput { timestamp: 1, window_id: 1, text: text.clone() });
            want.push(Key::Char(ch));
        }
        3 => {
            // Nothing that is not a key.
            let k = Some(Keycode::A);
            world().events.push_back(rt::pick(&[0, 1, 2, 3, 4]).into_event(k));
        }
        4 => {
            world().events.push_back(Event::Quit { timestamp: 0 });
            want.push(Key::EofOrDelete);
        }
        _ => {
            // Several, in order, while the console works.
            for _ in 0..3 {
                match rt::choose(4) {
                    0 => { world().events.push_back(e(Some(Keycode::C), Mod::LCTRLMOD | Mod::CAPSMOD, false)); want.push(Key::Interrupt); }
                    1 => { world().events.push_back(Event::TextInput { timestamp: 1, window_id: 1, text: "q".into() }); want.push(Key::Char('q')); }
                    2 => { world().events.push_back(e(Some(Keycode::Up), Mod::NOMOD, true)); want.push(Key::ArrowUp); }
                    _ => { world().events.push_back(Event::MouseMotion { timestamp: 1, window_id: 1, x: 3, y: 4 }); }
                }
                match rt::choose(3) { 0 => rt::turn(), 1 => c.print("a").unwrap(), _ => () }
            }
        }
    }
    let breaks = want.iter().filter(|k| **k == Key::Interrupt).count();
    let n = want.len();
    let wait = n > 0 && rt::choose(2) == 1;
    let mut got = vec![];
    if wait { for _ in 0..n { got.push(rt::block_on(c.read_key()).unwrap()); } }
    for _ in 0..5 { rt::turn(); }
    while let Some(k) = rt::block_on(c.poll_key()).unwrap() { got.push(k); }
    rt::check(got == want, "every key that is pressed is reported once");
    let mut sig = 0;
    while rx.try_recv().is_ok() { sig += 1; }
    rt::check(sig == breaks, "CTRL+C interrupts the program");
    if n > 0 { rt::cover("keys"); } else { rt::cover("nothing"); }
}
trait IntoEvent { fn into_event(self, k: Option<Keycode>) -> Event; }
impl IntoEvent for usize {
    fn into_event(self, k: Option<Keycode>) -> Event {
        match self {
            0 => Event::KeyUp { timestamp: 0, window_id: 0, keycode: k, scancode: None, keymod: Mod::LCTRLMOD, repeat: false },
            1 => Event::Window { timestamp: 0, window_id: 0 },
            2 => Event::MouseMotion { timestamp: 0, window_id: 0, x: 1, y: 1 },
            3 => Event::TextEditing { timestamp: 0, window_id: 0, text: "a".into(), start: 0, length: 1 },
            _ => Event::KeyDown { timestamp: 0, window_id: 0, keycode: None, scancode: None, keymod: Mod::NOMOD, repeat: false },
        }
    }
}

/// Tones are played as they are asked for. Case: the frequency.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_tone(case: u32) {
    let (c, _rx) = open("graphics:resolution=16x16,font=5x8").unwrap();
    let mut c = std::mem::ManuallyDrop::new(c);
    let c = std::rc::Rc::get_mut(&mut *c).unwrap().get_mut();
    let f = [0u32, 1, 440, 441, 1000, 22050, 44100, u32::MAX][case as usize];
    for _ in 0..2 {
        let ns = rt::pick(&[0u64, 11_000, 12_000, 1_000_000, 2_500_000, 22_675]);
        world().played.clear();
        let fail = rt::choose(3) as u32;
        world().fail = fail;
        let r = rt::block_on(c.play_tone(Tone { frequency_hz: f, duration: Duration::from_nanos(ns), waveform: Waveform::Square }));
        let failed = fail > 0 && world().fail == 0;
        world().fail = 0;
        let n = (ns * 441 + 5_000_000) / 10_000_000;
        rt::check(world().quiet, "sounds end");
        if f == 0 { rt::check(r.is_err(), "tones have a frequency"); rt::check(world().played.is_empty(), "nothing else is played"); continue; }
        rt::check(r.is_ok() == !failed, "sounds are played or reported");
        if failed || n == 0 { rt::check(world().played.is_empty(), "nothing else is played"); continue; }
        rt::check(world().played.len() == 1, "tones are played once");
        let (rate, v) = &world().played[0];
        rt::check(*rate == 44100 && v.len() as u64 == n, "tones last as long as they should");
        // The sign of the wave changes twice per period.
        for (k, x) in v.iter().enumerate() {
            let half = (2 * k as u64 * f as u64) / 44100;
            let exact = (2 * k as u64 * f as u64) % 44100 == 0;
            rt::check((*x > 0) == (half % 2 == 0) || exact && k > 0, "tones have their frequency");
            rt::check(*x != 0 && x.abs() == v[0].abs(), "tones have one volume");
        }
        rt::cover("played");
    }
}

/// The window that is opened. Case: the options.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_open(case: u32) {
    let all: [(&str, Option<(&str, (u32, u32), &str)>); 16] = [
        ("graphics:", Some(("centered", (800, 600), "vga8x16"))),
        ("graphics:resolution=24x33", Some(("centered", (24, 33), "vga8x16"))),
        ("graphics:resolution=24x33fs,font=5x8", Some(("fullscreen", (24, 33), "5x8"))),
        ("graphics:resolution=fs,font=16x16", Some(("desktop", (0, 0), "16x16"))),
        ("graphics:font=5x9", None),
        ("graphics:resolution=0x5", None),
        ("graphics:resolution=5", None),
        ("graphics:fg_color=256", None),
        ("graphics:bg_color=-1", None),
        ("graphics:bg_color=x", None),
        ("graphics:other", None),
        ("graphics:other=1", None),
        ("graphics:resolution=3000000000x5", None),
        ("graphics:resolution=5x3000000000", None),
        ("graphics:resolution=20x20,fg_color=0,bg_color=255,font=5x8", Some(("centered", (20, 20), "5x8"))),
        ("graphics:resolution=7x7,font=5x8", Some(("centered", (7, 7), "5x8"))),
    ];
    let (flags, want) = all[case as usize];
    rt::log(flags);
    // The system may choose another size.
    if case == 0 { world().drawable = Some((40, 40)); }
    if case == 3 || rt::choose(2) == 1 { world().drawable = Some((36, 50)); }
    let fail = if want.is_some() { rt::choose(8) as u32 } else { 0 };
    world().fail = fail;
    let r = open(flags);
    let failed = fail > 0 && world().fail == 0;
    world().fail = 0;
    rt::check(r.is_ok() == (want.is_some() && !failed), "windows open if they can, with the options that were given");
    let Ok((c, _rx)) = r else {
        if failed { rt::check(r.err().unwrap().to_string().contains("the device was lost"), "failures are reported"); rt::check(ended() == 1, "the thread of the window ends"); rt::cover("failed"); }
        return;
    };
    let (mode, size, font) = want.unwrap();
    let (w, h) = world().drawable.unwrap_or(size);
    rt::check(world().mode == mode && world().size == (w, h), "the window is the one asked for");
    let g = Fonts::all().get(font).unwrap().glyph_size;
    let (cw, ch) = ((w as usize / g.width) as u16, (h as usize / g.height) as u16);
    {
        let c = c.borrow();
        rt::check(c.size_pixels().unwrap() == SizeInPixels::new(w as u16, h as u16) && c.size_chars().unwrap() == CharsXY::new(cw, ch), "the sizes are those of the window");
    }
    rt::check(world().title.starts_with("EndBASIC") && world().title.contains(&format!("{}x{} pixels", w, h)) && world().title.contains(&format!("{}x{} chars", cw, ch)), "the title tells the sizes");
    let (fg, bg) = if case == 14 { (Some(0), Some(255)) } else { (None, None) };
    let (_r, s) = plain(w as i32, h as i32, font, fg, bg);
    same_window(&s);
    drop(c);
    rt::turn();
    rt::check(ended() == 1, "the thread of the window ends with the console");
    rt::cover("opened");
}

/// Calls that fail while the console works are reported and end nothing. Case: the operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_failing(case: u32) {
    let (c, _rx) = open("graphics:resolution=32x20,font=5x8").unwrap();
    let mut c = std::mem::ManuallyDrop::new(c);
    let c = std::rc::Rc::get_mut(&mut *c).unwrap().get_mut();
    let k = case as usize;
    if k == 8 { c.enter_alt().unwrap(); }
    if rt::choose(2) == 1 { c.locate(CharsXY::new(0, 1)).unwrap(); }
    let n = rt::pick(&[1u32, 2, 3, 4, 5, 9]);
    world().fail = n;
    let r = op(c, k);
    let failed = world().fail == 0;
    world().fail = 0;
    rt::log(&r);
    rt::check(r.contains("Err") == failed, "operations succeed if and only if they can be done");
    // Everything goes on.
    rt::check(c.size_chars().unwrap() == CharsXY::new(6, 2), "the console goes on");
    c.set_sync(true).unwrap();
    c.clear(ClearType::All).unwrap();
    world().shown.clear();
    c.print("ok").unwrap();
    rt::check(!world().shown.is_empty() && ended() == 0, "the console goes on");
    if failed { rt::cover("failed"); }
}

rt::harness_main!(h_window, h_events, h_tone, h_open, h_failing);

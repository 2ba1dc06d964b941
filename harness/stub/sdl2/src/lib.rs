//! Stand-in for the SDL library with the interface that the console uses. Surfaces are pixels in
//! memory, the window remembers what it shows, events are those that were put in the queue, and
//! the audio queue remembers what was played. Any call that may fail can be made to fail.
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

/// What is outside of the program.
pub struct World {
    /// Size of the drawable area of the window, if it is not the one asked for.
    pub drawable: Option<(u32, u32)>,
    pub format: pixels::PixelFormatEnum,
    pub events: VecDeque<event::Event>,
    /// Number of the fallible call from now on that fails; zero is none.
    pub fail: u32,
    /// What the window shows and how many times that was changed.
    pub shown: Vec<u32>, pub size: (u32, u32), pub presents: usize,
    pub title: String, pub mode: &'static str, pub text_input: bool,
    pub played: Vec<(i32, Vec<i16>)>, pub quiet: bool,
}
struct Cell(std::cell::UnsafeCell<Option<World>>);
// Harnesses have only one real thread.
unsafe impl Sync for Cell {}
static WORLD: Cell = Cell(std::cell::UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD.0.get() }.get_or_insert_with(|| World { drawable: None, format: pixels::PixelFormatEnum::RGB888, events: VecDeque::new(), fail: 0, shown: vec![], size: (0, 0), presents: 0, title: String::new(), mode: "", text_input: false, played: vec![], quiet: true })
}
fn may_fail() -> Result<(), String> {
    let w = world();
    if w.fail > 0 { w.fail -= 1; if w.fail == 0 { return Err("the device was lost".into()); } }
    Ok(())
}
extern "C" { fn symex_turn(); }

pub fn init() -> Result<Sdl, String> { may_fail()?; Ok(Sdl(())) }
#[derive(Clone)]
pub struct Sdl(());
pub struct EventPump(());
impl Sdl {
    pub fn event_pump(&self) -> Result<EventPump, String> { may_fail()?; Ok(EventPump(())) }
    pub fn video(&self) -> Result<VideoSubsystem, String> { may_fail()?; Ok(VideoSubsystem(())) }
    pub fn audio(&self) -> Result<AudioSubsystem, String> { may_fail()?; Ok(AudioSubsystem(())) }
    pub fn event(&self) -> Result<EventSubsystem, String> { Ok(EventSubsystem(())) }
}
impl EventPump {
    /// The other thread may go on whenever this one looks for events.
    pub fn poll_event(&mut self) -> Option<event::Event> { unsafe { symex_turn() }; world().events.pop_front() }
    pub fn poll_iter(&mut self) -> impl Iterator<Item = event::Event> + '_ { std::iter::from_fn(move || world().events.pop_front()) }
    pub fn wait_event_timeout(&mut self, _ms: u32) -> Option<event::Event> { self.poll_event() }
}
pub struct EventSubsystem(());
impl EventSubsystem { pub fn push_event(&self, e: event::Event) -> Result<(), String> { world().events.push_back(e); Ok(()) } }
#[derive(Clone)]
pub struct VideoSubsystem(());
pub struct TextInputUtil(());
impl TextInputUtil { pub fn start(&self) { world().text_input = true } pub fn stop(&self) { world().text_input = false } }
impl VideoSubsystem {
    pub fn text_input(&self) -> TextInputUtil { TextInputUtil(()) }
    pub fn window(&self, title: &str, width: u32, height: u32) -> video::WindowBuilder { video::WindowBuilder { title: title.to_owned(), size: (width, height), mode: "" } }
}
pub struct AudioSubsystem(());
impl AudioSubsystem {
    pub fn open_queue<'a, C, D: Into<Option<&'a str>>>(&self, _device: D, spec: &audio::AudioSpecDesired) -> Result<audio::AudioQueue<C>, String> {
        may_fail()?;
        if spec.channels != Some(1) { return Err("only one channel".into()); }
        Ok(audio::AudioQueue { freq: spec.freq.unwrap_or(48000), q: std::cell::RefCell::new(audio::Queue { queued: vec![], left: 0, playing: false, waits: 0 }), t: PhantomData })
    }
}

pub mod audio {
    use super::*;
    pub struct AudioSpecDesired { pub freq: Option<i32>, pub channels: Option<u8>, pub samples: Option<u16> }
    pub(crate) struct Queue { pub(crate) queued: Vec<i16>, pub(crate) left: u32, pub(crate) playing: bool, pub(crate) waits: u32 }
    pub struct AudioQueue<T> { pub(crate) freq: i32, pub(crate) q: std::cell::RefCell<Queue>, pub(crate) t: PhantomData<T> }
    impl AudioQueue<i16> {
        pub fn clear(&self) { let mut s = self.q.borrow_mut(); s.queued.clear(); s.left = 0; }
        pub fn queue_audio(&self, data: &[i16]) -> Result<(), String> {
            may_fail()?;
            let mut s = self.q.borrow_mut();
            s.queued.extend(data);
            s.left += data.len() as u32 * 2;
            Ok(())
        }
        pub fn resume(&self) { self.q.borrow_mut().playing = true; world().quiet = false; }
        pub fn pause(&self) { self.q.borrow_mut().playing = false; world().quiet = true; }
        /// What is left becomes less while it is played.
        pub fn size(&self) -> u32 {
            let mut s = self.q.borrow_mut();
            s.waits += 1;
            assert!(s.playing || s.left == 0 || s.waits < 1000, "the sound never ends");
            let now = s.left;
            if s.playing && s.left > 0 { s.left -= (s.left / 2).max(1); if s.left == 0 { world().played.push((self.freq, std::mem::take(&mut s.queued))); } }
            now
        }
    }
}

pub mod pixels {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum PixelFormatEnum { RGB24, BGR24, RGB888, BGR888, ARGB8888 }
    impl PixelFormatEnum {
        pub fn byte_size_per_pixel(self) -> usize { match self { PixelFormatEnum::RGB24 | PixelFormatEnum::BGR24 => 3, _ => 4 } }
        pub fn byte_size_of_pixels(self, n: usize) -> usize { n * self.byte_size_per_pixel() }
        pub(crate) fn put(self, v: u32, to: &mut Vec<u8>) {
            let (r, g, b) = ((v >> 16) as u8, (v >> 8) as u8, v as u8);
            match self {
                PixelFormatEnum::RGB24 => to.extend([r, g, b]),
                PixelFormatEnum::BGR24 => to.extend([b, g, r]),
                PixelFormatEnum::RGB888 => to.extend([b, g, r, 0]),
                PixelFormatEnum::ARGB8888 => to.extend([b, g, r, 255]),
                PixelFormatEnum::BGR888 => to.extend([r, g, b, 0]),
            }
        }
        pub(crate) fn get(self, p: &[u8]) -> u32 {
            let c = |r: u8, g: u8, b: u8| (r as u32) << 16 | (g as u32) << 8 | b as u32;
            match self { PixelFormatEnum::RGB24 | PixelFormatEnum::BGR888 => c(p[0], p[1], p[2]), _ => c(p[2], p[1], p[0]) }
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Color { pub r: u8, pub g: u8, pub b: u8, pub a: u8 }
    impl Color {
        #[allow(non_snake_case)]
        pub const fn RGB(r: u8, g: u8, b: u8) -> Color { Color { r, g, b, a: 255 } }
        #[allow(non_snake_case)]
        pub const fn RGBA(r: u8, g: u8, b: u8, a: u8) -> Color { Color { r, g, b, a } }
        pub fn rgb(self) -> (u8, u8, u8) { (self.r, self.g, self.b) }
        pub(crate) fn raw(self) -> u32 { (self.r as u32) << 16 | (self.g as u32) << 8 | self.b as u32 }
    }
    impl From<(u8, u8, u8)> for Color { fn from(v: (u8, u8, u8)) -> Color { Color::RGB(v.0, v.1, v.2) } }
}

pub mod rect {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Point { pub x: i32, pub y: i32 }
    impl Point { pub fn new(x: i32, y: i32) -> Point { Point { x, y } } pub fn x(self) -> i32 { self.x } pub fn y(self) -> i32 { self.y } }
    impl From<(i32, i32)> for Point { fn from(v: (i32, i32)) -> Point { Point::new(v.0, v.1) } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Rect { x: i32, y: i32, w: u32, h: u32 }
    impl Rect {
        /// Rectangles have at least one pixel, as in the library.
        pub fn new(x: i32, y: i32, w: u32, h: u32) -> Rect { let m = i32::MAX as u32 / 2; Rect { x: x.clamp(-(m as i32), m as i32), y: y.clamp(-(m as i32), m as i32), w: w.clamp(1, m), h: h.clamp(1, m) } }
        pub fn x(&self) -> i32 { self.x }
        pub fn y(&self) -> i32 { self.y }
        pub fn width(&self) -> u32 { self.w }
        pub fn height(&self) -> u32 { self.h }
        pub fn size(&self) -> (u32, u32) { (self.w, self.h) }
        /// The part that is in an area of this size, as start and end.
        pub(crate) fn within(&self, w: u32, h: u32) -> (i32, i32, i32, i32) {
            let (x2, y2) = ((self.x as i64 + self.w as i64).min(w as i64), (self.y as i64 + self.h as i64).min(h as i64));
            (self.x.max(0), self.y.max(0), x2 as i32, y2 as i32)
        }
    }
}

pub mod surface {
    use super::*;
    use pixels::{Color, PixelFormatEnum};
    use rect::Rect;
    pub struct SurfaceRef { pub(crate) w: u32, pub(crate) h: u32, pub(crate) format: PixelFormatEnum, pub(crate) px: Vec<u32> }
    pub struct Surface<'a>(pub(crate) SurfaceRef, PhantomData<&'a ()>);
    pub struct SurfaceContext<'a>(PhantomData<&'a ()>);
    impl Deref for Surface<'_> { type Target = SurfaceRef; fn deref(&self) -> &SurfaceRef { &self.0 } }
    impl DerefMut for Surface<'_> { fn deref_mut(&mut self) -> &mut SurfaceRef { &mut self.0 } }
    impl<'a> Surface<'a> {
        pub fn new(w: u32, h: u32, format: PixelFormatEnum) -> Result<Surface<'static>, String> { may_fail()?; Ok(Surface(SurfaceRef { w, h, format, px: vec![0; (w * h) as usize] }, PhantomData)) }
        pub fn into_canvas(self) -> Result<render::Canvas<Surface<'a>>, String> { may_fail()?; Ok(render::Canvas { target: self, color: 0 }) }
    }
    impl SurfaceRef {
        pub fn width(&self) -> u32 { self.w }
        pub fn height(&self) -> u32 { self.h }
        pub fn size(&self) -> (u32, u32) { (self.w, self.h) }
        pub fn pixel_format_enum(&self) -> PixelFormatEnum { self.format }
        pub fn fill_rect<R: Into<Option<Rect>>>(&mut self, rect: R, color: Color) -> Result<(), String> {
            may_fail()?;
            self.fill(rect.into(), color.raw());
            Ok(())
        }
        pub(crate) fn fill(&mut self, rect: Option<Rect>, v: u32) {
            let (x1, y1, x2, y2) = rect.unwrap_or(Rect::new(0, 0, self.w, self.h)).within(self.w, self.h);
            for y in y1..y2 { for x in x1..x2 { self.px[y as usize * self.w as usize + x as usize] = v; } }
        }
        pub fn blit<A: Into<Option<Rect>>, B: Into<Option<Rect>>>(&self, src: A, dst: &mut SurfaceRef, to: B) -> Result<Option<Rect>, String> {
            may_fail()?;
            let s = src.into().unwrap_or(Rect::new(0, 0, self.w, self.h));
            let to = to.into();
            let (dx, dy) = to.map_or((0, 0), |r| (r.x(), r.y()));
            let (x1, y1, x2, y2) = s.within(self.w, self.h);
            for y in y1..y2 { for x in x1..x2 {
                let (u, v) = (x - s.x() + dx, y - s.y() + dy);
                if u >= 0 && v >= 0 && (u as u32) < dst.w && (v as u32) < dst.h { dst.px[v as usize * dst.w as usize + u as usize] = self.px[y as usize * self.w as usize + x as usize]; }
            } }
            Ok(to)
        }
    }
}

pub mod render {
    use super::*;
    use pixels::{Color, PixelFormatEnum};
    use rect::{Point, Rect};
    use surface::{Surface, SurfaceContext, SurfaceRef};
    pub struct Canvas<T> { pub(crate) target: T, pub(crate) color: u32 }
    pub type SurfaceCanvas<'s> = Canvas<Surface<'s>>;
    pub struct TextureCreator<T>(PixelFormatEnum, PhantomData<T>);
    pub struct Texture<'r> { w: u32, h: u32, format: PixelFormatEnum, px: Vec<u32>, l: PhantomData<&'r ()> }
    #[derive(Debug)]
    pub enum TextureValueError { WidthOverflows(u32), HeightOverflows(u32), WidthMustBeMultipleOfTwoForFormat(u32, PixelFormatEnum), SdlError(String) }
    impl std::fmt::Display for TextureValueError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { TextureValueError::SdlError(e) => write!(f, "SDL error: {}", e), e => write!(f, "{:?}", e) } } }
    impl std::error::Error for TextureValueError {}
    #[derive(Debug)]
    pub enum UpdateTextureError { PitchOverflows(usize), PitchMustBeMultipleOfTwoForFormat(usize, PixelFormatEnum), XMustBeMultipleOfTwoForFormat(i32, PixelFormatEnum), YMustBeMultipleOfTwoForFormat(i32, PixelFormatEnum), WidthMustBeMultipleOfTwoForFormat(u32, PixelFormatEnum), HeightMustBeMultipleOfTwoForFormat(u32, PixelFormatEnum), SdlError(String) }
    impl std::fmt::Display for UpdateTextureError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { UpdateTextureError::SdlError(e) => write!(f, "SDL error: {}", e), e => write!(f, "{:?}", e) } } }
    impl std::error::Error for UpdateTextureError {}
    impl<T> TextureCreator<T> {
        pub fn create_texture_static<F: Into<Option<PixelFormatEnum>>>(&self, format: F, w: u32, h: u32) -> Result<Texture<'_>, TextureValueError> {
            if w >= i32::MAX as u32 { return Err(TextureValueError::WidthOverflows(w)); }
            if h >= i32::MAX as u32 { return Err(TextureValueError::HeightOverflows(h)); }
            may_fail().map_err(TextureValueError::SdlError)?;
            Ok(Texture { w, h, format: format.into().unwrap_or(self.0), px: vec![0; (w * h) as usize], l: PhantomData })
        }
    }
    impl Texture<'_> {
        pub fn update<R: Into<Option<Rect>>>(&mut self, rect: R, data: &[u8], pitch: usize) -> Result<(), UpdateTextureError> {
            may_fail().map_err(UpdateTextureError::SdlError)?;
            let (x1, y1, x2, y2) = rect.into().unwrap_or(Rect::new(0, 0, self.w, self.h)).within(self.w, self.h);
            let n = self.format.byte_size_per_pixel();
            for y in y1..y2 { for x in x1..x2 { let at = (y - y1) as usize * pitch + (x - x1) as usize * n; self.px[y as usize * self.w as usize + x as usize] = self.format.get(&data[at..at + n]); } }
            Ok(())
        }
    }
    /// The pixels of a line.
    pub fn line(a: (i32, i32), b: (i32, i32)) -> Vec<(i32, i32)> {
        let (dx, dy) = ((b.0 - a.0).abs(), -(b.1 - a.1).abs());
        let (sx, sy) = (if a.0 < b.0 { 1 } else { -1 }, if a.1 < b.1 { 1 } else { -1 });
        let (mut x, mut y, mut e, mut v) = (a.0, a.1, dx + dy, vec![]);
        loop {
            v.push((x, y));
            if (x, y) == b { return v; }
            let e2 = 2 * e;
            if e2 >= dy { e += dy; x += sx; }
            if e2 <= dx { e += dx; y += sy; }
        }
    }
    impl<'s> Canvas<Surface<'s>> {
        pub fn texture_creator(&self) -> TextureCreator<SurfaceContext<'s>> { TextureCreator(self.target.format, PhantomData) }
        pub fn surface(&self) -> &SurfaceRef { &self.target }
        pub fn surface_mut(&mut self) -> &mut SurfaceRef { &mut self.target }
        pub fn set_draw_color<C: Into<Color>>(&mut self, c: C) { self.color = c.into().raw(); }
        pub fn draw_color(&self) -> Color { Color::RGB((self.color >> 16) as u8, (self.color >> 8) as u8, self.color as u8) }
        pub fn output_size(&self) -> Result<(u32, u32), String> { Ok((self.target.w, self.target.h)) }
        pub fn present(&mut self) {}
        pub fn clear(&mut self) { let c = self.color; self.target.fill(None, c); }
        fn dot(&mut self, x: i32, y: i32) { let c = self.color; let t = &mut self.target.0; if x >= 0 && y >= 0 && (x as u32) < t.w && (y as u32) < t.h { t.px[y as usize * t.w as usize + x as usize] = c; } }
        pub fn draw_point<P: Into<Point>>(&mut self, p: P) -> Result<(), String> { may_fail()?; let p = p.into(); self.dot(p.x, p.y); Ok(()) }
        pub fn draw_line<A: Into<Point>, B: Into<Point>>(&mut self, a: A, b: B) -> Result<(), String> {
            may_fail()?;
            let (a, b) = (a.into(), b.into());
            for (x, y) in line((a.x, a.y), (b.x, b.y)) { self.dot(x, y); }
            Ok(())
        }
        pub fn draw_rect(&mut self, r: Rect) -> Result<(), String> {
            may_fail()?;
            let (x2, y2) = (r.x() + r.width() as i32 - 1, r.y() + r.height() as i32 - 1);
            let c = self.color;
            for e in [Rect::new(r.x(), r.y(), r.width(), 1), Rect::new(r.x(), y2, r.width(), 1), Rect::new(r.x(), r.y(), 1, r.height()), Rect::new(x2, r.y(), 1, r.height())] { self.target.fill(Some(e), c); }
            Ok(())
        }
        pub fn fill_rect<R: Into<Option<Rect>>>(&mut self, r: R) -> Result<(), String> { may_fail()?; let c = self.color; self.target.fill(r.into(), c); Ok(()) }
        pub fn copy<A: Into<Option<Rect>>, B: Into<Option<Rect>>>(&mut self, t: &Texture<'_>, _src: A, dst: B) -> Result<(), String> {
            may_fail()?;
            let d = dst.into().unwrap_or(Rect::new(0, 0, self.target.w, self.target.h));
            assert!(d.size() == (t.w, t.h), "textures are not scaled");
            let (x1, y1, x2, y2) = d.within(self.target.w, self.target.h);
            let w = self.target.w as usize;
            for y in y1..y2 { for x in x1..x2 { self.target.px[y as usize * w + x as usize] = t.px[(y - d.y()) as usize * t.w as usize + (x - d.x()) as usize]; } }
            Ok(())
        }
        pub fn read_pixels<R: Into<Option<Rect>>>(&self, rect: R, format: PixelFormatEnum) -> Result<Vec<u8>, String> {
            may_fail()?;
            let r = rect.into().unwrap_or(Rect::new(0, 0, self.target.w, self.target.h));
            let (x1, y1, x2, y2) = r.within(self.target.w, self.target.h);
            if x1 >= x2 || y1 >= y2 { return Err("Can't read outside the current viewport".into()); }
            let mut v = Vec::with_capacity((r.width() * r.height()) as usize * format.byte_size_per_pixel());
            for y in 0..r.height() as i32 { for x in 0..r.width() as i32 {
                let (x, y) = (x + r.x(), y + r.y());
                format.put(if x >= x1 && x < x2 && y >= y1 && y < y2 { self.target.px[y as usize * self.target.w as usize + x as usize] } else { 0 }, &mut v);
            } }
            Ok(v)
        }
    }
}

pub mod video {
    use super::*;
    use surface::SurfaceRef;
    #[derive(Debug)]
    pub enum WindowBuildError { HeightOverflows(u32), WidthOverflows(u32), InvalidTitle(std::ffi::NulError), SdlError(String) }
    impl std::fmt::Display for WindowBuildError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { WindowBuildError::SdlError(e) => write!(f, "SDL error: {}", e), e => write!(f, "{:?}", e) } } }
    impl std::error::Error for WindowBuildError {}
    pub struct WindowBuilder { pub(crate) title: String, pub(crate) size: (u32, u32), pub(crate) mode: &'static str }
    impl WindowBuilder {
        pub fn fullscreen_desktop(&mut self) -> &mut Self { self.mode = "desktop"; self }
        pub fn fullscreen(&mut self) -> &mut Self { self.mode = "fullscreen"; self }
        pub fn position_centered(&mut self) -> &mut Self { self.mode = "centered"; self }
        pub fn build(&self) -> Result<Window, WindowBuildError> {
            if self.size.0 > i32::MAX as u32 { return Err(WindowBuildError::WidthOverflows(self.size.0)); }
            if self.size.1 > i32::MAX as u32 { return Err(WindowBuildError::HeightOverflows(self.size.1)); }
            may_fail().map_err(WindowBuildError::SdlError)?;
            let w = world();
            w.title = self.title.clone();
            w.mode = self.mode;
            w.size = w.drawable.unwrap_or(self.size);
            Ok(Window(()))
        }
    }
    pub struct Window(());
    pub struct WindowSurfaceRef<'a>(SurfaceRef, PhantomData<&'a ()>);
    impl Deref for WindowSurfaceRef<'_> { type Target = SurfaceRef; fn deref(&self) -> &SurfaceRef { &self.0 } }
    impl DerefMut for WindowSurfaceRef<'_> { fn deref_mut(&mut self) -> &mut SurfaceRef { &mut self.0 } }
    impl Window {
        pub fn raise(&mut self) {}
        pub fn show(&mut self) {}
        pub fn size(&self) -> (u32, u32) { world().size }
        pub fn drawable_size(&self) -> (u32, u32) { world().size }
        pub fn title(&self) -> &str { &world().title }
        pub fn set_title(&mut self, t: &str) -> Result<(), std::ffi::NulError> { std::ffi::CString::new(t)?; world().title = t.to_owned(); Ok(()) }
        pub fn window_pixel_format(&self) -> pixels::PixelFormatEnum { world().format }
        pub fn surface<'a>(&'a self, _e: &'a EventPump) -> Result<WindowSurfaceRef<'a>, String> {
            may_fail()?;
            let w = world();
            let px = if w.shown.is_empty() { vec![0; (w.size.0 * w.size.1) as usize] } else { w.shown.clone() };
            Ok(WindowSurfaceRef(SurfaceRef { w: w.size.0, h: w.size.1, format: w.format, px }, PhantomData))
        }
    }
    impl WindowSurfaceRef<'_> {
        pub fn update_window(&self) -> Result<(), String> { may_fail()?; let w = world(); w.shown = self.0.px.clone(); w.presents += 1; Ok(()) }
        pub fn finish(self) -> Result<(), String> { self.update_window() }
    }
}

pub mod keyboard {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct Keycode(i32);
    macro_rules! keys { ($($($n:ident)|+ = $v:expr;)*) => { #[allow(non_upper_case_globals)] impl Keycode { $($(pub const $n: Keycode = Keycode($v);)+)* } } }
    keys! {
        BACKSPACE | Backspace = 8; TAB | Tab = 9; RETURN | Return = 13; ESCAPE | Escape = 27; SPACE | Space = 32; DELETE | Delete = 127;
        A | a = 97; B | b = 98; C | c = 99; D | d = 100; E | e = 101; F | f = 102; G | g = 103; H | h = 104; I | i = 105; J | j = 106; K | k = 107; L | l = 108; M | m = 109;
        N | n = 110; O | o = 111; P | p = 112; Q | q = 113; R | r = 114; S | s = 115; T | t = 116; U | u = 117; V | v = 118; W | w = 119; X | x = 120; Y | y = 121; Z | z = 122;
        F1 = 1 << 30 | 58; INSERT | Insert = 1 << 30 | 73; HOME | Home = 1 << 30 | 74; PAGEUP | PageUp = 1 << 30 | 75; END | End = 1 << 30 | 77; PAGEDOWN | PageDown = 1 << 30 | 78;
        RIGHT | Right = 1 << 30 | 79; LEFT | Left = 1 << 30 | 80; DOWN | Down = 1 << 30 | 81; UP | Up = 1 << 30 | 82; KP_ENTER | KpEnter = 1 << 30 | 88;
    }
    impl Keycode { pub fn from_i32(v: i32) -> Option<Keycode> { Some(Keycode(v)) } pub fn into_i32(self) -> i32 { self.0 } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Mod(u16);
    impl Mod {
        pub const NOMOD: Mod = Mod(0);
        pub const LSHIFTMOD: Mod = Mod(1);
        pub const RSHIFTMOD: Mod = Mod(2);
        pub const LCTRLMOD: Mod = Mod(0x40);
        pub const RCTRLMOD: Mod = Mod(0x80);
        pub const LALTMOD: Mod = Mod(0x100);
        pub const RALTMOD: Mod = Mod(0x200);
        pub const LGUIMOD: Mod = Mod(0x400);
        pub const RGUIMOD: Mod = Mod(0x800);
        pub const NUMMOD: Mod = Mod(0x1000);
        pub const CAPSMOD: Mod = Mod(0x2000);
        pub fn bits(self) -> u16 { self.0 }
        pub fn is_empty(self) -> bool { self.0 == 0 }
        pub fn from_bits_truncate(v: u16) -> Mod { Mod(v) }
        pub fn intersects(self, o: Mod) -> bool { self.0 & o.0 != 0 }
        pub fn contains(self, o: Mod) -> bool { self.0 & o.0 == o.0 }
    }
    impl std::ops::BitOr for Mod { type Output = Mod; fn bitor(self, o: Mod) -> Mod { Mod(self.0 | o.0) } }
    impl std::ops::BitAnd for Mod { type Output = Mod; fn bitand(self, o: Mod) -> Mod { Mod(self.0 & o.0) } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Scancode { A }
}

pub mod event {
    use super::keyboard::{Keycode, Mod, Scancode};
    #[derive(Clone, PartialEq, Debug)]
    pub enum Event {
        Quit { timestamp: u32 },
        Window { timestamp: u32, window_id: u32 },
        KeyDown { timestamp: u32, window_id: u32, keycode: Option<Keycode>, scancode: Option<Scancode>, keymod: Mod, repeat: bool },
        KeyUp { timestamp: u32, window_id: u32, keycode: Option<Keycode>, scancode: Option<Scancode>, keymod: Mod, repeat: bool },
        TextEditing { timestamp: u32, window_id: u32, text: String, start: i32, length: i32 },
        TextInput { timestamp: u32, window_id: u32, text: String },
        MouseMotion { timestamp: u32, window_id: u32, x: i32, y: i32 },
        Unknown { timestamp: u32, type_: u32 },
    }
}

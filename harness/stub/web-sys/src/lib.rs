//! Stand-in for a page: its storage, canvas, sounds, timers and events, all of them in memory. Any
//! call that may fail can be made to fail. Rectangles and images change pixels; other shapes are
//! recorded, because pages may draw them as they please.
use js_sys::{Array, Function, Object};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use wasm_bindgen::{page_types, Clamped, JsValue};

#[derive(Clone, Debug, PartialEq)]
pub enum Seg { Move(f64, f64), Line(f64, f64), Arc(f64, f64, f64, f64, f64), Close }
#[derive(Clone, Debug, PartialEq)]
pub struct Shape { pub kind: &'static str, pub path: Vec<Seg>, pub color: u32 }
pub struct Sound { pub hz: f32, pub square: bool, pub connected: bool, pub start: Option<f64>, pub stop: Option<f64> }
pub struct World {
    pub storage: Vec<(String, String)>,
    /// Characters that fit in the storage.
    pub quota: usize,
    /// Number of the fallible call from now on that fails; zero is none.
    pub fail: u32,
    pub href: String,
    pub size: (u32, u32), pub px: Vec<u32>, pub fill: u32, pub stroke: u32, pub composite: String,
    pub path: Vec<Seg>, pub shapes: Vec<Shape>,
    pub frames: Vec<Function>, pub timers: Vec<(f64, Function)>, pub messages: Vec<(Rc<RefCell<Option<Function>>>, JsValue)>,
    pub sounds: Vec<Rc<RefCell<Sound>>>,
}
struct Globals(std::cell::UnsafeCell<Option<World>>);
unsafe impl Sync for Globals {}
static WORLD: Globals = Globals(std::cell::UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD.0.get() }.get_or_insert_with(|| World { storage: vec![], quota: usize::MAX, fail: 0, href: "https://repl.example/".into(), size: (0, 0), px: vec![], fill: 0, stroke: 0, composite: "source-over".into(), path: vec![], shapes: vec![], frames: vec![], timers: vec![], messages: vec![], sounds: vec![] })
}
fn may_fail() -> Result<(), JsValue> {
    let w = world();
    if w.fail > 0 { w.fail -= 1; if w.fail == 0 { return Err("the page is gone".into()); } }
    Ok(())
}
impl World {
    /// Does one thing that the page has to do, if there is any: messages go first, then frames and
    /// then the timer that is due first.
    pub fn turn(&mut self) -> bool {
        let did = self.turn1();
        js_sys::clock().turn = js_sys::clock().now;
        did
    }
    fn turn1(&mut self) -> bool {
        if !self.messages.is_empty() {
            let (f, v) = self.messages.remove(0);
            let f = f.borrow().clone();
            if let Some(f) = f { f.0.call(JsValue::Obj(Rc::new(v))); }
            return true;
        }
        if !self.frames.is_empty() {
            let f = self.frames.remove(0);
            js_sys::clock().now += 16.0;
            f.0.call(JsValue::Num(js_sys::clock().now));
            return true;
        }
        if let Some(i) = (0..self.timers.len()).min_by(|a, b| self.timers[*a].0.total_cmp(&self.timers[*b].0)) {
            let (at, f) = self.timers.remove(i);
            js_sys::clock().now = js_sys::clock().now.max(at);
            f.0.call(JsValue::Undefined);
            return true;
        }
        false
    }
}

page_types!(Window, Performance, Location, Storage, HtmlCanvasElement, CanvasRenderingContext2d, ContextAttributes2d, ImageData, AudioContext, AudioDestinationNode, AudioNode, AudioParam, OscillatorNode, MessageChannel, MessagePort, MessageEvent, InputEvent, KeyboardEvent, Document, Element, EventTarget);

pub fn window() -> Option<Window> { Some(Window(JsValue::Null)) }
impl Window {
    pub fn local_storage(&self) -> Result<Option<Storage>, JsValue> { may_fail()?; Ok(Some(Storage(JsValue::Null))) }
    pub fn performance(&self) -> Option<Performance> { Some(Performance(JsValue::Null)) }
    pub fn location(&self) -> Location { Location(JsValue::Null) }
    pub fn request_animation_frame(&self, f: &Function) -> Result<i32, JsValue> { world().frames.push(f.clone()); Ok(1) }
    pub fn set_timeout_with_callback(&self, f: &Function) -> Result<i32, JsValue> { self.set_timeout_with_callback_and_timeout_and_arguments_0(f, 0) }
    pub fn set_timeout_with_callback_and_timeout_and_arguments(&self, f: &Function, ms: i32, _a: &Array) -> Result<i32, JsValue> { self.set_timeout_with_callback_and_timeout_and_arguments_0(f, ms) }
    pub fn set_timeout_with_callback_and_timeout_and_arguments_0(&self, f: &Function, ms: i32) -> Result<i32, JsValue> { world().timers.push((js_sys::clock().now + ms as f64, f.clone())); Ok(1) }
}
impl Performance {
    pub fn now(&self) -> f64 {
        let c = js_sys::clock();
        c.now += c.tick;
        assert!(c.now - c.turn <= c.most, "the page is let go in time");
        c.now - 1_699_999_999_000.0
    }
}
impl Location { pub fn href(&self) -> Result<String, JsValue> { may_fail()?; Ok(world().href.clone()) } }
impl Storage {
    pub fn length(&self) -> Result<u32, JsValue> { may_fail()?; Ok(world().storage.len() as u32) }
    pub fn key(&self, i: u32) -> Result<Option<String>, JsValue> { may_fail()?; Ok(world().storage.get(i as usize).map(|x| x.0.clone())) }
    pub fn get_item(&self, k: &str) -> Result<Option<String>, JsValue> { may_fail()?; Ok(world().storage.iter().find(|x| x.0 == k).map(|x| x.1.clone())) }
    pub fn set_item(&self, k: &str, v: &str) -> Result<(), JsValue> {
        may_fail()?;
        let w = world();
        let used: usize = w.storage.iter().filter(|x| x.0 != k).map(|x| x.0.len() + x.1.len()).sum();
        if used + k.len() + v.len() > w.quota { return Err("QuotaExceededError".into()); }
        match w.storage.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = v.to_owned(), None => w.storage.push((k.to_owned(), v.to_owned())) }
        Ok(())
    }
    pub fn remove_item(&self, k: &str) -> Result<(), JsValue> { may_fail()?; world().storage.retain(|x| x.0 != k); Ok(()) }
    pub fn get(&self, k: &str) -> Result<Option<String>, JsValue> { self.get_item(k) }
    pub fn set(&self, k: &str, v: &str) -> Result<(), JsValue> { self.set_item(k, v) }
    pub fn delete(&self, k: &str) -> Result<(), JsValue> { self.remove_item(k) }
    pub fn clear(&self) -> Result<(), JsValue> { may_fail()?; world().storage.clear(); Ok(()) }
}

impl HtmlCanvasElement {
    /// For harnesses: the canvas of the page.
    pub fn of(w: u32, h: u32) -> Self { world().size = (w, h); world().px = if w > 0xffff || h > 0xffff { vec![] } else { vec![0x010203; (w * h) as usize] }; HtmlCanvasElement(JsValue::Null) }
    pub fn width(&self) -> u32 { world().size.0 }
    pub fn height(&self) -> u32 { world().size.1 }
    pub fn get_context(&self, _k: &str) -> Result<Option<Object>, JsValue> { may_fail()?; Ok(Some(Object(JsValue::Null))) }
    pub fn get_context_with_context_options(&self, _k: &str, _o: &JsValue) -> Result<Option<Object>, JsValue> { may_fail()?; Ok(Some(Object(JsValue::Null))) }
}
impl ContextAttributes2d {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { ContextAttributes2d(JsValue::Null) }
    pub fn set_alpha(&self, v: bool) { assert!(!v, "pixels have no transparency"); }
    pub fn set_will_read_frequently(&self, _v: bool) {}
    pub fn set_desynchronized(&self, _v: bool) {}
}
struct Image { w: i32, h: i32, px: Vec<u32> }
impl ImageData {
    pub fn width(&self) -> u32 { self.0.object::<Image>().w as u32 }
    pub fn height(&self) -> u32 { self.0.object::<Image>().h as u32 }
    pub fn data(&self) -> Clamped<Vec<u8>> { Clamped(self.0.object::<Image>().px.iter().flat_map(|p| [(p >> 16) as u8, (p >> 8) as u8, *p as u8, 255]).collect()) }
}
fn color(s: &str) -> u32 {
    let v: Vec<u32> = s.trim_start_matches("rgb(").trim_end_matches(')').split(',').map(|x| x.trim().parse().expect("color")).collect();
    assert!(v.len() == 3 && v.iter().all(|x| *x < 256), "color");
    v[0] << 16 | v[1] << 8 | v[2]
}
fn whole(v: f64) -> i32 { let n = v as i32; assert!(n as f64 == v, "pixels are whole"); n }
fn rect(x: f64, y: f64, w: f64, h: f64) -> (i32, i32, i32, i32) {
    let (x, y, w, h) = (whole(x), whole(y), whole(w), whole(h));
    let (sw, sh) = (world().size.0 as i32, world().size.1 as i32);
    let (x1, x2) = (x.min(x + w), x.max(x + w));
    let (y1, y2) = (y.min(y + h), y.max(y + h));
    (x1.clamp(0, sw), y1.clamp(0, sh), x2.clamp(0, sw), y2.clamp(0, sh))
}
impl CanvasRenderingContext2d {
    pub fn canvas(&self) -> Option<HtmlCanvasElement> { Some(HtmlCanvasElement(JsValue::Null)) }
    pub fn set_image_smoothing_enabled(&self, _v: bool) {}
    pub fn set_text_baseline(&self, _v: &str) {}
    pub fn set_line_width(&self, _v: f64) {}
    pub fn set_fill_style_str(&self, s: &str) { world().fill = color(s); }
    pub fn set_stroke_style_str(&self, s: &str) { world().stroke = color(s); }
    pub fn begin_path(&self) { world().path.clear(); }
    pub fn move_to(&self, x: f64, y: f64) { world().path.push(Seg::Move(x, y)); }
    pub fn line_to(&self, x: f64, y: f64) { world().path.push(Seg::Line(x, y)); }
    pub fn close_path(&self) { world().path.push(Seg::Close); }
    pub fn arc(&self, x: f64, y: f64, r: f64, a: f64, b: f64) -> Result<(), JsValue> { may_fail()?; if r < 0.0 { return Err("IndexSizeError".into()); } world().path.push(Seg::Arc(x, y, r, a, b)); Ok(()) }
    pub fn stroke(&self) { let w = world(); w.shapes.push(Shape { kind: "stroke", path: w.path.clone(), color: w.stroke }); }
    pub fn fill(&self) { let w = world(); w.shapes.push(Shape { kind: "fill", path: w.path.clone(), color: w.fill }); }
    pub fn stroke_rect(&self, x: f64, y: f64, w: f64, h: f64) { let z = world(); z.shapes.push(Shape { kind: "stroke_rect", path: vec![Seg::Move(x, y), Seg::Line(w, h)], color: z.stroke }); }
    pub fn fill_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        let (x1, y1, x2, y2) = rect(x, y, w, h);
        let z = world();
        for v in y1..y2 { for u in x1..x2 { z.px[(v * z.size.0 as i32 + u) as usize] = z.fill; } }
    }
    pub fn get_image_data(&self, x: f64, y: f64, w: f64, h: f64) -> Result<ImageData, JsValue> {
        may_fail()?;
        if w == 0.0 || h == 0.0 { return Err("IndexSizeError".into()); }
        let (x, y, w, h) = (whole(x), whole(y), whole(w), whole(h));
        let z = world();
        let (sw, sh) = (z.size.0 as i32, z.size.1 as i32);
        let mut px = Vec::with_capacity((w * h) as usize);
        for v in y..y + h { for u in x..x + w { px.push(if u >= 0 && v >= 0 && u < sw && v < sh { z.px[(v * sw + u) as usize] } else { 0 }); } }
        Ok(ImageData(JsValue::Obj(Rc::new(Image { w, h, px }))))
    }
    pub fn put_image_data(&self, d: &ImageData, x: f64, y: f64) -> Result<(), JsValue> {
        may_fail()?;
        let (x, y) = (whole(x), whole(y));
        let d = d.0.object::<Image>();
        let z = world();
        let (sw, sh) = (z.size.0 as i32, z.size.1 as i32);
        for v in 0..d.h { for u in 0..d.w { let (a, b) = (x + u, y + v); if a >= 0 && b >= 0 && a < sw && b < sh { z.px[(b * sw + a) as usize] = d.px[(v * d.w + u) as usize]; } } }
        Ok(())
    }
    pub fn global_composite_operation(&self) -> Result<String, JsValue> { may_fail()?; Ok(world().composite.clone()) }
    pub fn set_global_composite_operation(&self, v: &str) -> Result<(), JsValue> { may_fail()?; world().composite = v.to_owned(); Ok(()) }
    pub fn draw_image_with_html_canvas_element(&self, _c: &HtmlCanvasElement, dx: f64, dy: f64) -> Result<(), JsValue> {
        may_fail()?;
        let (dx, dy) = (whole(dx), whole(dy));
        let z = world();
        let (sw, sh) = (z.size.0 as i32, z.size.1 as i32);
        let old = z.px.clone();
        for v in 0..sh { for u in 0..sw {
            let (a, b) = (u - dx, v - dy);
            let at = (v * sw + u) as usize;
            if a >= 0 && b >= 0 && a < sw && b < sh { z.px[at] = old[(b * sw + a) as usize]; } else if z.composite == "copy" { z.px[at] = 0; }
        } }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OscillatorType { Sine, Square, Sawtooth, Triangle, Custom }
impl AudioContext {
    pub fn new() -> Result<Self, JsValue> { may_fail()?; Ok(AudioContext(JsValue::Null)) }
    pub fn current_time(&self) -> f64 { js_sys::clock().now / 1000.0 }
    pub fn destination(&self) -> AudioDestinationNode { AudioDestinationNode(JsValue::Null) }
    pub fn create_oscillator(&self) -> Result<OscillatorNode, JsValue> {
        may_fail()?;
        let s = Rc::new(RefCell::new(Sound { hz: 440.0, square: false, connected: false, start: None, stop: None }));
        world().sounds.push(s.clone());
        Ok(OscillatorNode(JsValue::Obj(s)))
    }
}
impl AsRef<AudioNode> for AudioDestinationNode { fn as_ref(&self) -> &AudioNode { wasm_bindgen::JsCast::unchecked_ref(self) } }
impl OscillatorNode {
    fn sound(&self) -> Rc<RefCell<Sound>> { self.0.object() }
    pub fn frequency(&self) -> AudioParam { AudioParam(self.0.clone()) }
    pub fn set_type(&self, t: OscillatorType) { self.sound().borrow_mut().square = t == OscillatorType::Square; }
    pub fn connect_with_audio_node(&self, _n: &AudioDestinationNode) -> Result<AudioNode, JsValue> { may_fail()?; self.sound().borrow_mut().connected = true; Ok(AudioNode(JsValue::Null)) }
    pub fn start(&self) -> Result<(), JsValue> { may_fail()?; self.sound().borrow_mut().start = Some(js_sys::clock().now); Ok(()) }
    pub fn stop(&self) -> Result<(), JsValue> { may_fail()?; self.sound().borrow_mut().stop = Some(js_sys::clock().now); Ok(()) }
    pub fn disconnect(&self) -> Result<(), JsValue> { self.sound().borrow_mut().connected = false; Ok(()) }
}
impl AudioParam { pub fn set_value(&self, v: f32) { self.0.object::<RefCell<Sound>>().borrow_mut().hz = v; } }

struct Port { handler: Rc<RefCell<Option<Function>>>, peer: RefCell<Option<Rc<RefCell<Option<Function>>>>>, open: Cell<bool> }
struct Channel { a: JsValue, b: JsValue }
impl MessageChannel {
    pub fn new() -> Result<Self, JsValue> {
        let (a, b): (Rc<Port>, Rc<Port>) = (Rc::new(Port { handler: Default::default(), peer: RefCell::new(None), open: Cell::new(true) }), Rc::new(Port { handler: Default::default(), peer: RefCell::new(None), open: Cell::new(true) }));
        *a.peer.borrow_mut() = Some(b.handler.clone());
        *b.peer.borrow_mut() = Some(a.handler.clone());
        Ok(MessageChannel(JsValue::Obj(Rc::new(Channel { a: JsValue::Obj(a), b: JsValue::Obj(b) }))))
    }
    pub fn port1(&self) -> MessagePort { MessagePort(self.0.object::<Channel>().a.clone()) }
    pub fn port2(&self) -> MessagePort { MessagePort(self.0.object::<Channel>().b.clone()) }
}
impl MessagePort {
    pub fn set_onmessage(&self, f: Option<&Function>) { *self.0.object::<Port>().handler.borrow_mut() = f.cloned(); }
    pub fn post_message(&self, v: &JsValue) -> Result<(), JsValue> { let p = self.0.object::<Port>(); if p.open.get() { let q = p.peer.borrow().clone(); world().messages.push((q.unwrap(), v.clone())); } Ok(()) }
    pub fn start(&self) {}
    pub fn close(&self) { self.0.object::<Port>().open.set(false); }
}

/// A key of the page.
#[derive(Clone, Default)]
pub struct Press { pub code: u32, pub key: String, pub ctrl: bool, pub alt: bool, pub meta: bool, pub shift: bool }
impl KeyboardEvent {
    /// For harnesses.
    pub fn of(p: Press) -> Self { KeyboardEvent(JsValue::Obj(Rc::new(p))) }
    fn press(&self) -> Rc<Press> { self.0.object() }
    pub fn key_code(&self) -> u32 { self.press().code }
    pub fn key(&self) -> String { self.press().key.clone() }
    pub fn ctrl_key(&self) -> bool { self.press().ctrl }
    pub fn alt_key(&self) -> bool { self.press().alt }
    pub fn meta_key(&self) -> bool { self.press().meta }
    pub fn shift_key(&self) -> bool { self.press().shift }
    pub fn repeat(&self) -> bool { false }
}
impl InputEvent {
    /// For harnesses.
    pub fn of(s: Option<String>) -> Self { InputEvent(match s { Some(s) => JsValue::Str(s), None => JsValue::Null }) }
    pub fn data(&self) -> Option<String> { self.0.as_string() }
    pub fn is_composing(&self) -> bool { false }
}

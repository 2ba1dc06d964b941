//! The standard library's machine on a console that records what is asked of it.
use crate as rt;
use crate::lang::{self, Outcome, World};
use async_channel::{Receiver, Sender};
use endbasic_std::console::*;
use endbasic_std::datetime::DateTime;
use endbasic_std::{Error, MachineBuilder, Signal, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Print(String), Write(String), Clear(u8), Color(Option<u8>, Option<u8>), Locate(u16, u16), Move(i16), Hide, Show, EnterAlt, LeaveAlt, SyncNow, Sync(bool),
    Draw(&'static str, Vec<i64>), Tone(u32, Duration), Sleep(Duration),
}

pub struct Cons {
    pub log: Vec<Ev>,
    pub keys: VecDeque<Key>,
    pub size: CharsXY,
    pub color: (Option<u8>, Option<u8>),
    pub outer: (Option<u8>, Option<u8>),
    pub interactive: bool,
    pub graphics: Option<(u16, u16)>,
    pub sync: bool,
    pub pixel: Option<u8>,
    pub peeked: Cell<Option<(i16, i16)>>,
}

impl Cons {
    pub fn new() -> Cons { Cons { log: vec![], keys: VecDeque::new(), size: CharsXY::new(80, 24), color: (None, None), outer: (None, None), interactive: false, graphics: Some((320, 240)), sync: true, pixel: None, peeked: Cell::new(None) } }
    fn draw(&mut self, n: &'static str, v: &[i64]) -> io::Result<()> { self.log.push(Ev::Draw(n, v.to_vec())); Ok(()) }
    /// Everything printed or written, one line per print.
    pub fn text(&self) -> String {
        let mut s = String::new();
        for e in &self.log { match e { Ev::Print(t) => { s += t; s.push('\n'); } Ev::Write(t) => s += t, _ => () } }
        s
    }
}

fn px(p: &PixelsXY) -> [i64; 2] { [p.x as i64, p.y as i64] }

#[async_trait::async_trait(?Send)]
impl Console for Cons {
    fn clear(&mut self, how: ClearType) -> io::Result<()> { self.log.push(Ev::Clear(match how { ClearType::All => 0, ClearType::CurrentLine => 1, ClearType::PreviousChar => 2, ClearType::UntilNewLine => 3 })); Ok(()) }
    fn color(&self) -> (Option<u8>, Option<u8>) { self.color }
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> io::Result<()> { self.color = (fg, bg); self.log.push(Ev::Color(fg, bg)); Ok(()) }
    fn enter_alt(&mut self) -> io::Result<()> { self.outer = self.color; self.log.push(Ev::EnterAlt); Ok(()) }
    fn hide_cursor(&mut self) -> io::Result<()> { self.log.push(Ev::Hide); Ok(()) }
    fn is_interactive(&self) -> bool { self.interactive }
    fn leave_alt(&mut self) -> io::Result<()> { self.color = self.outer; self.log.push(Ev::LeaveAlt); Ok(()) }
    fn locate(&mut self, pos: CharsXY) -> io::Result<()> { self.log.push(Ev::Locate(pos.x, pos.y)); Ok(()) }
    fn move_within_line(&mut self, off: i16) -> io::Result<()> { self.log.push(Ev::Move(off)); Ok(()) }
    fn print(&mut self, text: &str) -> io::Result<()> { self.log.push(Ev::Print(text.to_owned())); Ok(()) }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> { Ok(self.keys.pop_front()) }
    async fn read_key(&mut self) -> io::Result<Key> { match self.keys.pop_front() { Some(k) => Ok(k), None => Ok(Key::EofOrDelete) } }
    fn show_cursor(&mut self) -> io::Result<()> { self.log.push(Ev::Show); Ok(()) }
    fn size_chars(&self) -> io::Result<CharsXY> { Ok(self.size) }
    fn size_pixels(&self) -> io::Result<SizeInPixels> { match self.graphics { Some((w, h)) => Ok(SizeInPixels::new(w, h)), None => Err(io::Error::other("No graphics")) } }
    fn glyph_size(&self) -> io::Result<SizeInPixels> { Ok(SizeInPixels::new(4, 8)) }
    fn write(&mut self, text: &str) -> io::Result<()> { self.log.push(Ev::Write(text.to_owned())); Ok(()) }
    fn bucket_fill(&mut self, a: PixelsXY) -> io::Result<()> { self.draw("fill", &px(&a)) }
    fn draw_circle(&mut self, a: PixelsXY, r: u16) -> io::Result<()> { self.draw("circle", &[px(&a)[0], px(&a)[1], r as i64]) }
    fn draw_circle_filled(&mut self, a: PixelsXY, r: u16) -> io::Result<()> { self.draw("circlef", &[px(&a)[0], px(&a)[1], r as i64]) }
    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> { self.draw("line", &[px(&a), px(&b)].concat()) }
    fn draw_pixel(&mut self, a: PixelsXY) -> io::Result<()> { self.draw("pixel", &px(&a)) }
    fn draw_poly(&mut self, p: &[PixelsXY]) -> io::Result<()> { let v: Vec<i64> = p.iter().flat_map(px).collect(); self.draw("poly", &v) }
    fn draw_poly_filled(&mut self, p: &[PixelsXY]) -> io::Result<()> { let v: Vec<i64> = p.iter().flat_map(px).collect(); self.draw("polyf", &v) }
    fn draw_rect(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> { self.draw("rect", &[px(&a), px(&b)].concat()) }
    fn draw_rect_filled(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> { self.draw("rectf", &[px(&a), px(&b)].concat()) }
    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> { self.draw("tri", &[px(&a), px(&b), px(&c)].concat()) }
    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> { self.draw("trif", &[px(&a), px(&b), px(&c)].concat()) }
    fn peek_pixel(&self, a: PixelsXY) -> io::Result<Option<u8>> { self.peeked.set(Some((a.x, a.y))); Ok(self.pixel) }
    fn sync_now(&mut self) -> io::Result<()> { self.log.push(Ev::SyncNow); Ok(()) }
    fn set_sync(&mut self, e: bool) -> io::Result<bool> { self.log.push(Ev::Sync(e)); Ok(std::mem::replace(&mut self.sync, e)) }
    async fn play_tone(&mut self, t: endbasic_std::sound::Tone) -> io::Result<()> { self.log.push(Ev::Tone(t.frequency_hz, t.duration)); Ok(()) }
}

/// A clock that only moves when somebody sleeps.
pub struct Clock { pub now: Cell<Duration>, pub cons: Rc<RefCell<Cons>> }
#[async_trait::async_trait(?Send)]
impl DateTime for Clock {
    fn monotonic(&self) -> Duration { self.now.get() }
    async fn sleep(&self, d: Duration) -> Result<(), String> { self.cons.borrow_mut().log.push(Ev::Sleep(d)); self.now.set(self.now.get().saturating_add(d)); Ok(()) }
}

/// Injects a break at the given yield.
pub struct Yield { pub at: Cell<i32>, pub n: Cell<i32>, pub tx: Sender<Signal> }
#[async_trait::async_trait(?Send)]
impl Yielder for Yield {
    async fn yield_now(&mut self) {
        self.n.set(self.n.get() + 1);
        if self.at.get() > 0 { self.at.set(self.at.get() - 1); if self.at.get() == 0 { let _ = self.tx.try_send(Signal::Break); } }
    }
}

pub struct StdM { pub m: endbasic_std::Machine, pub c: Rc<RefCell<Cons>>, pub w: Rc<World>, pub clock: Rc<Clock>, pub chan: (Sender<Signal>, Receiver<Signal>), pub yielder: Rc<RefCell<Yield>> }

pub fn builder(w: &Rc<World>) -> (MachineBuilder, Rc<RefCell<Cons>>, Rc<Clock>, (Sender<Signal>, Receiver<Signal>), Rc<RefCell<Yield>>) {
    let (mut b, c, clock, chan, y) = plain();
    for x in lang::callables(w).into_values() { b.add_callable(x); }
    (b, c, clock, chan, y)
}

/// The standard library only.
pub fn plain() -> (MachineBuilder, Rc<RefCell<Cons>>, Rc<Clock>, (Sender<Signal>, Receiver<Signal>), Rc<RefCell<Yield>>) {
    let c = Rc::new(RefCell::new(Cons::new()));
    let clock = Rc::new(Clock { now: Cell::new(Duration::ZERO), cons: c.clone() });
    let chan = async_channel::unbounded();
    let y = Rc::new(RefCell::new(Yield { at: Cell::new(0), n: Cell::new(0), tx: chan.0.clone() }));
    let b = MachineBuilder::default().with_console(c.clone()).with_datetime(clock.clone()).with_signals_chan(chan.clone()).with_yielder(y.clone());
    (b, c, clock, chan, y)
}

pub fn stdm(w: &Rc<World>) -> StdM {
    let (b, c, clock, chan, yielder) = builder(w);
    StdM { m: b.build(), c, w: w.clone(), clock, chan, yielder }
}

/// The machine of the interactive interpreter: with CLEAR, RUN, the stored program, files and HELP.
pub fn stdmi(w: &Rc<World>) -> StdM {
    let (b, c, clock, chan, yielder) = builder(w);
    StdM { m: b.make_interactive().build(), c, w: w.clone(), clock, chan, yielder }
}

pub fn outcome(r: endbasic_std::Result<Option<i32>>) -> Outcome {
    match r {
        Ok(None) => Outcome::Eof,
        Ok(Some(c)) => Outcome::End(c),
        Err(Error::CompilerError(e)) => { let p = e.pos(); Outcome::Compile(p.line, p.col, e.message_without_pos()) }
        Err(Error::RuntimeError(p, m)) => Outcome::Exc(p.line, p.col, m),
        Err(Error::Break) => Outcome::Exc(0, 0, "Break".into()),
        Err(Error::IoError(e)) => Outcome::Exc(0, 0, format!("io: {}", e)),
        Err(Error::CallError(e)) => Outcome::Exc(0, 0, format!("call: {}", e)),
    }
}

impl StdM {
    pub fn run(&mut self, src: &str) -> Outcome {
        rt::log(src);
        if let Err(e) = self.m.compile(&mut src.as_bytes()) { return outcome(Err(e)); }
        outcome(rt::block_on(self.m.exec()))
    }
    pub fn text(&self) -> String { self.c.borrow().text() }
}

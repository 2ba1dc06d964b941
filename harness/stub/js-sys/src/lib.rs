//! Stand-in for the objects of the language of the page.
use wasm_bindgen::{page_types, JsValue};
page_types!(Object, Function, Array, Uint8Array);
/// The time of the page, in milliseconds, and its zone, in minutes. Asking for the time takes `tick`.
/// The page was last let go at `turn`, and must be let go again before `most` more milliseconds pass.
pub struct Clock { pub now: f64, pub zone: f64, pub tick: f64, pub turn: f64, pub most: f64 }
struct Cell(std::cell::UnsafeCell<Clock>);
unsafe impl Sync for Cell {}
static CLOCK: Cell = Cell(std::cell::UnsafeCell::new(Clock { now: 1_700_000_000_000.0, zone: 0.0, tick: 0.0, turn: 0.0, most: f64::MAX }));
#[allow(clippy::mut_from_ref)]
pub fn clock() -> &'static mut Clock { unsafe { &mut *CLOCK.0.get() } }
impl Array { #[allow(clippy::new_without_default)] pub fn new() -> Self { Array(JsValue::Null) } }
#[derive(Clone, Debug)]
pub struct Date(f64);
impl Date {
    pub fn now() -> f64 { clock().now }
    pub fn new_0() -> Self { Date(clock().now) }
    pub fn get_time(&self) -> f64 { self.0 }
    pub fn get_timezone_offset(&self) -> f64 { clock().zone }
}

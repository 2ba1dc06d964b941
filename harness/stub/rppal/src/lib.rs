//! Stand-in for the Raspberry Pi library with the interface that the program uses: pins and bus are
//! modelled, and anything may fail.
pub mod gpio;
pub mod spi;

/// The hardware.
pub struct Board {
    /// What was done, as (operation, pin, value).
    pub log: Vec<(&'static str, u8, u8)>,
    pub lines: u8,
    pub taken: [bool; 256],
    /// Direction of each pin: 0 is the initial one, 1 input, 2 output.
    pub mode: [u8; 256],
    /// Resistor of each pin: 0 none, 1 down, 2 up.
    pub bias: [u8; 256],
    pub level: [bool; 256],
    /// What opening the chip fails with: 1 permissions, 2 unknown model, 3 in the system.
    pub fail: u8,
    pub opened: u32,
    pub spi: Option<(u8, u8, u32, u8)>,
    pub sent: Vec<u8>,
    /// What the bus fails with: 1 in the system, 2 an unsupported clock; 3 takes only a part.
    pub bus_fail: u8,
}
struct Cell(std::cell::UnsafeCell<Option<Board>>);
// Harnesses have only one thread.
unsafe impl Sync for Cell {}
static BOARD: Cell = Cell(std::cell::UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn board() -> &'static mut Board {
    unsafe { &mut *BOARD.0.get() }.get_or_insert_with(|| Board { log: vec![], lines: 54, taken: [false; 256], mode: [0; 256], bias: [0; 256], level: [false; 256], fail: 0, opened: 0, spi: None, sent: vec![], bus_fail: 0 })
}

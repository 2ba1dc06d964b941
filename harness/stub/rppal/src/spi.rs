use crate::board;
use std::{fmt, io};

#[derive(Debug)]
pub enum Error { Io(io::Error), BitsPerWordNotSupported(u8), ClockSpeedNotSupported(u32), ModeNotSupported(Mode) }
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Io(err) => write!(f, "I/O error: {}", err),
            Error::BitsPerWordNotSupported(n) => write!(f, "Bits per word value not supported: {}", n),
            Error::ClockSpeedNotSupported(n) => write!(f, "Clock speed value not supported: {}", n),
            Error::ModeNotSupported(m) => write!(f, "Mode value not supported: {:?}", m),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum Bus { Spi0 = 0, Spi1 = 1, Spi2 = 2, Spi3 = 3, Spi4 = 4, Spi5 = 5, Spi6 = 6 }
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum SlaveSelect { Ss0 = 0, Ss1 = 1, Ss2 = 2, Ss3 = 3 }
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum Mode { Mode0 = 0, Mode1 = 1, Mode2 = 2, Mode3 = 3 }
#[derive(Debug)]
pub struct Spi(());
impl Spi {
    pub fn new(bus: Bus, slave: SlaveSelect, clock: u32, mode: Mode) -> Result<Spi> {
        let b = board();
        if b.bus_fail == 1 { return Err(Error::Io(io::Error::new(io::ErrorKind::NotFound, "gone"))); }
        if b.bus_fail == 2 { return Err(Error::ClockSpeedNotSupported(clock)); }
        b.spi = Some((bus as u8, slave as u8, clock, mode as u8));
        Ok(Spi(()))
    }
    pub fn write(&mut self, v: &[u8]) -> Result<usize> {
        let b = board();
        if b.bus_fail == 1 { return Err(Error::Io(io::Error::new(io::ErrorKind::NotFound, "gone"))); }
        let n = if b.bus_fail == 3 { v.len().min(2) } else { v.len() };
        b.sent.extend(&v[..n]);
        Ok(n)
    }
}

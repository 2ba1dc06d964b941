use crate::board;
use std::{fmt, io};

#[derive(Debug)]
pub enum Error { UnknownModel, PinUsed(u8), PinNotAvailable(u8), PermissionDenied(String), Io(io::Error), ThreadPanic }
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::UnknownModel => write!(f, "Unknown Raspberry Pi model"),
            Error::PinUsed(pin) => write!(f, "Pin {} is already in use", pin),
            Error::PinNotAvailable(pin) => write!(f, "Pin {} is not available", pin),
            Error::PermissionDenied(path) => write!(f, "Permission denied: {}", path),
            Error::Io(err) => write!(f, "I/O error: {}", err),
            Error::ThreadPanic => write!(f, "Thread panicked"),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
#[repr(u8)]
pub enum Level { Low = 0, High = 1 }
impl From<bool> for Level { fn from(b: bool) -> Level { if b { Level::High } else { Level::Low } } }
#[derive(Debug, Clone)]
pub struct Gpio(());
impl Gpio {
    pub fn new() -> Result<Gpio> {
        let b = board();
        b.opened += 1;
        match b.fail { 0 => Ok(Gpio(())), 1 => Err(Error::PermissionDenied("/dev/gpiomem".into())), 2 => Err(Error::UnknownModel), _ => Err(Error::Io(io::Error::new(io::ErrorKind::NotFound, "gone"))) }
    }
    pub fn get(&self, pin: u8) -> Result<Pin> {
        let b = board();
        if pin >= b.lines { return Err(Error::PinNotAvailable(pin)); }
        if std::mem::replace(&mut b.taken[pin as usize], true) { return Err(Error::PinUsed(pin)); }
        Ok(Pin(pin))
    }
}
#[derive(Debug)]
pub struct Pin(u8);
impl Drop for Pin { fn drop(&mut self) { board().taken[self.0 as usize] = false; } }
impl Pin {
    fn set(&self, mode: u8, bias: u8) { let b = board(); b.log.push(("mode", self.0, mode * 4 + bias)); b.mode[self.0 as usize] = mode; if mode == 1 { b.bias[self.0 as usize] = bias; } }
    pub fn pin(&self) -> u8 { self.0 }
    pub fn into_input(self) -> InputPin { self.set(1, 0); InputPin(self) }
    pub fn into_input_pulldown(self) -> InputPin { self.set(1, 1); InputPin(self) }
    pub fn into_input_pullup(self) -> InputPin { self.set(1, 2); InputPin(self) }
    pub fn into_output(self) -> OutputPin { self.set(2, 0); OutputPin(self) }
    pub fn into_output_low(self) -> OutputPin { board().level[self.0 as usize] = false; self.set(2, 0); OutputPin(self) }
    pub fn into_output_high(self) -> OutputPin { board().level[self.0 as usize] = true; self.set(2, 0); OutputPin(self) }
}
impl std::ops::Not for Level { type Output = Level; fn not(self) -> Level { Level::from(self == Level::Low) } }
impl fmt::Display for Level { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if *self == Level::Low { "Low" } else { "High" }) } }
#[derive(Debug)]
pub struct InputPin(Pin);
impl InputPin {
    pub fn pin(&self) -> u8 { self.0.0 }
    pub fn read(&self) -> Level { let b = board(); b.log.push(("read", self.0.0, 0)); Level::from(b.level[self.0.0 as usize]) }
    pub fn is_high(&self) -> bool { self.read() == Level::High }
    pub fn is_low(&self) -> bool { self.read() == Level::Low }
}
#[derive(Debug)]
pub struct OutputPin(Pin);
impl OutputPin {
    pub fn pin(&self) -> u8 { self.0.0 }
    pub fn write(&mut self, level: Level) { let b = board(); b.log.push(("write", self.0.0, level as u8)); b.level[self.0.0 as usize] = level == Level::High; }
    pub fn is_set_high(&self) -> bool { board().level[self.0.0 as usize] }
    pub fn is_set_low(&self) -> bool { !self.is_set_high() }
    pub fn toggle(&mut self) { let v = self.is_set_low(); self.write(Level::from(v)) }
    pub fn set_high(&mut self) { self.write(Level::High) }
    pub fn set_low(&mut self) { self.write(Level::Low) }
}
fn release(pin: u8) { let b = board(); b.log.push(("free", pin, 0)); b.mode[pin as usize] = 0; b.bias[pin as usize] = 0; }
impl Drop for InputPin { fn drop(&mut self) { release(self.0.0); } }
impl Drop for OutputPin { fn drop(&mut self) { release(self.0.0); } }

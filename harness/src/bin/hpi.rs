//! The pins and the bus of a Raspberry Pi, on a model of the board.
use endbasic_rpi::{spi_bus_open, RppalPins};
use endbasic_std::gpio::{Pin, PinMode, Pins};
use endbasic_std::spi::{SpiBus, SpiMode};
use rppal::board;
use rt::lang::Outcome;
use rt::stdm;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

#[path = "../fsm.rs"]
#[allow(dead_code)]
mod fsm;

/// What each pin is used for: nothing, an input with a resistor or an output.
type Use = Option<(u8, u8)>;
const MODES: [(PinMode, (u8, u8)); 4] = [(PinMode::In, (1, 0)), (PinMode::InPullDown, (1, 1)), (PinMode::InPullUp, (1, 2)), (PinMode::Out, (2, 0))];

/// Sequences of operations on three pins, one of which the board does not have. Case: the first operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pins(case: u32) {
    let mut p = RppalPins::default();
    let b = board();
    let pins = [4u8, 27, 60];
    let mut used: [Use; 3] = [None; 3];
    let mut level = [false, true, false];
    for k in 0..3 { b.level[pins[k] as usize] = level[k]; }
    let mut open = false;
    let (deep, case) = (case >= 100, case as usize % 100);
    for step in 0..3 + deep as usize {
        // 0-11: setups, 12-14: clears, 15-17: reads, 18-23: writes, 24: all, 25: levels change.
        let op = if step == 0 { case } else { rt::choose(26) };
        b.log.clear();
        b.fail = if !open && op < 12 { rt::choose(4) as u8 } else { rt::choose(2) as u8 };
        let fail = if open { 0 } else { b.fail };
        let k = match op { 0..=11 => op / 4, 12..=14 => op - 12, 15..=17 => op - 15, 18..=23 => (op - 18) / 2, _ => 0 };
        let pin = Pin(pins[k]);
        let before = used;
        match op {
            0..=11 => {
                let (mode, u) = MODES[op % 4];
                let r = p.setup(pin, mode);
                open |= fail == 0;
                used[k] = None;
                rt::check(r.is_ok() == (fail == 0 && k < 2), "pins are set up if the board has them");
                match r {
                    Ok(()) => { used[k] = Some(u); rt::cover("set up"); }
                    Err(e) => {
                        rt::log(&e.to_string());
                        let (kind, text) = match fail { 1 => (io::ErrorKind::PermissionDenied, "permission denied"), 2 => (io::ErrorKind::Other, "Unknown Raspberry Pi model"), 3 => (io::ErrorKind::NotFound, "gone"), _ => (io::ErrorKind::InvalidInput, "Unknown pin number 60") };
                        rt::check(e.kind() == kind && e.to_string().contains(text), "failures tell what they are");
                        rt::cover("failed");
                    }
                }
            }
            12..=14 => { rt::check(p.clear(pin).is_ok(), "pins can be freed"); used[k] = None; }
            15..=17 => {
                let r = p.read(pin);
                let input = matches!(used[k], Some((1, _)));
                rt::check(r.is_ok() == input, "only inputs can be read");
                if let Ok(v) = r { rt::check(v == level[k], "what is read is the level of the pin"); rt::cover("read"); }
                rt::check(b.log.len() == input as usize, "only the given pin is touched");
            }
            18..=23 => {
                let v = op % 2 == 1;
                let r = p.write(pin, v);
                let output = matches!(used[k], Some((2, _)));
                rt::check(r.is_ok() == output, "only outputs can be written");
                if output { level[k] = v; rt::cover("written"); }
                rt::check(b.log.len() == output as usize, "only the given pin is touched");
            }
            24 => { rt::check(p.clear_all().is_ok(), "pins can be freed"); used = [None; 3]; }
            _ => for j in 0..2 { if !matches!(used[j], Some((2, _))) { level[j] = !level[j]; b.level[pins[j] as usize] = level[j]; } },
        }
        let _ = before;
        for j in 0..3 {
            let i = pins[j] as usize;
            let (m, r) = used[j].unwrap_or((0, 0));
            rt::check(b.mode[i] == m && b.bias[i] == r && b.taken[i] == used[j].is_some(), "every pin is used as it was last asked for");
            rt::check(b.level[i] == level[j], "levels are those that were written");
        }
        rt::check((0..256).all(|i| pins.contains(&(i as u8)) || b.mode[i] == 0 && !b.taken[i]), "no other pin is touched");
        rt::check(b.log.iter().all(|e| op == 24 || e.1 == pins[k]), "only the given pin is touched");
    }
    drop(p);
    rt::check(b.mode.iter().all(|m| *m == 0) && !b.taken.contains(&true), "all pins are freed at the end");
}

/// Every pin and mode there is.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_every(case: u32) {
    let mut p = RppalPins::default();
    let b = board();
    b.lines = [54, 28, 1, 100][case as usize / 4];
    let (mode, u) = MODES[case as usize % 4];
    let k = rt::u8_();
    let r = p.setup(Pin(k), mode);
    rt::check(r.is_ok() == (k < b.lines), "pins are set up if the board has them");
    let k = rt::conc(k as u64) as usize;
    if r.is_ok() {
        rt::check(b.mode[k] == u.0 && b.bias[k] == u.1, "every pin is used as it was last asked for");
        let v = rt::bool_();
        b.level[k] = v ^ (u.0 == 2);
        if u.0 == 1 { rt::check(p.read(Pin(k as u8)).unwrap() == v, "what is read is the level of the pin"); rt::check(p.write(Pin(k as u8), v).is_err(), "only outputs can be written"); }
        else { p.write(Pin(k as u8), v).unwrap(); rt::check(b.level[k] == v, "levels are those that were written"); rt::check(p.read(Pin(k as u8)).is_err(), "only inputs can be read"); }
    }
    rt::check((0..104).all(|i| i == k || b.mode[i] == 0 && !b.taken[i]), "no other pin is touched");
    rt::cover("asked");
}

/// The commands on top of the board.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_program(_case: u32) {
    let w = rt::lang::world();
    let (mb, _c, _, _, _) = stdm::builder(&w);
    let b = board();
    let mut m = mb.with_gpio_pins(Rc::new(RefCell::new(RppalPins::default()))).build();
    b.level[7] = rt::choose(2) == 1;
    let (src, ok) = rt::pick(&[
        ("GPIO_SETUP 7, \"IN-PULL-UP\"\nOUT GPIO_READ(7)\nGPIO_CLEAR 7", true),
        ("GPIO_SETUP 7, \"OUT\"\nGPIO_WRITE 7, TRUE\nGPIO_WRITE 7, FALSE\nGPIO_SETUP 7, \"IN\"\nOUT GPIO_READ(7)\nGPIO_CLEAR", true),
        ("GPIO_SETUP 60, \"IN\"", false),
        ("GPIO_WRITE 7, TRUE", false),
        ("OUT GPIO_READ(7)", false),
        ("GPIO_SETUP 7, \"IN\"\nGPIO_WRITE 7, TRUE", false),
    ]);
    let level = b.level[7];
    rt::log(src);
    if m.compile(&mut src.as_bytes()).is_err() { rt::fail("compiles"); }
    let o = stdm::outcome(rt::block_on(m.exec()));
    rt::check(o.ok() == ok && (ok || matches!(o, Outcome::Exc(..))), "pins are set up if the board has them");
    if ok {
        let want = if src.contains("WRITE") { false } else { level };
        rt::check(matches!(w.outs.borrow()[..], [rt::lang::V::B(v)] if v == want), "what is read is the level of the pin");
        rt::check(b.mode.iter().all(|m| *m == 0), "pins can be freed");
        rt::check(b.log.iter().all(|e| e.1 == 7), "no other pin is touched");
        rt::cover("done");
    }
}

/// The bus. Case: what the system says about its size.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_spi(case: u32) {
    let b = board();
    let texts: [(&[u8], Option<usize>); 12] = [(b"4096\n", Some(4096)), (b"65536", Some(65536)), (b"1 \n\n", Some(1)), (b"0\n", Some(0)), (b"", None), (b"-1\n", None), (b"4k\n", None), (b"99999999999999999999\n", None), (b"\xff\n", None), (b"18446744073709551615\n", Some(usize::MAX)), (b"4 096", None), (b"nothing", None)];
    let (text, want) = texts[case as usize];
    let missing = case == 11;
    let f = fsm::fs();
    f.on = true;
    f.max = rt::pick(&[usize::MAX, 1, 3]);
    if !missing { f.put("/sys/module/spidev/parameters/bufsiz", text); }
    let (bus, slave) = (rt::u8_(), rt::u8_());
    let clock = rt::u32_();
    let n = rt::choose(4) as u8;
    let mode = match n { 0 => SpiMode::Mode0, 1 => SpiMode::Mode1, 2 => SpiMode::Mode2, _ => SpiMode::Mode3 };
    b.bus_fail = rt::choose(4) as u8;
    let r = spi_bus_open(bus, slave, clock, mode);
    let ok = (bus == 0) & (slave == 0);
    let fails = b.bus_fail == 1 || b.bus_fail == 2 || want.is_none();
    fsm::end();
    rt::check(r.is_ok() == (ok & !fails), "the bus opens if there is one and its size is known");
    match r {
        Err(e) => {
            let kind = if !ok || b.bus_fail == 2 { io::ErrorKind::InvalidInput } else if b.bus_fail == 1 || missing { io::ErrorKind::NotFound } else { io::ErrorKind::InvalidData };
            rt::check(e.kind() == kind, "failures tell what they are");
            if !ok { rt::check(b.spi.is_none(), "buses that do not exist are not opened"); }
            rt::cover("failed");
        }
        Ok(mut s) => {
            rt::check(b.spi == Some((0, 0, clock, n)), "the bus is opened as it was asked for");
            rt::check(s.max_size() == want.unwrap(), "the size of transfers is the one of the system");
            let data = rt::bytes(3);
            let n = s.write(&data);
            let want = if b.bus_fail == 3 { 2 } else { 3 };
            rt::check(n.is_ok_and(|n| n == want) && s.flush().is_ok(), "what is sent is what was given");
            rt::check(b.sent.len() == want && (b.sent[0] == data[0]) & (b.sent[1] == data[1]), "what is sent is what was given");
            b.bus_fail = 1;
            rt::check(s.write(&data).is_err_and(|e| e.kind() == io::ErrorKind::NotFound), "failures tell what they are");
            rt::cover("opened");
        }
    }
}

rt::harness_main!(h_pins, h_every, h_program, h_spi);

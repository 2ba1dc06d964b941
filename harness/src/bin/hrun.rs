//! Development aid: runs a BASIC program from a file with fixed probe values and prints what it did.
use rt::lang::*;
fn main() {
    let w = world();
    w.ints.borrow_mut().extend([1, 2, 3, 4, 5, 6, 7, 8]);
    w.dbls.borrow_mut().extend([0.5, 1.5, 2.5, -3.5]);
    w.strs.borrow_mut().extend(["a".to_owned(), "bc".to_owned(), "".to_owned()]);
    w.bools.borrow_mut().extend([true, false]);
    w.fails.borrow_mut().extend([true, false, true]);
    let src = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut m = Machine::new(&w);
    for c in src.split("~") {
        let o = m.run(c.trim_start_matches('\n').as_bytes());
        println!("{:?}\n{:?} errs {:?} data {:?} stops {}", o, w.outs.borrow(), w.errs.borrow(), w.data.borrow(), w.stops.get());
    }
}

use endbasic_core::*;
use std::collections::HashMap;

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_smoke(_case: u32) {
    let upcalls = HashMap::new();
    let mut c = Compiler::new(&upcalls, &[]).unwrap();
    let mut img = Image::default();
    let a = rt::u8_();
    let b = rt::u8_();
    rt::assume(a.is_ascii_digit() && b.is_ascii_digit());
    let src = [b'a', b'=', a, b'+', b, b'\n', b'E', b'N', b'D', b' ', b'a'];
    c.compile_more(&mut img, &mut &src[..]).unwrap();
    let mut vm = Vm::new(HashMap::new());
    let r = match vm.exec(&img) { StopReason::End(c) => c.to_i32(), _ => -1 };
    rt::observe("r", r as u64);
    rt::check(r == (a - b'0') as i32 + (b - b'0') as i32, "sum");
}
rt::harness_main!(h_smoke);

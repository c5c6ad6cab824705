//! The library on a 32-bit machine (WebAssembly): one request in, one answer out.
#[path = "../../harness/src/port.rs"]
#[allow(dead_code)]
mod port;
use std::cell::RefCell;

thread_local! {
    static IN: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
/// Room for a request of `n` bytes.
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        i.clear();
        i.resize(n, 0);
        i.as_mut_ptr()
    })
}
/// Answer the request in the room; returns the length of the answer.
#[no_mangle]
pub extern "C" fn answer() -> usize {
    let r = IN.with(|i| port::Req::get(&mut &i.borrow()[..])).unwrap();
    let a = port::exec(&r);
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        o.clear();
        a.put(&mut o);
        o.len()
    })
}
#[no_mangle]
pub extern "C" fn out() -> *const u8 {
    OUT.with(|o| o.borrow().as_ptr())
}
/// Bytes of a pointer, and 2 if big-endian, else 1.
#[no_mangle]
pub extern "C" fn machine() -> u32 {
    (std::mem::size_of::<usize>() as u32) << 8 | (u16::from_ne_bytes([1, 2]) & 255) as u32
}

//! The library on another machine: answers E03's requests from standard input on standard output.
//! Interpreted by Miri for targets of other pointer widths and byte orders.
#[path = "../../harness/src/port.rs"]
mod port;
use std::io::{Read, Write};

fn main() {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut s = vec![std::mem::size_of::<usize>() as u8, u16::from_ne_bytes([1, 2]) as u8];
    o.write_all(&s).unwrap();
    o.flush().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    loop {
        let mut n = [0; 4];
        if i.read_exact(&mut n).is_err() {
            return;
        }
        let mut b = vec![0; u32::from_le_bytes(n) as usize];
        i.read_exact(&mut b).unwrap();
        let mut b = &b[..];
        s.clear();
        while let Some(r) = port::Req::get(&mut b) {
            let a = std::panic::catch_unwind(|| port::exec(&r)).unwrap_or(port::Ans(vec![], "panicked".into()));
            a.put(&mut s);
        }
        o.write_all(&(s.len() as u32).to_le_bytes()).unwrap();
        o.write_all(&s).unwrap();
        o.flush().unwrap();
    }
}

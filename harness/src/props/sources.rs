//! C21: the library's own data sources against the documented ParseBuf contract.

use super::Prop;
use crate::gen::G;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::{ErrorKind, ParseBuf, ParseBufChunk};
use std::io::BufReader;

pub const C21: Prop = Prop {
    id: "C21",
    case,
    quick: 9_000_000,
    thorough: 200_000_000,
    rule: "random histories of chunk, advance (0 up to the size of the chunk seen last), remaining_hint and, for slices, clone on the library's sources: \
           byte slices at any alignment and buffered readers of capacity 1-8192 over short reads, with and without a read failure at a random position; \
           checked after every call against a byte queue. Non-trivial: at least two advances over at least 8 bytes of data.",
};

struct Hist {
    pos: usize,
    advances: u32,
}

fn step<'p, B: ParseBuf<'p>>(g: &mut G, b: &mut B, data: &[u8], h: &mut Hist, slice: Option<&'p [u8]>, fault: Option<Fault>) -> Result<bool, String> {
    let left = data.len() - h.pos;
    let hint = b.remaining_hint();
    match slice {
        Some(_) => ensure!(hint == Some(left), "the size hint is {hint:?} with {left} bytes left"),
        None => ensure!(hint.is_none_or(|n| n == left), "the size hint is {hint:?} with {left} bytes left"),
    }
    // the bytes that can be had before the failure
    let avail = fault.map_or(left, |f| f.at.min(data.len()) - h.pos);
    let mut seen = 0;
    for again in 0..g.range(1, 3) {
        match b.chunk() {
            Ok(c) => {
                ensure!(avail > 0, "a chunk of {} bytes came although nothing is left", c.len());
                ensure!(!c.is_empty(), "an empty chunk with {avail} bytes left");
                ensure!(c.len() <= avail, "a chunk of {} bytes with {avail} left", c.len());
                ensure!(c[..] == data[h.pos..h.pos + c.len()], "chunk at {}: {} instead of {}", h.pos, hex(&c), hex(&data[h.pos..h.pos + c.len()]));
                ensure!(again == 0 || c.len() == seen, "the chunk changed from {seen} to {} bytes without advancing", c.len());
                seen = c.len();
                if let Some(s) = slice {
                    match c {
                        ParseBufChunk::External(x) => ensure!(x.as_ptr() == s[h.pos..].as_ptr(), "the chunk is not a view of the slice"),
                        ParseBufChunk::Temporary(_) => bail!("a slice hands out temporary data"),
                    }
                }
            }
            Err(e) => {
                ensure!(avail == 0, "chunk at {} of {} fails: {}", h.pos, data.len(), err_text(&e));
                match fault {
                    Some(f) if f.at <= data.len() && !matches!(f.kind, FaultKind::Eof | FaultKind::IoEof) => {
                        ensure!(e.kind() == ErrorKind::External && marker_of(&e) == Some(f.id), "the reader failed with {:?}, the source with {}", f.kind, err_text(&e))
                    }
                    _ => ensure!(e.kind() == ErrorKind::Eof, "the end of the data is reported as {}", err_text(&e)),
                }
                return Ok(false);
            }
        }
    }
    let n = match g.weighted(&[4, 3, 2]) {
        0 => g.range(1, seen),
        1 => seen,
        _ => 0,
    };
    b.advance(n);
    h.pos += n;
    h.advances += (n > 0) as u32;
    Ok(true)
}

pub fn case(cx: &mut Cx) -> R {
    let n = match cx.g.weighted(&[90, 10]) {
        0 => cx.g.range(0, 120),
        _ => cx.g.len(if crate::gen::tiny() { 60 } else { 20_000 }),
    };
    let data = cx.g.bytes(n);
    let off = cx.g.below(8);
    let buf = Aligned::new(&data, off);
    let d = buf.get();
    let mut h = Hist { pos: 0, advances: 0 };
    cx.fp(&data);
    if cx.g.bool() {
        cx.say(|| format!("slice of {n} bytes at +{off}"));
        let mut s: &[u8] = d;
        for _ in 0..cx.g.range(1, 40) {
            if cx.g.pct(10) {
                // a copy of the source goes its own way
                let mut t = s;
                let mut h2 = Hist { pos: h.pos, advances: 0 };
                step(&mut cx.g, &mut t, d, &mut h2, Some(d), None)?;
            }
            if !step(&mut cx.g, &mut s, d, &mut h, Some(d), None)? {
                cx.label("read to the end");
                break;
            }
        }
        cx.label("slice");
    } else {
        let Plan::Reader { cap, reads } = Plan::gen_reader(&mut cx.g, n) else { unreachable!() };
        let fault = if cx.g.pct(40) { Some(super::delivery::gen_fault(&mut cx.g, n)).map(|f| Fault { once: false, ..f }) } else { None };
        cx.say(|| format!("reader over {n} bytes, capacity {cap}, reads {reads:?}, {fault:?}"));
        let mut r: BufReader<ShortReader> = reader(d, cap, &reads, fault);
        for _ in 0..cx.g.range(1, 80) {
            if !step(&mut cx.g, &mut r, d, &mut h, None, fault)? {
                cx.label(if fault.is_some() { "read to the failure" } else { "read to the end" });
                break;
            }
        }
        cx.label(if fault.is_some() { "failing reader" } else { "reader" });
    }
    cx.fpn(h.pos as u64);
    cx.nontrivial = h.advances >= 2 && n >= 8;
    Ok(())
}

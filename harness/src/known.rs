//! The one defect of the library that its own test suite pins and that is
//! therefore recorded instead of repaired (known_findings.txt): a typed array
//! that lies unaligned in borrowed host-order input is consumed twice, because
//! `parse_slice_direct` advances past bytes it then declines.
//!
//! Everything here is about recognising exactly those inputs, so that the
//! checks keep judging all others; C06 and C14 additionally pin what the
//! defect does, so that a different failure on these inputs is still seen.

use crate::source::*;
use perf_event_data::endian::Native;
use perf_event_data::parse::{ParseConfig, Parser};
use std::cell::Cell;
use std::sync::OnceLock;

thread_local! {
    static SEEN: Cell<bool> = const { Cell::new(false) };
    static TWICE: Cell<bool> = const { Cell::new(false) };
}

/// Does the tree under test have the defect?
pub fn present() -> bool {
    static P: OnceLock<bool> = OnceLock::new();
    *P.get_or_init(|| {
        let buf = Aligned::new(&[0, 1, 2, 3, 4, 5, 6, 7, 8], 1);
        let mut p = Parser::new(buf.get(), ParseConfig::<Native>::default());
        // SAFETY: u64 is plain data
        let r = unsafe { p.parse_slice_direct::<u64>(1) };
        matches!(r, Ok(None)) && p.parse_u8().ok() == Some(8)
    })
}

/// Called by the reference decoder for every non-empty typed array that is
/// completely there. True: skip the array's bytes before reading it.
pub fn array_at(p: *const u8) -> bool {
    if p as usize % std::mem::align_of::<u64>() != 0 {
        SEEN.set(true);
        return TWICE.get();
    }
    false
}

/// Did decoding in `f` meet an unaligned typed array?
fn meets(f: impl FnOnce()) -> bool {
    SEEN.set(false);
    f();
    SEEN.get()
}

/// Would parsing what `f` decodes run into the defect?
pub fn hit(e: AnyEndian, f: impl FnOnce()) -> bool {
    e.host() && present() && meets(f)
}

/// Run the reference decoder with the defect built in.
pub fn twice<T>(f: impl FnOnce() -> T) -> T {
    TWICE.set(true);
    let r = f();
    TWICE.set(false);
    r
}

/// Put the data at `off`, or at an aligned address if the defect would show
/// there; None if it shows even so.
pub fn place(e: AnyEndian, data: &[u8], off: usize, dec: impl Fn(&[u8])) -> Option<Aligned> {
    for o in [off, 0, 1, 2, 3, 4, 5, 6, 7] {
        let b = Aligned::new(data, o);
        if !hit(e, || dec(b.get())) {
            return Some(b);
        }
    }
    None
}

/// Demonstrations of the defect against the statement of each property it
/// touches, each printed only while it reproduces.
pub fn probes(id: &str) -> Vec<(&'static str, String)> {
    use perf_event_data::*;
    const KEY: &str = "unaligned-host-order-array";
    fn le(words: &[u64]) -> Vec<u8> {
        words.iter().flat_map(|w| w.to_ne_bytes()).collect()
    }
    fn cfg(st: SampleFlags, rf: ReadFormat) -> ParseConfig<Native> {
        let mut a = perf_event_open_sys::bindings::perf_event_attr::default();
        a.sample_type = st.bits();
        a.read_format = rf.bits();
        ParseConfig::from(a)
    }
    let found: Option<String> = match id {
        "C01" => {
            // NAMESPACES: pid, tid, nr = 2, then two (dev, inode) pairs, at an odd address
            let mut d = vec![];
            d.extend_from_slice(&7u32.to_ne_bytes());
            d.extend_from_slice(&8u32.to_ne_bytes());
            d.extend(le(&[2, 1, 11, 2, 22]));
            let b = Aligned::new(&d, 1);
            let r = Parser::new(b.get(), ParseConfig::<Native>::default()).parse::<Namespaces>();
            (!matches!(&r, Ok(n) if n.namespaces.len() == 2)).then(|| format!(
                "a NAMESPACES record body with two entries, placed at an odd address in host byte order, does not parse: {:?}", r.err().map(|e| e.kind())))
        }
        "C02" => {
            // call chain of two entries followed by the cgroup id, at an odd address
            let d = le(&[2, 0x10, 0x20, 0x30, 0x40, 0x50]);
            let b = Aligned::new(&d[..32], 1);
            let r = Parser::new(b.get(), cfg(SampleFlags::CALLCHAIN | SampleFlags::CGROUP, ReadFormat::empty())).parse::<Sample>();
            let ok = matches!(&r, Ok(s) if s.callchain() == Some(&[0x10, 0x20]) && s.cgroup() == Some(0x30));
            (!ok).then(|| format!("a sample with a two-entry call chain and a cgroup id, placed at an odd address in host byte order, does not decode: {:?}", r.map(|s| (s.callchain().map(|c| c.to_vec()), s.cgroup())).map_err(|e| e.kind())))
        }
        "C05" => {
            let d = le(&[2, 0x10, 0x20]);
            let b = Aligned::new(&d, 1);
            let c = || cfg(SampleFlags::CALLCHAIN, ReadFormat::empty());
            let one = Parser::new(b.get(), c()).parse::<Sample>().map(|s| s.callchain().map(|c| c.to_vec()));
            let two = Parser::new(std::io::BufReader::new(&d[..]), c()).parse::<Sample>().map(|s| s.callchain().map(|c| c.to_vec()));
            (one.as_ref().ok() != two.as_ref().ok()).then(|| format!("the same two-entry call chain gives {:?} from an odd-addressed slice and {:?} from a buffered reader", one.map_err(|e| e.kind()), two.map_err(|e| e.kind())))
        }
        "C06" => {
            let d = le(&[2, 0x10, 0x20]);
            let at = |off| {
                let b = Aligned::new(&d, off);
                Parser::new(b.get(), cfg(SampleFlags::CALLCHAIN, ReadFormat::empty())).parse::<Sample>().ok().and_then(|s| s.callchain().map(|c| c.to_vec()))
            };
            (at(0) != at(1)).then(|| format!("the same call chain decodes as {:?} at an 8-aligned address and {:?} one byte further (host byte order)", at(0), at(1)))
        }
        "C12" => {
            let d = le(&[1, 77]);
            let b = Aligned::new(&d, 1);
            let r = Parser::new(b.get(), cfg(SampleFlags::empty(), ReadFormat::GROUP)).parse::<ReadGroup>();
            let ok = matches!(&r, Ok(g) if g.len() == 1 && g.get(0).map(|e| e.value()) == Some(77));
            (!ok).then(|| format!("a one-entry counter group at an odd address in host byte order does not parse: {:?}", r.err().map(|e| e.kind())))
        }
        "C14" => present().then(|| "parse_slice_direct on an odd-addressed host-order buffer returns None (no view possible) but has consumed the bytes, so parse_slice reads the array from the bytes after it".to_string()),
        _ => None,
    };
    found.into_iter().map(|m| (KEY, m)).collect()
}

//! Generators for configurations and records.

use crate::gen::G;
use crate::model::*;

/// All record types the library knows, in kernel numbering.
pub const NON_SAMPLE: &[u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21];

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    /// mostly small, sometimes up to the maximum record size
    Any,
    /// at most a few hundred bytes
    Small,
    /// at most a few dozen bytes per field (for Miri)
    Tiny,
}

pub fn cfg(g: &mut G) -> Cfg {
    let sample_type = match g.weighted(&[25, 20, 15, 15, 10, 15, 6]) {
        // as profilers ask for them
        6 => {
            const USUAL: &[u64] = &[
                st::IP | st::TID | st::TIME | st::PERIOD,
                st::IP | st::TID | st::TIME | st::CPU | st::PERIOD,
                st::IP | st::TID | st::TIME | st::CALLCHAIN | st::PERIOD,
                st::IP | st::TID | st::TIME | st::ID | st::PERIOD,
                st::IP | st::TID | st::TIME | st::ADDR | st::ID | st::CPU | st::PERIOD | st::DATA_SRC | st::WEIGHT,
                st::IP | st::TID | st::TIME | st::ADDR | st::ID | st::CPU | st::PERIOD | st::DATA_SRC | st::WEIGHT_STRUCT | st::PHYS_ADDR,
                st::IP | st::TID | st::TIME | st::CALLCHAIN | st::REGS_USER | st::STACK_USER | st::PERIOD | st::DATA_SRC,
                st::IP | st::TID | st::TIME | st::CPU | st::PERIOD | st::RAW,
                st::IP | st::TID | st::TIME | st::PERIOD | st::BRANCH_STACK,
                st::TID | st::TIME | st::ID | st::CPU | st::IDENTIFIER,
                st::TID | st::TIME | st::CPU | st::IDENTIFIER,
                st::IP | st::TID | st::TIME | st::READ | st::ID | st::PERIOD,
                st::TID | st::TIME | st::CPU | st::AUX | st::IDENTIFIER,
                st::IP | st::TID | st::TIME | st::REGS_INTR | st::PERIOD,
                st::IP | st::TID | st::TIME | st::CGROUP | st::PERIOD,
                st::IP | st::TID | st::TIME | st::ADDR | st::PERIOD | st::PHYS_ADDR | st::DATA_PAGE_SIZE | st::CODE_PAGE_SIZE,
                st::IP, st::TID | st::TIME, st::SID, st::IP | st::TID,
            ];
            let u = g.pick(USUAL);
            if g.bool() { u ^ (1u64 << g.below(25)) } else { u }
        }
        // sparse
        0 => {
            let n = g.range(0, 4);
            (0..n).fold(0, |a, _| a | (1u64 << g.below(25)))
        }
        // dense
        1 => g.upto(st::ALL),
        2 => 1u64 << g.below(25),
        3 => {
            let n = g.range(0, 4);
            (0..n).fold(st::ALL, |a, _| a & !(1u64 << g.below(25)))
        }
        4 => st::ALL,
        // pairs of variable-length fields plus id fields
        _ => {
            const VARS: &[u64] = &[
                st::READ, st::CALLCHAIN, st::RAW, st::BRANCH_STACK, st::REGS_USER, st::STACK_USER, st::REGS_INTR, st::AUX,
            ];
            let a = g.pick(VARS);
            let b = g.pick(VARS);
            a | b | (g.upto(st::ALL) & st::SID & g.upto(u64::MAX))
        }
    };
    // the published bindings' bitfields follow little-endian kernels
    let foreign = if crate::source::HOST_BIG { st::BRANCH_STACK | st::DATA_SRC } else { 0 };
    Cfg {
        sample_type: sample_type & !foreign,
        read_format: if g.pct(20) { rf::ALL } else { g.upto(rf::ALL) },
        sample_id_all: g.pct(55),
        hw_index: g.pct(40),
        regs_user: mask(g),
        regs_intr: mask(g),
        noise: if g.pct(60) { g.upto(u64::MAX) } else { 0 },
    }
}

fn mask(g: &mut G) -> u64 {
    match g.weighted(&[3, 3, 2, 1, 1]) {
        0 => g.upto(0xff),
        1 => g.u64(),
        2 => 0,
        3 => u64::MAX,
        _ => 1u64 << g.below(64),
    }
}

pub fn misc(g: &mut G) -> u16 {
    match g.weighted(&[30, 30, 20, 20]) {
        0 => 0,
        1 => {
            let mut m = g.upto(7) as u16;
            for b in [12, 13, 14, 15] {
                if g.bool() {
                    m |= 1 << b
                }
            }
            m
        }
        2 => 1 << g.below(16),
        _ => g.upto(u16::MAX as u64) as u16,
    }
}

/// A type number the library has no record for.
pub fn unknown_type(g: &mut G) -> u32 {
    let t = match g.weighted(&[4, 2, 2, 3, 2]) {
        0 => 22 + g.upto(60) as u32,
        1 => 0,
        2 => 64 + g.upto(20) as u32,
        // a known type with a bit set above
        3 => g.upto(21) as u32 | (1u32 << g.range(5, 31)),
        _ => g.u32(),
    };
    if (1..=21).contains(&t) {
        t + 256
    } else {
        t
    }
}

/// Budget-limited length of a variable field with `elem`-byte elements.
fn vlen(g: &mut G, size: Size, budget: &mut usize, elem: usize) -> usize {
    let max = match size {
        Size::Any => *budget / elem,
        Size::Small => (*budget / elem).min(200 / elem),
        Size::Tiny => (*budget / elem).min(32 / elem),
    };
    let n = g.len(max);
    *budget -= n * elem;
    n
}

/// A length that is often zero.
fn vlen0(g: &mut G, size: Size, budget: &mut usize, elem: usize) -> usize {
    if g.pct(75) {
        vlen(g, size, budget, elem)
    } else {
        0
    }
}

pub fn read_m(g: &mut G, fmt: u64, size: Size, budget: &mut usize) -> ReadM {
    let n = if fmt & rf::GROUP != 0 { vlen0(g, size, budget, 24) } else { 1 };
    let entries = if n <= 4 {
        (0..n).map(|_| Counter { value: g.u64(), id: g.u64(), lost: g.u64() }).collect()
    } else {
        let w = g.u64s(3 * n);
        w.chunks_exact(3).map(|c| Counter { value: c[0], id: c[1], lost: c[2] }).collect()
    };
    ReadM { time_enabled: g.u64(), time_running: g.u64(), entries }
}

fn regs(g: &mut G, mask: u64) -> RegsM {
    let abi = match g.weighted(&[3, 3, 3, 1]) {
        0 => 2,
        1 => 1,
        2 => 0,
        _ => g.u64(),
    };
    RegsM { abi, regs: g.u64s(mask.count_ones() as usize) }
}

pub fn sample(g: &mut G, c: &Cfg, size: Size) -> SampleM {
    // worst case of the fixed parts: 8 + 21 words + 2 x 65 register words
    let mut budget = 65535 - 8 - 64 - 8 * 30 - 8 * 130;
    let b = &mut budget;
    let mut s = SampleM::default();
    if c.has(st::IDENTIFIER) {
        s.identifier = g.u64()
    }
    if c.has(st::IP) {
        s.ip = g.u64()
    }
    if c.has(st::TID) {
        s.pid = g.u32();
        s.tid = g.u32()
    }
    if c.has(st::TIME) {
        s.time = g.u64()
    }
    if c.has(st::ADDR) {
        s.addr = g.u64()
    }
    if c.has(st::ID) {
        s.id = g.u64()
    }
    if c.has(st::STREAM_ID) {
        s.stream_id = g.u64()
    }
    if c.has(st::CPU) {
        s.cpu = g.u32();
        s.cpu_res = g.u32()
    }
    if c.has(st::PERIOD) {
        s.period = g.u64()
    }
    if c.has(st::READ) {
        s.values = read_m(g, c.read_format, size, b)
    }
    if c.has(st::CALLCHAIN) {
        let n = vlen0(g, size, b, 8);
        s.callchain = g.u64s(n)
    }
    if c.has(st::RAW) {
        let n = vlen0(g, size, b, 1);
        s.raw = g.bytes(n);
        s.raw_pad = if g.bool() { 0 } else { 0xEE }
    }
    if c.has(st::BRANCH_STACK) {
        s.hw_index = g.u64();
        let n = vlen0(g, size, b, 24);
        s.lbr = if n <= 4 {
            (0..n).map(|_| (g.u64(), g.u64(), g.u64())).collect()
        } else {
            g.u64s(3 * n).chunks_exact(3).map(|c| (c[0], c[1], c[2])).collect()
        }
    }
    if c.has(st::REGS_USER) {
        s.regs_user = regs(g, c.regs_user)
    }
    if c.has(st::STACK_USER) {
        // the kernel rounds the size to a multiple of 8; the manual page lets any
        // size be (no array after it, which would meet the unaligned-array defect)
        let n = if g.pct(85) || c.has(st::REGS_INTR) { 8 * vlen0(g, size, b, 8) } else { vlen0(g, size, b, 1) };
        s.stack = g.bytes(n);
        s.dyn_size = match g.weighted(&[3, 2, 2]) {
            0 => n as u64,
            1 => g.upto(n as u64),
            _ => 0,
        };
    }
    if c.has(st::WEIGHT | st::WEIGHT_STRUCT) {
        s.weight = g.u64()
    }
    if c.has(st::DATA_SRC) {
        s.data_src = g.u64()
    }
    if c.has(st::TRANSACTION) {
        s.txn = g.u64()
    }
    if c.has(st::REGS_INTR) {
        s.regs_intr = regs(g, c.regs_intr)
    }
    if c.has(st::PHYS_ADDR) {
        s.phys_addr = g.u64()
    }
    if c.has(st::CGROUP) {
        s.cgroup = g.u64()
    }
    if c.has(st::DATA_PAGE_SIZE) {
        s.data_page = g.u64()
    }
    if c.has(st::CODE_PAGE_SIZE) {
        s.code_page = g.u64()
    }
    if c.has(st::AUX) {
        let n = vlen0(g, size, b, 1);
        s.aux = g.bytes(n)
    }
    s
}

/// NUL padding after a name: usually what the kernel writes (at least one NUL,
/// up to an 8-byte multiple), sometimes none or a lot.
fn name_pad(g: &mut G, n: usize, b: &mut usize) -> usize {
    let p = match g.weighted(&[6, 2, 1, 1]) {
        0 => 8 - n % 8,
        1 => 0,
        2 => g.range(1, 20),
        _ => g.range(1, 300),
    };
    let p = p.min(*b);
    *b -= p;
    p
}

fn name(g: &mut G, size: Size, b: &mut usize) -> (Vec<u8>, usize) {
    let max = match size {
        Size::Any => *b,
        Size::Small => (*b).min(120),
        Size::Tiny => (*b).min(16),
    };
    let v = if g.pct(10) { vec![] } else { g.name(max) };
    *b -= v.len();
    let p = name_pad(g, v.len(), b);
    (v, p)
}

pub fn body(g: &mut G, ty: u32, c: &Cfg, misc: u16, size: Size) -> Body {
    let mut budget = 65535 - 8 - 56 - 8 - 80usize;
    let b = &mut budget;
    match ty {
        rt::MMAP => {
            let (pid, tid, addr, len, pgoff) = (g.u32(), g.u32(), g.u64(), g.u64(), g.u64());
            let (name, pad) = name(g, size, b);
            Body::Mmap { pid, tid, addr, len, pgoff, name, pad }
        }
        rt::LOST => Body::Lost { id: g.u64(), lost: g.u64() },
        rt::COMM => {
            let (pid, tid) = (g.u32(), g.u32());
            let (name, pad) = name(g, size, b);
            Body::Comm { pid, tid, name, pad }
        }
        rt::EXIT | rt::FORK => Body::Exit { fork: ty == rt::FORK, pid: g.u32(), ppid: g.u32(), tid: g.u32(), ptid: g.u32(), time: g.u64() },
        rt::THROTTLE | rt::UNTHROTTLE => Body::Throttle { un: ty == rt::UNTHROTTLE, time: g.u64(), id: g.u64(), stream_id: g.u64() },
        rt::READ => Body::Read { pid: g.u32(), tid: g.u32(), val: read_m(g, c.read_format & !rf::GROUP, size, b) },
        rt::SAMPLE => Body::Sample(Box::new(sample(g, c, size))),
        rt::MMAP2 => {
            let (pid, tid, addr, len, pgoff) = (g.u32(), g.u32(), g.u64(), g.u64(), g.u64());
            let detail = if misc & MISC_BUILD_ID != 0 {
                let n = if g.pct(40) { 20 } else { g.range(0, 20) };
                let fill: [u8; 20] = g.bytes(20).try_into().unwrap();
                Detail::BuildId { id: fill[..n].to_vec(), fill, pad: [g.u8(), g.u8(), g.u8()] }
            } else {
                Detail::Inode { maj: g.u32(), min: g.u32(), ino: g.u64(), gen: g.u64() }
            };
            let (prot, flags) = (g.u32(), g.u32());
            let (name, pad) = name(g, size, b);
            Body::Mmap2 { pid, tid, addr, len, pgoff, detail, prot, flags, name, pad }
        }
        rt::AUX => Body::Aux { off: g.u64(), size: g.u64(), flags: g.u64() },
        rt::ITRACE_START => Body::ITrace { pid: g.u32(), tid: g.u32() },
        rt::LOST_SAMPLES => Body::LostSamples { lost: g.u64() },
        rt::SWITCH => Body::Switch,
        rt::SWITCH_CPU_WIDE => Body::SwitchCpuWide { pid: g.u32(), tid: g.u32() },
        rt::NAMESPACES => {
            let (pid, tid) = (g.u32(), g.u32());
            let n = match g.weighted(&[5, 5]) {
                0 => g.range(0, 8),
                _ => vlen(g, size, b, 16),
            };
            let w = g.u64s(2 * n);
            Body::Namespaces { pid, tid, ns: w.chunks_exact(2).map(|c| (c[0], c[1])).collect() }
        }
        rt::KSYMBOL => {
            let (addr, len, ty, flags) = (g.u64(), g.u32(), if g.bool() { g.upto(3) as u16 } else { g.u16() }, if g.bool() { g.upto(1) as u16 } else { g.u16() });
            let (name, pad) = name(g, size, b);
            Body::KSymbol { addr, len, ty, flags, name, pad }
        }
        rt::BPF_EVENT => Body::Bpf { ty: if g.bool() { g.upto(3) as u16 } else { g.u16() }, flags: g.u16(), id: g.u32(), tag: g.bytes(8).try_into().unwrap() },
        rt::CGROUP => {
            let id = g.u64();
            let (name, pad) = name(g, size, b);
            Body::CGroup { id, name, pad }
        }
        rt::TEXT_POKE => {
            let addr = g.u64();
            let o = vlen0(g, size, b, 1);
            let n = match g.weighted(&[5, 3]) {
                0 if *b >= o => {
                    *b -= o;
                    o
                }
                _ => vlen0(g, size, b, 1),
            };
            Body::TextPoke { addr, old: g.bytes(o), new: g.bytes(n), padb: if g.bool() { 0 } else { 0x90 } }
        }
        rt::AUX_OUTPUT_HW_ID => Body::AuxHwId { hw_id: g.u64() },
        _ => {
            let n = vlen0(g, size, b, 1);
            Body::Unknown { ty, data: g.bytes(n) }
        }
    }
}

pub fn sid(g: &mut G) -> SidM {
    SidM {
        pid: g.u32(),
        tid: g.u32(),
        time: g.u64(),
        id: g.u64(),
        stream_id: g.u64(),
        cpu: g.u32(),
        res: g.u32(),
        identifier: g.u64(),
    }
}

/// Any type, unknown ones included.
pub fn any_type(g: &mut G) -> u32 {
    match g.weighted(&[62, 28, 10]) {
        0 => g.pick(NON_SAMPLE),
        1 => rt::SAMPLE,
        _ => unknown_type(g),
    }
}

pub fn non_sample_type(g: &mut G) -> u32 {
    if g.pct(12) {
        unknown_type(g)
    } else {
        g.pick(NON_SAMPLE)
    }
}

/// A record of the given type that the library supports under `c`
/// (READ records clear GROUP in `c`).
pub fn rec(g: &mut G, ty: u32, c: &mut Cfg, size: Size) -> Rec {
    if ty == rt::READ {
        c.read_format &= !rf::GROUP;
    }
    let misc = misc(g);
    let body = body(g, ty, c, misc, size);
    let sid = if c.sample_id_all { sid(g) } else { SidM::default() };
    Rec { misc, body, sid, surplus: vec![] }
}

/// Add surplus bytes after the fields of a fixed-layout record.
pub fn add_surplus(g: &mut G, r: &mut Rec, c: &Cfg, max: usize) {
    if r.takes_rest() {
        return;
    }
    let room = 65535 - 8 - 56 - r.fields_len(c);
    let n = g.len(max.min(room));
    r.surplus = g.bytes(n);
}

// ------------------------------------------------------- corrupting inputs

/// `v` with bits added that a narrower integer would lose.
pub fn aliased(g: &mut G, v: u64) -> u64 {
    match g.weighted(&[2, 2, 1]) {
        0 => v.wrapping_add(1 << g.pick(&[8u32, 16, 31, 32, 48, 60, 61, 62, 63])),
        1 => v.wrapping_add(1 << g.range(8, 63)),
        _ => v.wrapping_add(g.u64() << 32),
    }
}

/// Values a corrupted length field may take.
pub fn wild_len(g: &mut G, width: u8, truth: u64) -> u64 {
    let max = if width == 8 { u64::MAX } else { (1u64 << (8 * width as u32)) - 1 };
    let v = match g.weighted(&[3, 3, 3, 3, 2, 2, 3]) {
        0 => truth.wrapping_add(1 + g.upto(8)),
        1 => truth.wrapping_sub(1 + g.upto(8)),
        2 => max - g.upto(16),
        // near the point where element sizes overflow 64 bits
        3 => {
            let d = g.pick(&[3u64, 6, 8, 12, 16, 24, 48, 2]);
            (u64::MAX / d).wrapping_add(g.upto(4)).wrapping_sub(2)
        }
        4 => 1u64 << g.below(64),
        5 => g.u64(),
        // the true value to anyone who drops the upper bits
        _ => aliased(g, truth),
    };
    v & max
}

/// Mutate an encoded record.  Returns a short description.
pub fn corrupt(g: &mut G, e: &Encoded, big: bool) -> (Vec<u8>, &'static str) {
    let mut b = e.bytes.clone();
    match g.weighted(&[25, 20, 15, 15, 15, 10]) {
        0 => {
            let i = g.below(e.lens.len());
            let (pos, w, v) = e.lens[i];
            let nv = wild_len(g, w, v);
            patch_int(&mut b, pos, w, nv, big);
            (b, "length patched")
        }
        1 => {
            let n = g.below(b.len() + 1);
            b.truncate(n);
            (b, "truncated")
        }
        // consistent truncation: header says so too
        2 => {
            let n = g.range(0, b.len());
            b.truncate(n.max(8));
            let n = b.len() as u64;
            patch_int(&mut b, 6, 2, n, big);
            (b, "shortened")
        }
        3 => {
            for _ in 0..g.range(1, 6) {
                let i = g.below(b.len());
                b[i] ^= 1 << g.below(8);
            }
            (b, "bits flipped")
        }
        4 => {
            let i = g.below(b.len());
            let j = (i + g.range(1, 16)).min(b.len());
            let r = g.bytes(j - i);
            b[i..j].copy_from_slice(&r);
            (b, "bytes overwritten")
        }
        _ => {
            for _ in 0..2 {
                let i = g.below(e.lens.len());
                let (pos, w, v) = e.lens[i];
                let nv = wild_len(g, w, v);
                patch_int(&mut b, pos, w, nv, big);
            }
            let n = g.below(b.len() + 1);
            if g.bool() {
                b.truncate(n);
            }
            (b, "lengths patched")
        }
    }
}

/// Completely arbitrary bytes, biased towards plausible headers.
pub fn arbitrary(g: &mut G, big: bool) -> Vec<u8> {
    let n = g.len(70000);
    let mut b = g.bytes(n);
    if g.pct(70) && b.len() >= 8 {
        let ty = any_type(g);
        let n = match g.weighted(&[5, 2, 2]) {
            0 => b.len().min(65535) as u64,
            1 => g.upto(65535),
            _ => g.upto(b.len().min(65535) as u64),
        };
        let m = misc(g) as u64;
        patch_int(&mut b, 0, 4, ty as u64, big);
        patch_int(&mut b, 4, 2, m, big);
        patch_int(&mut b, 6, 2, n, big);
    }
    b
}

pub fn ty_name(t: u32) -> &'static str {
    const N: &[&str] = &[
        "UNKNOWN", "MMAP", "LOST", "COMM", "EXIT", "THROTTLE", "UNTHROTTLE", "FORK", "READ", "SAMPLE", "MMAP2", "AUX",
        "ITRACE_START", "LOST_SAMPLES", "SWITCH", "SWITCH_CPU_WIDE", "NAMESPACES", "KSYMBOL", "BPF_EVENT", "CGROUP",
        "TEXT_POKE", "AUX_OUTPUT_HW_ID",
    ];
    N.get(t as usize).copied().unwrap_or("UNKNOWN")
}

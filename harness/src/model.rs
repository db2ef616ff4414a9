//! Independent reference model of the perf_event ABI.
//!
//! Nothing here calls the library under test: bit numbers and layouts are
//! written down from perf_event_open(2) and the kernel's uapi header.  A record
//! is a plain value (`Rec`) that can be encoded in either byte order and
//! described as an observation tree (`V`).  `decode_*` is a separate,
//! byte-by-byte reference decoder used for arbitrary inputs.

use std::fmt;

// ---------------------------------------------------------------- value tree

#[derive(Clone, PartialEq)]
pub enum V {
    /// absent
    N,
    U(u64),
    B(Vec<u8>),
    W(Vec<u64>),
    L(Vec<V>),
    S(&'static str, Vec<(&'static str, V)>),
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::N => write!(f, "-"),
            V::U(x) => write!(f, "{x:#x}"),
            V::B(b) => {
                write!(f, "bytes[{}]:", b.len())?;
                for x in b.iter().take(48) {
                    write!(f, "{x:02x}")?;
                }
                if b.len() > 48 {
                    write!(f, "..")?;
                }
                Ok(())
            }
            V::W(w) => {
                write!(f, "u64s[{}]:", w.len())?;
                for x in w.iter().take(8) {
                    write!(f, "{x:#x},")?;
                }
                Ok(())
            }
            V::L(l) => {
                write!(f, "[{} items: ", l.len())?;
                for x in l.iter().take(4) {
                    write!(f, "{x:?}, ")?;
                }
                write!(f, "]")
            }
            V::S(n, fs) => {
                write!(f, "{n}{{")?;
                for (k, v) in fs {
                    if *v != V::N {
                        write!(f, "{k}={v:?} ")?;
                    }
                }
                write!(f, "}}")
            }
        }
    }
}

/// Path of the first difference between two trees.
pub fn diff(a: &V, b: &V) -> Option<String> {
    match (a, b) {
        (V::S(n, x), V::S(m, y)) => {
            if n != m {
                return Some(format!(": variant {n} vs {m}"));
            }
            for (i, (k, v)) in x.iter().enumerate() {
                match y.get(i) {
                    Some((k2, v2)) if k == k2 => {
                        if let Some(d) = diff(v, v2) {
                            return Some(format!(".{k}{d}"));
                        }
                    }
                    _ => return Some(format!(".{k}: field list differs")),
                }
            }
            (x.len() != y.len()).then(|| ": field count differs".to_string())
        }
        (V::L(x), V::L(y)) => {
            if x.len() != y.len() {
                return Some(format!(": length {} vs {}", x.len(), y.len()));
            }
            x.iter()
                .zip(y)
                .enumerate()
                .find_map(|(i, (p, q))| diff(p, q).map(|d| format!("[{i}]{d}")))
        }
        _ if a == b => None,
        _ => Some(format!(": {a:?} vs {b:?}")),
    }
}

pub fn opt(present: bool, v: u64) -> V {
    if present {
        V::U(v)
    } else {
        V::N
    }
}

// --------------------------------------------------------------------- ABI

pub mod st {
    pub const IP: u64 = 1 << 0;
    pub const TID: u64 = 1 << 1;
    pub const TIME: u64 = 1 << 2;
    pub const ADDR: u64 = 1 << 3;
    pub const READ: u64 = 1 << 4;
    pub const CALLCHAIN: u64 = 1 << 5;
    pub const ID: u64 = 1 << 6;
    pub const CPU: u64 = 1 << 7;
    pub const PERIOD: u64 = 1 << 8;
    pub const STREAM_ID: u64 = 1 << 9;
    pub const RAW: u64 = 1 << 10;
    pub const BRANCH_STACK: u64 = 1 << 11;
    pub const REGS_USER: u64 = 1 << 12;
    pub const STACK_USER: u64 = 1 << 13;
    pub const WEIGHT: u64 = 1 << 14;
    pub const DATA_SRC: u64 = 1 << 15;
    pub const IDENTIFIER: u64 = 1 << 16;
    pub const TRANSACTION: u64 = 1 << 17;
    pub const REGS_INTR: u64 = 1 << 18;
    pub const PHYS_ADDR: u64 = 1 << 19;
    pub const AUX: u64 = 1 << 20;
    pub const CGROUP: u64 = 1 << 21;
    pub const DATA_PAGE_SIZE: u64 = 1 << 22;
    pub const CODE_PAGE_SIZE: u64 = 1 << 23;
    pub const WEIGHT_STRUCT: u64 = 1 << 24;
    pub const ALL: u64 = (1 << 25) - 1;
    pub const SID: u64 = TID | TIME | ID | STREAM_ID | CPU | IDENTIFIER;
    pub const NAMES: &[(&str, u64)] = &[
        ("IP", IP), ("TID", TID), ("TIME", TIME), ("ADDR", ADDR), ("READ", READ), ("CALLCHAIN", CALLCHAIN),
        ("ID", ID), ("CPU", CPU), ("PERIOD", PERIOD), ("STREAM_ID", STREAM_ID), ("RAW", RAW),
        ("BRANCH_STACK", BRANCH_STACK), ("REGS_USER", REGS_USER), ("STACK_USER", STACK_USER),
        ("WEIGHT", WEIGHT), ("DATA_SRC", DATA_SRC), ("IDENTIFIER", IDENTIFIER), ("TRANSACTION", TRANSACTION),
        ("REGS_INTR", REGS_INTR), ("PHYS_ADDR", PHYS_ADDR), ("AUX", AUX), ("CGROUP", CGROUP),
        ("DATA_PAGE_SIZE", DATA_PAGE_SIZE), ("CODE_PAGE_SIZE", CODE_PAGE_SIZE), ("WEIGHT_STRUCT", WEIGHT_STRUCT),
    ];
}

pub mod rf {
    pub const ENABLED: u64 = 1;
    pub const RUNNING: u64 = 2;
    pub const ID: u64 = 4;
    pub const GROUP: u64 = 8;
    pub const LOST: u64 = 16;
    pub const ALL: u64 = 31;
}

pub mod rt {
    pub const MMAP: u32 = 1;
    pub const LOST: u32 = 2;
    pub const COMM: u32 = 3;
    pub const EXIT: u32 = 4;
    pub const THROTTLE: u32 = 5;
    pub const UNTHROTTLE: u32 = 6;
    pub const FORK: u32 = 7;
    pub const READ: u32 = 8;
    pub const SAMPLE: u32 = 9;
    pub const MMAP2: u32 = 10;
    pub const AUX: u32 = 11;
    pub const ITRACE_START: u32 = 12;
    pub const LOST_SAMPLES: u32 = 13;
    pub const SWITCH: u32 = 14;
    pub const SWITCH_CPU_WIDE: u32 = 15;
    pub const NAMESPACES: u32 = 16;
    pub const KSYMBOL: u32 = 17;
    pub const BPF_EVENT: u32 = 18;
    pub const CGROUP: u32 = 19;
    pub const TEXT_POKE: u32 = 20;
    pub const AUX_OUTPUT_HW_ID: u32 = 21;
}

pub const MISC_SWITCH_OUT: u16 = 1 << 13;
pub const MISC_BUILD_ID: u16 = 1 << 14;

/// Configuration as the kernel sees it (the parts that shape records).
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub sample_type: u64,
    pub read_format: u64,
    pub sample_id_all: bool,
    pub hw_index: bool,
    pub regs_user: u64,
    pub regs_intr: u64,
    /// seed for attribute fields that must not matter
    pub noise: u64,
}

impl Cfg {
    pub fn has(&self, f: u64) -> bool {
        self.sample_type & f != 0
    }
    pub fn fmt(&self, f: u64) -> bool {
        self.read_format & f != 0
    }
    /// Length of the sample-id trailer.
    pub fn sid_len(&self) -> usize {
        if self.sample_id_all {
            (self.sample_type & st::SID).count_ones() as usize * 8
        } else {
            0
        }
    }
}

// ------------------------------------------------------------------ encoder

/// Where a length or count was written: (offset in output, width, true value).
pub type LenField = (usize, u8, u64);

pub struct Enc {
    pub big: bool,
    pub out: Vec<u8>,
    pub lens: Vec<LenField>,
    /// variable-length payloads: (field, offset, length in bytes)
    pub marks: Vec<(&'static str, usize, usize)>,
}

impl Enc {
    pub fn mark(&mut self, name: &'static str, len: usize) {
        self.marks.push((name, self.out.len(), len))
    }
    pub fn new(big: bool) -> Self {
        Enc { big, out: Vec::new(), lens: Vec::new(), marks: Vec::new() }
    }
    pub fn u8(&mut self, v: u8) {
        self.out.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        let b = [(v >> 8) as u8, v as u8];
        self.put(&b)
    }
    pub fn u32(&mut self, v: u32) {
        let b = [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8];
        self.put(&b)
    }
    pub fn u64(&mut self, v: u64) {
        let mut b = [0u8; 8];
        for (i, x) in b.iter_mut().enumerate() {
            *x = (v >> (56 - 8 * i)) as u8;
        }
        self.put(&b)
    }
    /// Writes big-endian bytes in the configured order.
    fn put(&mut self, be: &[u8]) {
        if self.big {
            self.out.extend_from_slice(be)
        } else {
            self.out.extend(be.iter().rev())
        }
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b)
    }
    pub fn len64(&mut self, v: u64) {
        self.lens.push((self.out.len(), 8, v));
        self.u64(v)
    }
    pub fn len32(&mut self, v: u32) {
        self.lens.push((self.out.len(), 4, v as u64));
        self.u32(v)
    }
    pub fn len16(&mut self, v: u16) {
        self.lens.push((self.out.len(), 2, v as u64));
        self.u16(v)
    }
    pub fn len8(&mut self, v: u8) {
        self.lens.push((self.out.len(), 1, v as u64));
        self.u8(v)
    }
}

pub fn patch_int(buf: &mut [u8], pos: usize, width: u8, v: u64, big: bool) {
    let w = width as usize;
    for i in 0..w {
        let byte = (v >> (8 * i)) as u8;
        let at = if big { pos + w - 1 - i } else { pos + i };
        if at < buf.len() {
            buf[at] = byte;
        }
    }
}

// ----------------------------------------------------------------- records

#[derive(Clone, Debug, Default)]
pub struct Counter {
    pub value: u64,
    pub id: u64,
    pub lost: u64,
}

#[derive(Clone, Debug, Default)]
pub struct ReadM {
    pub time_enabled: u64,
    pub time_running: u64,
    /// exactly one entry unless GROUP
    pub entries: Vec<Counter>,
}

impl ReadM {
    pub fn encode(&self, e: &mut Enc, fmt: u64) {
        let en = fmt & rf::ENABLED != 0;
        let ru = fmt & rf::RUNNING != 0;
        let id = fmt & rf::ID != 0;
        let lo = fmt & rf::LOST != 0;
        if fmt & rf::GROUP != 0 {
            e.len64(self.entries.len() as u64);
            if en {
                e.u64(self.time_enabled)
            }
            if ru {
                e.u64(self.time_running)
            }
            for c in &self.entries {
                e.u64(c.value);
                if id {
                    e.u64(c.id)
                }
                if lo {
                    e.u64(c.lost)
                }
            }
        } else {
            let c = &self.entries[0];
            e.u64(c.value);
            if en {
                e.u64(self.time_enabled)
            }
            if ru {
                e.u64(self.time_running)
            }
            if id {
                e.u64(c.id)
            }
            if lo {
                e.u64(c.lost)
            }
        }
    }
    pub fn entry_tree(c: &Counter, fmt: u64) -> V {
        V::S("Entry", vec![
            ("value", V::U(c.value)),
            ("id", opt(fmt & rf::ID != 0, c.id)),
            ("lost", opt(fmt & rf::LOST != 0, c.lost)),
        ])
    }
    pub fn group_tree(&self, fmt: u64) -> V {
        V::S("Group", vec![
            ("time_enabled", opt(fmt & rf::ENABLED != 0, self.time_enabled)),
            ("time_running", opt(fmt & rf::RUNNING != 0, self.time_running)),
            ("entries", V::L(self.entries.iter().map(|c| Self::entry_tree(c, fmt)).collect())),
        ])
    }
    pub fn value_tree(&self, fmt: u64) -> V {
        self.value_tree_of(&self.entries[0], fmt)
    }
    pub fn value_tree_of(&self, c: &Counter, fmt: u64) -> V {
        V::S("Value", vec![
            ("value", V::U(c.value)),
            ("time_enabled", opt(fmt & rf::ENABLED != 0, self.time_enabled)),
            ("time_running", opt(fmt & rf::RUNNING != 0, self.time_running)),
            ("id", opt(fmt & rf::ID != 0, c.id)),
            ("lost", opt(fmt & rf::LOST != 0, c.lost)),
        ])
    }
}

/// A branch entry: from, to, flags word.
pub type Branch = (u64, u64, u64);

fn bits(w: u64, lo: u32, n: u32) -> u64 {
    (w >> lo) & (u64::MAX >> (64 - n))
}

pub fn branch_tree(b: &Branch) -> V {
    let f = b.2;
    V::S("Branch", vec![
        ("from", V::U(b.0)),
        ("to", V::U(b.1)),
        ("mispred", V::U(bits(f, 0, 1))),
        ("predicted", V::U(bits(f, 1, 1))),
        ("in_tx", V::U(bits(f, 2, 1))),
        ("abort", V::U(bits(f, 3, 1))),
        ("cycles", V::U(bits(f, 4, 16))),
        ("type", V::U(bits(f, 20, 4))),
    ])
}

/// union perf_mem_data_src: op:5 lvl:14 snoop:5 lock:2 dtlb:7 lvl_num:4
/// remote:1 snoopx:2 blk:3 hops:3
pub fn data_src_tree(w: u64) -> V {
    V::S("DataSrc", vec![
        ("op", V::U(bits(w, 0, 5))),
        ("lvl", V::U(bits(w, 5, 14))),
        // the crate's combined snoop type keeps both fields at their kernel shifts
        ("snoop", V::U((bits(w, 19, 5) << 19) | (bits(w, 38, 2) << 38))),
        ("lock", V::U(bits(w, 24, 2))),
        ("dtlb", V::U(bits(w, 26, 7))),
        ("lvl_num", V::U(bits(w, 33, 4))),
        ("remote", V::U(bits(w, 37, 1))),
        ("blk", V::U(bits(w, 40, 3))),
        ("hops", V::U(bits(w, 43, 3))),
    ])
}

#[derive(Clone, Debug, Default)]
pub struct RegsM {
    pub abi: u64,
    pub regs: Vec<u64>,
}

impl RegsM {
    fn tree(&self, mask: u64) -> V {
        V::S("Regs", vec![
            ("abi", V::U(self.abi)),
            ("mask", V::U(mask)),
            ("regs", V::W(if self.abi == 0 { vec![] } else { self.regs.clone() })),
        ])
    }
    fn encode(&self, e: &mut Enc, name: &'static str) {
        e.u64(self.abi);
        if self.abi != 0 {
            e.mark(name, self.regs.len() * 8);
            for r in &self.regs {
                e.u64(*r)
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct SampleM {
    pub identifier: u64,
    pub ip: u64,
    pub pid: u32,
    pub tid: u32,
    pub time: u64,
    pub addr: u64,
    pub id: u64,
    pub stream_id: u64,
    pub cpu: u32,
    pub cpu_res: u32,
    pub period: u64,
    pub values: ReadM,
    pub callchain: Vec<u64>,
    pub raw: Vec<u8>,
    pub raw_pad: u8,
    pub hw_index: u64,
    pub lbr: Vec<Branch>,
    pub regs_user: RegsM,
    /// full static area
    pub stack: Vec<u8>,
    pub dyn_size: u64,
    pub weight: u64,
    pub data_src: u64,
    pub txn: u64,
    pub regs_intr: RegsM,
    pub phys_addr: u64,
    pub cgroup: u64,
    pub data_page: u64,
    pub code_page: u64,
    pub aux: Vec<u8>,
}

impl SampleM {
    pub fn encode(&self, e: &mut Enc, c: &Cfg) {
        let start = e.out.len();
        if c.has(st::IDENTIFIER) {
            e.u64(self.identifier)
        }
        if c.has(st::IP) {
            e.u64(self.ip)
        }
        if c.has(st::TID) {
            e.u32(self.pid);
            e.u32(self.tid)
        }
        if c.has(st::TIME) {
            e.u64(self.time)
        }
        if c.has(st::ADDR) {
            e.u64(self.addr)
        }
        if c.has(st::ID) {
            e.u64(self.id)
        }
        if c.has(st::STREAM_ID) {
            e.u64(self.stream_id)
        }
        if c.has(st::CPU) {
            e.u32(self.cpu);
            e.u32(self.cpu_res)
        }
        if c.has(st::PERIOD) {
            e.u64(self.period)
        }
        if c.has(st::READ) {
            self.values.encode(e, c.read_format)
        }
        if c.has(st::CALLCHAIN) {
            e.len64(self.callchain.len() as u64);
            e.mark("callchain", self.callchain.len() * 8);
            for x in &self.callchain {
                e.u64(*x)
            }
        }
        if c.has(st::RAW) {
            e.len32(self.raw.len() as u32);
            e.mark("raw", self.raw.len());
            e.bytes(&self.raw);
            while (e.out.len() - start) % 8 != 0 {
                e.u8(self.raw_pad)
            }
        }
        if c.has(st::BRANCH_STACK) {
            e.len64(self.lbr.len() as u64);
            if c.hw_index {
                e.u64(self.hw_index)
            }
            e.mark("lbr", self.lbr.len() * 24);
            for b in &self.lbr {
                e.u64(b.0);
                e.u64(b.1);
                e.u64(b.2)
            }
        }
        if c.has(st::REGS_USER) {
            self.regs_user.encode(e, "regs_user")
        }
        if c.has(st::STACK_USER) {
            e.len64(self.stack.len() as u64);
            if !self.stack.is_empty() {
                e.mark("stack_user", self.dyn_size as usize);
                e.bytes(&self.stack);
                e.len64(self.dyn_size)
            }
        }
        if c.has(st::WEIGHT | st::WEIGHT_STRUCT) {
            e.u64(self.weight)
        }
        if c.has(st::DATA_SRC) {
            e.u64(self.data_src)
        }
        if c.has(st::TRANSACTION) {
            e.u64(self.txn)
        }
        if c.has(st::REGS_INTR) {
            self.regs_intr.encode(e, "regs_intr")
        }
        if c.has(st::PHYS_ADDR) {
            e.u64(self.phys_addr)
        }
        if c.has(st::CGROUP) {
            e.u64(self.cgroup)
        }
        if c.has(st::DATA_PAGE_SIZE) {
            e.u64(self.data_page)
        }
        if c.has(st::CODE_PAGE_SIZE) {
            e.u64(self.code_page)
        }
        if c.has(st::AUX) {
            e.len64(self.aux.len() as u64);
            e.mark("aux", self.aux.len());
            e.bytes(&self.aux)
        }
    }

    pub fn tree(&self, c: &Cfg) -> V {
        let o = |f: u64, v: u64| opt(c.has(f), v);
        let w = |f: u64, v: V| if c.has(f) { v } else { V::N };
        let id = if c.has(st::ID) {
            V::U(self.id)
        } else {
            o(st::IDENTIFIER, self.identifier)
        };
        let dynlen = if self.stack.is_empty() { 0 } else { self.dyn_size as usize };
        V::S("Sample", vec![
            ("ip", o(st::IP, self.ip)),
            ("pid", o(st::TID, self.pid as u64)),
            ("tid", o(st::TID, self.tid as u64)),
            ("time", o(st::TIME, self.time)),
            ("addr", o(st::ADDR, self.addr)),
            ("id", id),
            ("stream_id", o(st::STREAM_ID, self.stream_id)),
            ("cpu", o(st::CPU, self.cpu as u64)),
            ("period", o(st::PERIOD, self.period)),
            ("values", if c.has(st::READ) { self.values.group_tree(c.read_format) } else { V::N }),
            ("callchain", w(st::CALLCHAIN, V::W(self.callchain.clone()))),
            ("raw", w(st::RAW, V::B(self.raw.clone()))),
            ("lbr_hw_index", opt(c.has(st::BRANCH_STACK) && c.hw_index, self.hw_index)),
            ("lbr", w(st::BRANCH_STACK, V::L(self.lbr.iter().map(branch_tree).collect()))),
            ("regs_user", w(st::REGS_USER, self.regs_user.tree(c.regs_user))),
            ("stack_user", w(st::STACK_USER, V::B(self.stack[..dynlen.min(self.stack.len())].to_vec()))),
            ("weight", o(st::WEIGHT | st::WEIGHT_STRUCT, self.weight)),
            ("data_src", w(st::DATA_SRC, data_src_tree(self.data_src))),
            ("transaction", o(st::TRANSACTION, self.txn)),
            ("regs_intr", w(st::REGS_INTR, self.regs_intr.tree(c.regs_intr))),
            ("phys_addr", o(st::PHYS_ADDR, self.phys_addr)),
            ("aux", w(st::AUX, V::B(self.aux.clone()))),
            ("cgroup", o(st::CGROUP, self.cgroup)),
            ("data_page_size", o(st::DATA_PAGE_SIZE, self.data_page)),
            ("code_page_size", o(st::CODE_PAGE_SIZE, self.code_page)),
        ])
    }
}

#[derive(Clone, Debug)]
pub enum Detail {
    Inode { maj: u32, min: u32, ino: u64, gen: u64 },
    BuildId { id: Vec<u8>, fill: [u8; 20], pad: [u8; 3] },
}

#[derive(Clone, Debug)]
pub enum Body {
    Mmap { pid: u32, tid: u32, addr: u64, len: u64, pgoff: u64, name: Vec<u8>, pad: usize },
    Lost { id: u64, lost: u64 },
    Comm { pid: u32, tid: u32, name: Vec<u8>, pad: usize },
    Exit { fork: bool, pid: u32, ppid: u32, tid: u32, ptid: u32, time: u64 },
    Throttle { un: bool, time: u64, id: u64, stream_id: u64 },
    Read { pid: u32, tid: u32, val: ReadM },
    Sample(Box<SampleM>),
    Mmap2 { pid: u32, tid: u32, addr: u64, len: u64, pgoff: u64, detail: Detail, prot: u32, flags: u32, name: Vec<u8>, pad: usize },
    Aux { off: u64, size: u64, flags: u64 },
    ITrace { pid: u32, tid: u32 },
    LostSamples { lost: u64 },
    Switch,
    SwitchCpuWide { pid: u32, tid: u32 },
    Namespaces { pid: u32, tid: u32, ns: Vec<(u64, u64)> },
    KSymbol { addr: u64, len: u32, ty: u16, flags: u16, name: Vec<u8>, pad: usize },
    Bpf { ty: u16, flags: u16, id: u32, tag: [u8; 8] },
    CGroup { id: u64, name: Vec<u8>, pad: usize },
    TextPoke { addr: u64, old: Vec<u8>, new: Vec<u8>, padb: u8 },
    AuxHwId { hw_id: u64 },
    Unknown { ty: u32, data: Vec<u8> },
}

#[derive(Clone, Debug, Default)]
pub struct SidM {
    pub pid: u32,
    pub tid: u32,
    pub time: u64,
    pub id: u64,
    pub stream_id: u64,
    pub cpu: u32,
    pub res: u32,
    pub identifier: u64,
}

impl SidM {
    pub fn encode(&self, e: &mut Enc, c: &Cfg) {
        if !c.sample_id_all {
            return;
        }
        if c.has(st::TID) {
            e.u32(self.pid);
            e.u32(self.tid)
        }
        if c.has(st::TIME) {
            e.u64(self.time)
        }
        if c.has(st::ID) {
            e.u64(self.id)
        }
        if c.has(st::STREAM_ID) {
            e.u64(self.stream_id)
        }
        if c.has(st::CPU) {
            e.u32(self.cpu);
            e.u32(self.res)
        }
        if c.has(st::IDENTIFIER) {
            e.u64(self.identifier)
        }
    }
    pub fn tree(&self, c: &Cfg) -> V {
        let a = c.sample_id_all;
        let id = if a && c.has(st::ID) {
            V::U(self.id)
        } else {
            opt(a && c.has(st::IDENTIFIER), self.identifier)
        };
        sid_tree(
            opt(a && c.has(st::TID), self.pid as u64),
            opt(a && c.has(st::TID), self.tid as u64),
            opt(a && c.has(st::TIME), self.time),
            id,
            opt(a && c.has(st::STREAM_ID), self.stream_id),
            opt(a && c.has(st::CPU), self.cpu as u64),
        )
    }
    pub fn empty_tree() -> V {
        sid_tree(V::N, V::N, V::N, V::N, V::N, V::N)
    }
}

pub fn sid_tree(pid: V, tid: V, time: V, id: V, stream_id: V, cpu: V) -> V {
    V::S("SampleId", vec![("pid", pid), ("tid", tid), ("time", time), ("id", id), ("stream_id", stream_id), ("cpu", cpu)])
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub misc: u16,
    pub body: Body,
    pub sid: SidM,
    /// bytes between the record's own fields and the trailer
    pub surplus: Vec<u8>,
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub body: std::ops::Range<usize>,
    /// length fields, offsets relative to `bytes`
    pub lens: Vec<LenField>,
    pub marks: Vec<(&'static str, usize, usize)>,
}

fn name_tree(n: &[u8]) -> V {
    let end = n.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
    V::B(n[..end].to_vec())
}

fn ns_entry(e: Option<&(u64, u64)>) -> V {
    match e {
        Some(e) => V::S("Ns", vec![("dev", V::U(e.0)), ("inode", V::U(e.1))]),
        None => V::N,
    }
}

pub fn namespaces_tree(pid: u32, tid: u32, ns: &[(u64, u64)]) -> V {
    V::S("Namespaces", vec![
        ("pid", V::U(pid as u64)),
        ("tid", V::U(tid as u64)),
        ("namespaces", V::L(ns.iter().map(|e| ns_entry(Some(e))).collect())),
        // kernel index order: net, uts, ipc, pid, user, mnt, cgroup
        ("ns_net", ns_entry(ns.first())),
        ("ns_uts", ns_entry(ns.get(1))),
        ("ns_ipc", ns_entry(ns.get(2))),
        ("ns_pid", ns_entry(ns.get(3))),
        ("ns_user", ns_entry(ns.get(4))),
        ("ns_cgroup", ns_entry(ns.get(6))),
    ])
}

impl Rec {
    pub fn ty(&self) -> u32 {
        match &self.body {
            Body::Mmap { .. } => rt::MMAP,
            Body::Lost { .. } => rt::LOST,
            Body::Comm { .. } => rt::COMM,
            Body::Exit { fork: false, .. } => rt::EXIT,
            Body::Exit { fork: true, .. } => rt::FORK,
            Body::Throttle { un: false, .. } => rt::THROTTLE,
            Body::Throttle { un: true, .. } => rt::UNTHROTTLE,
            Body::Read { .. } => rt::READ,
            Body::Sample(_) => rt::SAMPLE,
            Body::Mmap2 { .. } => rt::MMAP2,
            Body::Aux { .. } => rt::AUX,
            Body::ITrace { .. } => rt::ITRACE_START,
            Body::LostSamples { .. } => rt::LOST_SAMPLES,
            Body::Switch => rt::SWITCH,
            Body::SwitchCpuWide { .. } => rt::SWITCH_CPU_WIDE,
            Body::Namespaces { .. } => rt::NAMESPACES,
            Body::KSymbol { .. } => rt::KSYMBOL,
            Body::Bpf { .. } => rt::BPF_EVENT,
            Body::CGroup { .. } => rt::CGROUP,
            Body::TextPoke { .. } => rt::TEXT_POKE,
            Body::AuxHwId { .. } => rt::AUX_OUTPUT_HW_ID,
            Body::Unknown { ty, .. } => *ty,
        }
    }

    /// Records whose last field runs to the end of the record body.
    pub fn takes_rest(&self) -> bool {
        matches!(
            self.body,
            Body::Mmap { .. } | Body::Comm { .. } | Body::Mmap2 { .. } | Body::KSymbol { .. } | Body::CGroup { .. } | Body::Unknown { .. }
        )
    }

    pub fn has_trailer(&self) -> bool {
        !matches!(self.ty(), rt::MMAP | rt::SAMPLE)
    }

    pub fn encode_body(&self, e: &mut Enc, c: &Cfg) {
        let name = |e: &mut Enc, n: &[u8], pad: usize| {
            e.mark("name", n.len());
            e.bytes(n);
            for _ in 0..pad {
                e.u8(0)
            }
        };
        match &self.body {
            Body::Mmap { pid, tid, addr, len, pgoff, name: n, pad } => {
                e.u32(*pid);
                e.u32(*tid);
                e.u64(*addr);
                e.u64(*len);
                e.u64(*pgoff);
                name(e, n, *pad)
            }
            Body::Lost { id, lost } => {
                e.u64(*id);
                e.u64(*lost)
            }
            Body::Comm { pid, tid, name: n, pad } => {
                e.u32(*pid);
                e.u32(*tid);
                name(e, n, *pad)
            }
            Body::Exit { pid, ppid, tid, ptid, time, .. } => {
                e.u32(*pid);
                e.u32(*ppid);
                e.u32(*tid);
                e.u32(*ptid);
                e.u64(*time)
            }
            Body::Throttle { time, id, stream_id, .. } => {
                e.u64(*time);
                e.u64(*id);
                e.u64(*stream_id)
            }
            Body::Read { pid, tid, val } => {
                e.u32(*pid);
                e.u32(*tid);
                val.encode(e, c.read_format)
            }
            Body::Sample(s) => s.encode(e, c),
            Body::Mmap2 { pid, tid, addr, len, pgoff, detail, prot, flags, name: n, pad } => {
                e.u32(*pid);
                e.u32(*tid);
                e.u64(*addr);
                e.u64(*len);
                e.u64(*pgoff);
                match detail {
                    Detail::Inode { maj, min, ino, gen } => {
                        e.u32(*maj);
                        e.u32(*min);
                        e.u64(*ino);
                        e.u64(*gen)
                    }
                    Detail::BuildId { id, fill, pad } => {
                        e.len8(id.len() as u8);
                        e.bytes(pad);
                        let mut b = *fill;
                        b[..id.len()].copy_from_slice(id);
                        e.bytes(&b)
                    }
                }
                e.u32(*prot);
                e.u32(*flags);
                name(e, n, *pad)
            }
            Body::Aux { off, size, flags } => {
                e.u64(*off);
                e.u64(*size);
                e.u64(*flags)
            }
            Body::ITrace { pid, tid } | Body::SwitchCpuWide { pid, tid } => {
                e.u32(*pid);
                e.u32(*tid)
            }
            Body::LostSamples { lost } => e.u64(*lost),
            Body::Switch => {}
            Body::Namespaces { pid, tid, ns } => {
                e.u32(*pid);
                e.u32(*tid);
                e.len64(ns.len() as u64);
                e.mark("namespaces", ns.len() * 16);
                for (d, i) in ns {
                    e.u64(*d);
                    e.u64(*i)
                }
            }
            Body::KSymbol { addr, len, ty, flags, name: n, pad } => {
                e.u64(*addr);
                e.u32(*len);
                e.u16(*ty);
                e.u16(*flags);
                name(e, n, *pad)
            }
            Body::Bpf { ty, flags, id, tag } => {
                e.u16(*ty);
                e.u16(*flags);
                e.u32(*id);
                e.bytes(tag)
            }
            Body::CGroup { id, name: n, pad } => {
                e.u64(*id);
                name(e, n, *pad)
            }
            Body::TextPoke { addr, old, new, padb } => {
                let s = e.out.len();
                e.u64(*addr);
                e.len16(old.len() as u16);
                e.len16(new.len() as u16);
                e.mark("old_bytes", old.len());
                e.bytes(old);
                e.mark("new_bytes", new.len());
                e.bytes(new);
                while (e.out.len() - s) % 8 != 0 {
                    e.u8(*padb)
                }
            }
            Body::AuxHwId { hw_id } => e.u64(*hw_id),
            Body::Unknown { data, .. } => {
                e.mark("data", data.len());
                e.bytes(data)
            }
        }
    }

    /// Length of the record's own fields.
    pub fn fields_len(&self, c: &Cfg) -> usize {
        let mut e = Enc::new(false);
        self.encode_body(&mut e, c);
        e.out.len()
    }

    pub fn encode(&self, c: &Cfg, big: bool) -> Encoded {
        let mut e = Enc::new(big);
        e.u32(self.ty());
        e.u16(self.misc);
        e.u16(0);
        self.encode_body(&mut e, c);
        e.bytes(&self.surplus);
        let body_end = e.out.len();
        if self.has_trailer() {
            self.sid.encode(&mut e, c);
        }
        let size = e.out.len();
        assert!(size <= 65535, "generator produced an oversized record");
        let mut out = e.out;
        patch_int(&mut out, 6, 2, size as u64, big);
        let mut lens = e.lens;
        let marks = e.marks;
        lens.push((6, 2, size as u64));
        Encoded { bytes: out, body: 8..body_end, lens, marks }
    }

    pub fn tree(&self, c: &Cfg) -> V {
        let u = |x: u32| V::U(x as u64);
        // records that run to the end absorb the surplus
        let rest = |n: &[u8], pad: usize| {
            let mut v = n.to_vec();
            v.resize(n.len() + pad, 0);
            v.extend_from_slice(&self.surplus);
            name_tree(&v)
        };
        match &self.body {
            Body::Mmap { pid, tid, addr, len, pgoff, name, pad } => {
                mmap_tree("Mmap", *pid, *tid, *addr, *len, *pgoff, rest(name, *pad))
            }
            Body::Lost { id, lost } => V::S("Lost", vec![("id", V::U(*id)), ("lost", V::U(*lost))]),
            Body::Comm { pid, tid, name, pad } => {
                V::S("Comm", vec![("pid", u(*pid)), ("tid", u(*tid)), ("comm", rest(name, *pad))])
            }
            Body::Exit { fork, pid, ppid, tid, ptid, time } => V::S(if *fork { "Fork" } else { "Exit" }, vec![
                ("pid", u(*pid)),
                ("ppid", u(*ppid)),
                ("tid", u(*tid)),
                ("ptid", u(*ptid)),
                ("time", V::U(*time)),
            ]),
            Body::Throttle { un, time, id, stream_id } => V::S(if *un { "Unthrottle" } else { "Throttle" }, vec![
                ("time", V::U(*time)),
                ("id", V::U(*id)),
                ("stream_id", V::U(*stream_id)),
            ]),
            Body::Read { pid, tid, val } => {
                V::S("Read", vec![("pid", u(*pid)), ("tid", u(*tid)), ("values", val.value_tree(c.read_format))])
            }
            Body::Sample(s) => s.tree(c),
            Body::Mmap2 { pid, tid, addr, len, pgoff, detail, prot, flags, name, pad } => {
                let (maj, min, ino, gen, bid) = match detail {
                    Detail::Inode { maj, min, ino, gen } => (u(*maj), u(*min), V::U(*ino), V::U(*gen), V::N),
                    Detail::BuildId { id, .. } => (V::N, V::N, V::N, V::N, V::B(id.clone())),
                };
                mmap2_tree(*pid, *tid, *addr, *len, *pgoff, maj, min, ino, gen, bid, *prot, *flags, rest(name, *pad))
            }
            Body::Aux { off, size, flags } => V::S("Aux", vec![
                ("aux_offset", V::U(*off)),
                ("aux_size", V::U(*size)),
                ("flags", V::U(*flags)),
                ("pmu_format", V::U((*flags >> 8) & 0xff)),
            ]),
            Body::ITrace { pid, tid } => V::S("ITraceStart", vec![("pid", u(*pid)), ("tid", u(*tid))]),
            Body::LostSamples { lost } => V::S("LostSamples", vec![("lost", V::U(*lost))]),
            Body::Switch => V::S("Switch", vec![]),
            Body::SwitchCpuWide { pid, tid } => V::S(
                if self.misc & MISC_SWITCH_OUT != 0 { "SwitchOut" } else { "SwitchIn" },
                vec![("pid", u(*pid)), ("tid", u(*tid))],
            ),
            Body::Namespaces { pid, tid, ns } => namespaces_tree(*pid, *tid, ns),
            Body::KSymbol { addr, len, ty, flags, name, pad } => V::S("KSymbol", vec![
                ("addr", V::U(*addr)),
                ("len", u(*len)),
                ("ksym_type", V::U(*ty as u64)),
                ("flags", V::U(*flags as u64)),
                ("name", rest(name, *pad)),
            ]),
            Body::Bpf { ty, flags, id, tag } => V::S("Bpf", vec![
                ("ty", V::U(*ty as u64)),
                ("flags", V::U(*flags as u64)),
                ("id", u(*id)),
                ("tag", V::B(tag.to_vec())),
            ]),
            Body::CGroup { id, name, pad } => V::S("CGroup", vec![("id", V::U(*id)), ("path", rest(name, *pad))]),
            Body::TextPoke { addr, old, new, .. } => V::S("TextPoke", vec![
                ("addr", V::U(*addr)),
                ("old_bytes", V::B(old.clone())),
                ("new_bytes", V::B(new.clone())),
            ]),
            Body::AuxHwId { hw_id } => V::S("AuxOutputHwId", vec![("hw_id", V::U(*hw_id))]),
            Body::Unknown { ty, data } => {
                let mut d = data.clone();
                d.extend_from_slice(&self.surplus);
                V::S("Unknown", vec![("ty", u(*ty)), ("data", V::B(d))])
            }
        }
    }

    /// Metadata tree for this record.
    pub fn meta_tree(&self, c: &Cfg) -> V {
        V::S("Meta", vec![
            ("ty", V::U(self.ty() as u64)),
            ("misc", V::U(self.misc as u64)),
            ("sample_id", if self.has_trailer() { self.sid.tree(c) } else { SidM::empty_tree() }),
        ])
    }
}

pub fn mmap_tree(v: &'static str, pid: u32, tid: u32, addr: u64, len: u64, pgoff: u64, name: V) -> V {
    V::S(v, vec![
        ("pid", V::U(pid as u64)),
        ("tid", V::U(tid as u64)),
        ("addr", V::U(addr)),
        ("len", V::U(len)),
        ("pgoff", V::U(pgoff)),
        ("filename_os", name.clone()),
        ("filename", name),
    ])
}

#[allow(clippy::too_many_arguments)]
pub fn mmap2_tree(pid: u32, tid: u32, addr: u64, len: u64, pgoff: u64, maj: V, min: V, ino: V, gen: V, bid: V, prot: u32, flags: u32, name: V) -> V {
    V::S("Mmap2", vec![
        ("pid", V::U(pid as u64)),
        ("tid", V::U(tid as u64)),
        ("addr", V::U(addr)),
        ("len", V::U(len)),
        ("pgoff", V::U(pgoff)),
        ("maj", maj),
        ("min", min),
        ("ino", ino),
        ("ino_generation", gen),
        ("build_id", bid),
        ("prot", V::U(prot as u64)),
        ("flags", V::U(flags as u64)),
        ("filename_os", name.clone()),
        ("filename", name),
    ])
}

// ------------------------------------------------------- reference decoder

/// Why the reference decoder rejects an input.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    Eof,
    /// a count whose size in bytes does not fit 64 bits
    Huge,
    Invalid,
    Config,
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub big: bool,
}

type D<T> = Result<T, Bad>;

/// The size of `n` elements, if the host can represent it.
fn representable(n: u64, size: u64) -> D<u64> {
    n.checked_mul(size).filter(|b| usize::try_from(*b).is_ok()).ok_or(Bad::Huge)
}

impl<'a> Rd<'a> {
    pub fn take(&mut self, n: u64) -> D<&'a [u8]> {
        representable(n, 1)?;
        if (self.b.len() as u64) < n {
            return Err(Bad::Eof);
        }
        let (a, r) = self.b.split_at(n as usize);
        self.b = r;
        Ok(a)
    }
    fn int(&mut self, n: usize) -> D<u64> {
        let s = self.take(n as u64)?;
        let mut v = 0u64;
        for i in 0..n {
            let byte = if self.big { s[i] } else { s[n - 1 - i] };
            v = (v << 8) | byte as u64;
        }
        Ok(v)
    }
    pub fn u8(&mut self) -> D<u8> {
        Ok(self.int(1)? as u8)
    }
    pub fn u16(&mut self) -> D<u16> {
        Ok(self.int(2)? as u16)
    }
    pub fn u32(&mut self) -> D<u32> {
        Ok(self.int(4)? as u32)
    }
    pub fn u64(&mut self) -> D<u64> {
        self.int(8)
    }
    pub fn u64s(&mut self, n: u64) -> D<Vec<u64>> {
        let want = representable(n, 8)?;
        if (self.b.len() as u64) < want {
            return Err(Bad::Eof);
        }
        if n > 0 && crate::known::array_at(self.b.as_ptr()) {
            self.take(want)?;
            if (self.b.len() as u64) < want {
                return Err(Bad::Eof);
            }
        }
        (0..n).map(|_| self.u64()).collect()
    }
    pub fn rest(&mut self) -> &'a [u8] {
        std::mem::take(&mut self.b)
    }
}

pub fn dec_read(r: &mut Rd, c: &Cfg) -> D<ReadM> {
    if c.read_format & !rf::ALL != 0 {
        return Err(Bad::Config);
    }
    let f = c.read_format;
    let mut m = ReadM::default();
    if f & rf::GROUP != 0 {
        let nr = r.u64()?;
        if f & rf::ENABLED != 0 {
            m.time_enabled = r.u64()?
        }
        if f & rf::RUNNING != 0 {
            m.time_running = r.u64()?
        }
        let per = 1 + (f & rf::ID != 0) as u64 + (f & rf::LOST != 0) as u64;
        let words = nr.checked_mul(per).filter(|w| usize::try_from(*w).is_ok()).ok_or(Bad::Invalid)?;
        let w = r.u64s(words)?;
        for e in w.chunks_exact(per as usize) {
            let mut k = 1;
            let mut cn = Counter { value: e[0], ..Default::default() };
            if f & rf::ID != 0 {
                cn.id = e[k];
                k += 1
            }
            if f & rf::LOST != 0 {
                cn.lost = e[k]
            }
            m.entries.push(cn)
        }
    } else {
        let mut cn = Counter { value: r.u64()?, ..Default::default() };
        if f & rf::ENABLED != 0 {
            m.time_enabled = r.u64()?
        }
        if f & rf::RUNNING != 0 {
            m.time_running = r.u64()?
        }
        if f & rf::ID != 0 {
            cn.id = r.u64()?
        }
        if f & rf::LOST != 0 {
            cn.lost = r.u64()?
        }
        m.entries.push(cn)
    }
    Ok(m)
}

fn dec_regs(r: &mut Rd, mask: u64) -> D<RegsM> {
    let abi = r.u64()?;
    let regs = if abi == 0 { vec![] } else { r.u64s(mask.count_ones() as u64)? };
    Ok(RegsM { abi, regs })
}

fn dec_sample(r: &mut Rd, c: &Cfg) -> D<SampleM> {
    let mut s = SampleM::default();
    if c.has(st::IDENTIFIER) {
        s.identifier = r.u64()?
    }
    if c.has(st::IP) {
        s.ip = r.u64()?
    }
    if c.has(st::TID) {
        s.pid = r.u32()?;
        s.tid = r.u32()?
    }
    if c.has(st::TIME) {
        s.time = r.u64()?
    }
    if c.has(st::ADDR) {
        s.addr = r.u64()?
    }
    if c.has(st::ID) {
        s.id = r.u64()?
    }
    if c.has(st::STREAM_ID) {
        s.stream_id = r.u64()?
    }
    if c.has(st::CPU) {
        s.cpu = r.u32()?;
        s.cpu_res = r.u32()?
    }
    if c.has(st::PERIOD) {
        s.period = r.u64()?
    }
    if c.has(st::READ) {
        s.values = dec_read(r, c)?
    }
    if c.has(st::CALLCHAIN) {
        let n = r.u64()?;
        s.callchain = r.u64s(n)?
    }
    if c.has(st::RAW) {
        let n = r.u32()? as u64;
        s.raw = r.take(n)?.to_vec();
        let used = 4 + n;
        r.take((8 - used % 8) % 8)?;
    }
    if c.has(st::BRANCH_STACK) {
        let n = r.u64()?;
        if c.hw_index {
            s.hw_index = r.u64()?
        }
        let w = r.u64s(representable(n, 24)? / 8)?;
        s.lbr = w.chunks_exact(3).map(|x| (x[0], x[1], x[2])).collect()
    }
    if c.has(st::REGS_USER) {
        s.regs_user = dec_regs(r, c.regs_user)?
    }
    if c.has(st::STACK_USER) {
        let n = r.u64()?;
        if n > 0 {
            s.stack = r.take(n)?.to_vec();
            s.dyn_size = r.u64()?;
            if s.dyn_size > n {
                return Err(Bad::Invalid);
            }
        }
    }
    if c.has(st::WEIGHT | st::WEIGHT_STRUCT) {
        s.weight = r.u64()?
    }
    if c.has(st::DATA_SRC) {
        s.data_src = r.u64()?
    }
    if c.has(st::TRANSACTION) {
        s.txn = r.u64()?
    }
    if c.has(st::REGS_INTR) {
        s.regs_intr = dec_regs(r, c.regs_intr)?
    }
    if c.has(st::PHYS_ADDR) {
        s.phys_addr = r.u64()?
    }
    if c.has(st::CGROUP) {
        s.cgroup = r.u64()?
    }
    if c.has(st::DATA_PAGE_SIZE) {
        s.data_page = r.u64()?
    }
    if c.has(st::CODE_PAGE_SIZE) {
        s.code_page = r.u64()?
    }
    if c.has(st::AUX) {
        let n = r.u64()?;
        s.aux = r.take(n)?.to_vec()
    }
    Ok(s)
}

/// Decode a record body (without trailer).
pub fn decode_body(ty: u32, misc: u16, body: &[u8], c: &Cfg, big: bool) -> D<Body> {
    let r = &mut Rd { b: body, big };
    Ok(match ty {
        rt::MMAP => Body::Mmap { pid: r.u32()?, tid: r.u32()?, addr: r.u64()?, len: r.u64()?, pgoff: r.u64()?, name: r.rest().to_vec(), pad: 0 },
        rt::LOST => Body::Lost { id: r.u64()?, lost: r.u64()? },
        rt::COMM => Body::Comm { pid: r.u32()?, tid: r.u32()?, name: r.rest().to_vec(), pad: 0 },
        rt::EXIT | rt::FORK => Body::Exit { fork: ty == rt::FORK, pid: r.u32()?, ppid: r.u32()?, tid: r.u32()?, ptid: r.u32()?, time: r.u64()? },
        rt::THROTTLE | rt::UNTHROTTLE => Body::Throttle { un: ty == rt::UNTHROTTLE, time: r.u64()?, id: r.u64()?, stream_id: r.u64()? },
        rt::READ => {
            let (pid, tid) = (r.u32()?, r.u32()?);
            if c.fmt(rf::GROUP) {
                return Err(Bad::Config);
            }
            Body::Read { pid, tid, val: dec_read(r, c)? }
        }
        rt::SAMPLE => Body::Sample(Box::new(dec_sample(r, c)?)),
        rt::MMAP2 => {
            let (pid, tid, addr, len, pgoff) = (r.u32()?, r.u32()?, r.u64()?, r.u64()?, r.u64()?);
            let detail = if misc & MISC_BUILD_ID != 0 {
                let n = r.u8()?;
                let pad: [u8; 3] = r.take(3)?.try_into().unwrap();
                let fill: [u8; 20] = r.take(20)?.try_into().unwrap();
                if n > 20 {
                    return Err(Bad::Invalid);
                }
                Detail::BuildId { id: fill[..n as usize].to_vec(), fill, pad }
            } else {
                Detail::Inode { maj: r.u32()?, min: r.u32()?, ino: r.u64()?, gen: r.u64()? }
            };
            Body::Mmap2 { pid, tid, addr, len, pgoff, detail, prot: r.u32()?, flags: r.u32()?, name: r.rest().to_vec(), pad: 0 }
        }
        rt::AUX => Body::Aux { off: r.u64()?, size: r.u64()?, flags: r.u64()? },
        rt::ITRACE_START => Body::ITrace { pid: r.u32()?, tid: r.u32()? },
        rt::LOST_SAMPLES => Body::LostSamples { lost: r.u64()? },
        rt::SWITCH => Body::Switch,
        rt::SWITCH_CPU_WIDE => Body::SwitchCpuWide { pid: r.u32()?, tid: r.u32()? },
        rt::NAMESPACES => {
            let (pid, tid, n) = (r.u32()?, r.u32()?, r.u64()?);
            let w = r.u64s(representable(n, 16)? / 8)?;
            Body::Namespaces { pid, tid, ns: w.chunks_exact(2).map(|x| (x[0], x[1])).collect() }
        }
        rt::KSYMBOL => Body::KSymbol { addr: r.u64()?, len: r.u32()?, ty: r.u16()?, flags: r.u16()?, name: r.rest().to_vec(), pad: 0 },
        rt::BPF_EVENT => Body::Bpf { ty: r.u16()?, flags: r.u16()?, id: r.u32()?, tag: r.take(8)?.try_into().unwrap() },
        rt::CGROUP => Body::CGroup { id: r.u64()?, name: r.rest().to_vec(), pad: 0 },
        rt::TEXT_POKE => {
            let (addr, o, n) = (r.u64()?, r.u16()? as u64, r.u16()? as u64);
            // fields end on an 8-byte boundary: 12 + o + n + padding
            let padded = (12 + o + n).div_ceil(8) * 8 - 12;
            let b = r.take(padded)?;
            Body::TextPoke { addr, old: b[..o as usize].to_vec(), new: b[o as usize..(o + n) as usize].to_vec(), padb: 0 }
        }
        rt::AUX_OUTPUT_HW_ID => Body::AuxHwId { hw_id: r.u64()? },
        _ => Body::Unknown { ty, data: r.rest().to_vec() },
    })
}

pub struct Decoded {
    pub rec: Rec,
    pub consumed: usize,
}

/// Decode one framed record from the front of `b`.
pub fn decode_record(b: &[u8], c: &Cfg, big: bool) -> D<Decoded> {
    let mut r = Rd { b, big };
    let ty = r.u32()?;
    let misc = r.u16()?;
    let size = r.u16()? as usize;
    if size < 8 {
        return Err(Bad::Invalid);
    }
    let frame = r.take(size as u64 - 8)?;
    let trailer = if matches!(ty, rt::MMAP | rt::SAMPLE) { 0 } else { c.sid_len() };
    if trailer > frame.len() {
        return Err(Bad::Invalid);
    }
    let (body, tr) = frame.split_at(frame.len() - trailer);
    let mut t = Rd { b: tr, big };
    let mut sid = SidM::default();
    if trailer > 0 {
        if c.has(st::TID) {
            sid.pid = t.u32()?;
            sid.tid = t.u32()?
        }
        if c.has(st::TIME) {
            sid.time = t.u64()?
        }
        if c.has(st::ID) {
            sid.id = t.u64()?
        }
        if c.has(st::STREAM_ID) {
            sid.stream_id = t.u64()?
        }
        if c.has(st::CPU) {
            sid.cpu = t.u32()?;
            sid.res = t.u32()?
        }
        if c.has(st::IDENTIFIER) {
            sid.identifier = t.u64()?
        }
    }
    let body = decode_body(ty, misc, body, c, big)?;
    Ok(Decoded { rec: Rec { misc, body, sid, surplus: vec![] }, consumed: size })
}

/// Decode records one after the other, as far as the framing holds.
pub fn decode_all(mut b: &[u8], c: &Cfg, big: bool) {
    loop {
        let _ = decode_record(b, c, big);
        let mut r = Rd { b, big };
        let size = match (r.u32(), r.u16(), r.u16()) {
            (Ok(_), Ok(_), Ok(n)) if n >= 8 && n as usize <= b.len() => n as usize,
            _ => return,
        };
        b = &b[size..];
    }
}

//! C22: the work done is proportional to the input.

use super::Prop;
use crate::alloc::Meter;
use crate::exercise;
use crate::gen::{tiny, G};
use crate::genrec::{self, Size};
use crate::model::*;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::{ParseBuf, ParseBufChunk, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::cell::Cell;

pub const C22: Prop = Prop {
    id: "C22",
    case,
    quick: 6_000_000,
    thorough: 120_000_000,
    rule: "(a) valid, corrupted, arbitrary and split-up inputs, in every delivery, through record, body, attribute-struct and primitive \
           parsing: calls made on the source and the sum of all memory requests, against a bound linear in bytes and pieces; \
           (b) scaling experiments, about one in 1000: the same kind of input at size n and 15n, parsed, printed, cloned, stepped \
           through and dropped; the processor time (minimum of several runs) may not grow by more than 60 times. \
           Non-trivial: (b), or (a) with at least 64 bytes.",
};

// ------------------------------------------------------------ counting calls

/// A source that counts what it is asked.
struct Counted<'c, B> {
    inner: B,
    calls: &'c Cell<u64>,
}

unsafe impl<'p, B: ParseBuf<'p>> ParseBuf<'p> for Counted<'_, B> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        self.calls.set(self.calls.get() + 1);
        self.inner.chunk()
    }
    fn advance(&mut self, count: usize) {
        self.calls.set(self.calls.get() + 1);
        self.inner.advance(count)
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.calls.set(self.calls.get() + 1);
        self.inner.remaining_hint()
    }
}

pub fn case(cx: &mut Cx) -> R {
    // (time cannot be measured under Miri)
    if cx.g.upto(999) == 999 && !tiny() {
        // (nor in an instrumented program)
        return if cx.g.fuzzing() { Ok(()) } else { scaling(cx) };
    }
    let e = AnyEndian::pick(&mut cx.g);
    let mode = cx.g.weighted(&[50, 20, 10, 20]);
    let mut c = super::total::wild_cfg(&mut cx.g);
    let ty = genrec::any_type(&mut cx.g);
    let data = match mode {
        2 => super::attr::wild(&mut cx.g, e.big()),
        3 => {
            let n = cx.g.len(if tiny() { 100 } else { 70_000 });
            cx.g.bytes(n)
        }
        _ if cx.g.bool() => super::total::wild_bytes(&mut cx.g, &mut c, e.big()),
        _ => {
            c.read_format &= rf::ALL;
            let size = if cx.g.pct(10) { Size::Any } else { Size::Small };
            genrec::rec(&mut cx.g, ty, &mut c, size).encode(&c, e.big()).bytes
        }
    };
    let plan = if cx.g.pct(75) { Plan::gen_split(&mut cx.g, data.len()) } else { Plan::gen(&mut cx.g, data.len()) };
    let op = cx.g.below(5);
    // true counts as well as absurd ones
    let count = match cx.g.weighted(&[3, 2, 1]) {
        0 => cx.g.upto(data.len() as u64) as usize,
        1 => data.len(),
        _ => cx.g.u64() as usize >> 4,
    };
    let conf = obs::config(&c, e);
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.fpn(mode as u64 * 8 + op as u64);
    cx.say(|| format!("mode {mode}/{op} (type {ty}, count {count}), {} bytes as {e:?} via {plan:?}; {}; {}", data.len(), describe_cfg(&c), hex(&data)));
    let pieces = plan.pieces(data.len()) as u64;
    let calls = Cell::new(0);
    let total = with_source!(&plan, &data[..], None, b => {
        let mut p = Parser::new(Counted { inner: b, calls: &calls }, conf);
        // the source's own buffers are filled without allocating
        let m = Meter::start();
        match mode {
            0 => drop(p.parse::<Record>()),
            1 => drop(obsless(ty, &mut p)),
            2 => drop(p.parse::<perf_event_attr>()),
            _ => match op {
                0 => drop(p.parse_rest()),
                1 => drop(p.parse_rest_trim_nul()),
                2 => drop(p.parse_bytes(count)),
                3 => drop(p.parse_repeated::<u64>(count)),
                // SAFETY: u32 is plain data
                _ => drop(unsafe { p.parse_slice::<u32>(count) }),
            },
        }
        m.total()
    });
    let len = data.len() as u64;
    let most = 8 * (len + pieces) + 1024;
    ensure!(calls.get() <= most, "{len} bytes in {pieces} pieces via {}: {} calls on the source, more than {most}", plan.label(), calls.get());
    let most = 32 * len + 512 * pieces + (512 << 10);
    ensure!(total <= most, "{len} bytes in {pieces} pieces via {}: memory requests add up to {total} bytes, more than {most}", plan.label());
    cx.nontrivial = len >= 64;
    cx.label(plan.label());
    cx.label(match mode { 0 => "record", 1 => "body", 2 => "attribute struct", _ => "primitive" });
    if pieces > 500 {
        cx.label("over 500 pieces");
    }
    Ok(())
}

/// Parse a bare body and forget it.
fn obsless<'p, B: ParseBuf<'p>, E: endian::Endian>(ty: u32, p: &mut Parser<B, E>) -> ParseResult<()> {
    match ty {
        rt::MMAP => p.parse::<Mmap>().map(drop),
        rt::COMM => p.parse::<Comm>().map(drop),
        rt::READ => p.parse::<Read>().map(drop),
        rt::SAMPLE => p.parse::<Sample>().map(drop),
        rt::MMAP2 => p.parse::<Mmap2>().map(drop),
        rt::NAMESPACES => p.parse::<Namespaces>().map(drop),
        rt::KSYMBOL => p.parse::<KSymbol>().map(drop),
        rt::CGROUP => p.parse::<CGroup>().map(drop),
        rt::TEXT_POKE => p.parse::<TextPoke>().map(drop),
        rt::AUX => p.parse::<Aux>().map(drop),
        _ => p.parse::<ReadGroup>().map(drop),
    }
}

// ------------------------------------------------------------------- scaling

/// Processor time of this thread in nanoseconds.
fn cpu() -> u64 {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: t has the layout the call fills
    let r = unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) };
    assert_eq!(r, 0, "no processor clock");
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

/// Pieces of one size, without copying anything.
#[derive(Clone)]
struct Even<'p> {
    data: &'p [u8],
    pos: usize,
    size: usize,
    borrowed: bool,
    hint: bool,
}

unsafe impl<'p> ParseBuf<'p> for Even<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        if self.pos == self.data.len() {
            return Err(parse::ParseError::eof());
        }
        let end = (self.pos - self.pos % self.size + self.size).min(self.data.len());
        let piece = &self.data[self.pos..end];
        Ok(if self.borrowed { ParseBufChunk::External(piece) } else { ParseBufChunk::Temporary(piece) })
    }
    fn advance(&mut self, count: usize) {
        assert!(count <= self.data.len() - self.pos, "the parser advanced past the end of the source");
        self.pos += count;
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.hint.then(|| self.data.len() - self.pos)
    }
}

#[derive(Clone, Copy, Debug)]
enum Load {
    /// one record whose variable part has the given size
    Record(&'static str),
    /// back-to-back records
    Stream,
    Rest,
    RestNul,
    Bytes,
    Words,
    WordSlice,
    Triples,
    Attr,
}

const VARS: &[&str] = &["name", "nul padding", "call chain", "raw", "branch stack", "user stack", "aux", "read group", "namespaces", "text poke", "unknown", "surplus"];

struct Exp {
    load: Load,
    cfg: Cfg,
    e: AnyEndian,
    size: usize,
    borrowed: bool,
    hint: bool,
    fill: u8,
}

impl Exp {
    /// The input of about n bytes.
    fn input(&self, n: usize) -> Vec<u8> {
        let big = self.e.big();
        let enc = |body: Body, surplus: Vec<u8>| Rec { misc: 0, body, sid: SidM::default(), surplus }.encode(&self.cfg, big).bytes;
        let words = |n: usize| (0..n as u64 / 8).collect::<Vec<u64>>();
        let bytes = |n: usize| vec![self.fill; n];
        match self.load {
            Load::Record(v) => {
                let mut s = SampleM::default();
                match v {
                    "name" => return enc(Body::Comm { pid: 1, tid: 2, name: bytes(n), pad: 3 }, vec![]),
                    "nul padding" => return enc(Body::CGroup { id: 1, name: vec![b'x'], pad: n }, vec![]),
                    "namespaces" => return enc(Body::Namespaces { pid: 1, tid: 2, ns: vec![(3, 4); n / 16] }, vec![]),
                    "text poke" => return enc(Body::TextPoke { addr: 5, old: bytes(n / 2), new: bytes(n / 2), padb: 0 }, vec![]),
                    "unknown" => return enc(Body::Unknown { ty: 1000, data: bytes(n) }, vec![]),
                    "surplus" => return enc(Body::Lost { id: 1, lost: 2 }, bytes(n)),
                    "call chain" => s.callchain = words(n),
                    "raw" => s.raw = bytes(n),
                    "branch stack" => s.lbr = vec![(1, 2, 3); n / 24],
                    "user stack" => {
                        s.stack = bytes(n & !7);
                        s.dyn_size = n as u64 & !7
                    }
                    "aux" => s.aux = bytes(n),
                    _ => {
                        let per = 8 * (1 + self.cfg.fmt(rf::ID) as usize + self.cfg.fmt(rf::LOST) as usize);
                        s.values.entries = (0..n / per).map(|i| Counter { value: i as u64, id: i as u64, lost: 0 }).collect()
                    }
                }
                enc(Body::Sample(Box::new(s)), vec![])
            }
            Load::Stream => {
                let one = enc(Body::Comm { pid: 1, tid: 2, name: b"program".to_vec(), pad: 1 }, vec![]);
                one.iter().copied().cycle().take(n / one.len() * one.len()).collect()
            }
            Load::RestNul => vec![0; n],
            Load::Attr => {
                let mut en = Enc::new(big);
                en.u32(0);
                en.u32(n as u32);
                en.bytes(&vec![0; n - 8]);
                en.out
            }
            _ => bytes(n),
        }
    }

    fn go<'p, B: ParseBuf<'p>>(&self, b: B, n: usize) -> R {
        let mut p = Parser::new(b, obs::config(&self.cfg, self.e));
        let fail = |x: parse::ParseError| format!("a well-formed input fails: {}", err_text(&x));
        match self.load {
            Load::Record(_) => {
                let r = p.parse::<Record>().map_err(fail)?;
                exercise::dbg(&r, false)?;
                drop(r.clone());
                if let Record::Sample(s) = &r {
                    if let Some(g) = s.values() {
                        views(g);
                    }
                }
            }
            Load::Stream => {
                let mut k = 0;
                while p.parse::<Record>().is_ok() {
                    k += 1
                }
                ensure!(k > 0, "no record came out of the stream");
            }
            Load::Rest => drop(p.parse_rest().map_err(fail)?),
            Load::RestNul => drop(p.parse_rest_trim_nul().map_err(fail)?),
            Load::Bytes => drop(p.parse_bytes(n).map_err(fail)?),
            Load::Words => drop(p.parse_repeated::<u64>(n / 8).map_err(fail)?),
            // SAFETY: u64 is plain data
            Load::WordSlice => drop(unsafe { p.parse_slice::<u64>(n / 8) }.map_err(fail)?),
            Load::Triples => drop(p.parse_repeated::<[u8; 3]>(n / 3).map_err(fail)?),
            Load::Attr => drop(p.parse::<perf_event_attr>().map_err(fail)?),
        }
        Ok(())
    }

    fn time(&self, data: &[u8], n: usize) -> Result<u64, String> {
        let t = cpu();
        if self.size == 0 {
            self.go(data, n)?
        } else {
            self.go(Even { data, pos: 0, size: self.size, borrowed: self.borrowed, hint: self.hint }, n)?
        }
        Ok(cpu() - t)
    }
}

/// Every way to step through a group.
fn views(g: &ReadGroup) {
    let n = g.len();
    let mut sum = 0u64;
    for x in g.entries() {
        sum = sum.wrapping_add(x.value());
    }
    for x in g.entries().rev() {
        sum = sum.wrapping_add(x.value());
    }
    for i in 0..n {
        sum = sum.wrapping_add(g.get(i).map_or(0, |x| x.value()));
    }
    let mut it = g.entries();
    while let Some(x) = it.nth(1) {
        sum = sum.wrapping_add(x.value() + it.len() as u64);
    }
    std::hint::black_box(sum);
}

fn scaling(cx: &mut Cx) -> R {
    let g: &mut G = &mut cx.g;
    let load = match g.weighted(&[12, 2, 1, 1, 1, 1, 1, 1, 1]) {
        0 => Load::Record(g.pick(VARS)),
        1 => Load::Stream,
        2 => Load::Rest,
        3 => Load::RestNul,
        4 => Load::Bytes,
        5 => Load::Words,
        6 => Load::WordSlice,
        7 => Load::Triples,
        _ => Load::Attr,
    };
    let mut cfg = Cfg::default();
    let small = match load {
        Load::Record(v) => {
            cfg.sample_type = match v {
                "call chain" => st::CALLCHAIN,
                "raw" => st::RAW,
                "branch stack" => st::BRANCH_STACK,
                "user stack" => st::STACK_USER,
                "aux" => st::AUX,
                "read group" => st::READ,
                _ => 0,
            };
            cfg.read_format = g.upto(rf::ALL) | rf::GROUP;
            cfg.sample_id_all = g.bool();
            4000
        }
        _ => 1 << 15,
    };
    let exp = Exp {
        load,
        cfg,
        e: AnyEndian::pick(g),
        // 0: a plain slice
        size: match g.weighted(&[2, 2, 3, 2]) {
            0 => 0,
            1 => 1,
            2 => g.range(2, 64),
            _ => g.range(64, 8192),
        },
        borrowed: g.bool(),
        hint: g.bool(),
        fill: g.pick(b"a\0\xff\"\x80"),
    };
    let what = format!("{:?} in pieces of {} (borrowed {}, hint {}) as {:?}; {}", exp.load, exp.size, exp.borrowed, exp.hint, exp.e, describe_cfg(&exp.cfg));
    cx.fpn(crate::gen::fnv(what.as_bytes()) ^ exp.fill as u64);
    cx.say(|| format!("scaling: {what}"));
    let (n1, n2) = (small, small * 15);
    let (a, b) = (exp.input(n1), exp.input(n2));
    let (mut t1, mut t2) = (u64::MAX, u64::MAX);
    // slow runs are repeated: only a cost that is always there counts
    for round in 0..40 {
        t1 = t1.min(exp.time(&a, n1)?);
        t2 = t2.min(exp.time(&b, n2)?);
        let limit = 60 * t1 + 2_000_000;
        let fine = t2 <= limit;
        if fine && (round > 0 || t2 <= 2_000_000) {
            break;
        }
        ensure!(
            round < 39 && (round < 5 || t2 <= 4 * limit),
            "{what}: {} bytes take {:.3} ms of processor time, {} bytes {:.3} ms",
            a.len(),
            t1 as f64 / 1e6,
            b.len(),
            t2 as f64 / 1e6
        );
    }
    cx.nontrivial = true;
    cx.label("scaling");
    Ok(())
}

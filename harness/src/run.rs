//! Shared pieces of the property checks.

use crate::gen::{fnv, mix, G};
use crate::model::*;
use crate::obs;
use crate::source::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ErrorKind, ParseBuf, ParseError, ParseResult, Parser};
use perf_event_data::*;
use std::borrow::Cow;

/// One test case in progress.
pub struct Cx {
    pub g: G,
    pub nontrivial: bool,
    pub fp: u64,
    pub labels: Vec<&'static str>,
    pub want_sample: bool,
    pub sample: Option<String>,
}

pub type R = Result<(), String>;

impl Cx {
    pub fn new(g: G, want_sample: bool) -> Self {
        Cx { g, nontrivial: false, fp: 0, labels: Vec::new(), want_sample, sample: None }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn fp(&mut self, data: &[u8]) {
        self.fp = mix(self.fp ^ fnv(data));
    }
    pub fn fpn(&mut self, n: u64) {
        self.fp = mix(self.fp ^ n);
    }
    pub fn cfg_fp(&mut self, c: &Cfg) {
        for n in [c.sample_type, c.read_format, c.sample_id_all as u64 | (c.hw_index as u64) << 1, c.regs_user, c.regs_intr] {
            self.fpn(n)
        }
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 1200 {
                let mut n = 1200;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.sample = Some(s)
        }
    }
}

#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn same(what: &str, want: &V, got: &V) -> R {
    match diff(want, got) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: expected vs observed differ at {d}")),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(160) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 160 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn flag_names(c: &Cfg) -> String {
    let v: Vec<_> = st::NAMES.iter().filter(|(_, b)| c.sample_type & b != 0).map(|(n, _)| *n).collect();
    v.join("|")
}

pub fn describe_cfg(c: &Cfg) -> String {
    format!(
        "sample_type={:#x}[{}] read_format={:#x} sample_id_all={} hw_index={} regs_user={:#x} regs_intr={:#x}",
        c.sample_type, flag_names(c), c.read_format, c.sample_id_all, c.hw_index, c.regs_user, c.regs_intr
    )
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(V),
    Err(ErrorKind),
}

pub fn out(r: ParseResult<V>) -> Out {
    match r {
        Ok(v) => Out::Ok(v),
        Err(e) => Out::Err(e.kind()),
    }
}

pub fn same_out(what: &str, a: &Out, b: &Out) -> R {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => same(what, x, y),
        (Out::Err(x), Out::Err(y)) if x == y => Ok(()),
        _ => {
            let s = |o: &Out| match o {
                Out::Ok(_) => "success".to_string(),
                Out::Err(k) => format!("error {k:?}"),
            };
            Err(format!("{what}: {} vs {}", s(a), s(b)))
        }
    }
}

pub fn err_text(e: &ParseError) -> String {
    format!("{:?} ({e})", e.kind())
}

/// Visitor overriding every method: yields (record, metadata).
pub struct Tree;

impl<'a> Visitor<'a> for Tree {
    type Output = (V, V);
    fn visit_unimplemented(self, m: RecordMetadata) -> (V, V) {
        (V::S("Unimplemented", vec![]), obs::meta(&m))
    }
    fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> (V, V) {
        (obs::mmap(&r), obs::meta(&m))
    }
    fn visit_lost(self, r: Lost, m: RecordMetadata) -> (V, V) {
        (obs::lost(&r), obs::meta(&m))
    }
    fn visit_comm(self, r: Comm<'a>, m: RecordMetadata) -> (V, V) {
        (obs::comm(&r), obs::meta(&m))
    }
    fn visit_exit(self, r: Exit, m: RecordMetadata) -> (V, V) {
        (obs::exit("Exit", &r), obs::meta(&m))
    }
    fn visit_throttle(self, r: Throttle, m: RecordMetadata) -> (V, V) {
        (obs::throttle("Throttle", &r), obs::meta(&m))
    }
    fn visit_unthrottle(self, r: Throttle, m: RecordMetadata) -> (V, V) {
        (obs::throttle("Unthrottle", &r), obs::meta(&m))
    }
    fn visit_fork(self, r: Fork, m: RecordMetadata) -> (V, V) {
        (obs::exit("Fork", &r), obs::meta(&m))
    }
    fn visit_read(self, r: Read, m: RecordMetadata) -> (V, V) {
        (obs::read(&r), obs::meta(&m))
    }
    fn visit_sample(self, r: Sample<'a>, m: RecordMetadata) -> (V, V) {
        (obs::sample(&r), obs::meta(&m))
    }
    fn visit_mmap2(self, r: Mmap2<'a>, m: RecordMetadata) -> (V, V) {
        (obs::mmap2(&r), obs::meta(&m))
    }
    fn visit_aux(self, r: Aux, m: RecordMetadata) -> (V, V) {
        (obs::aux(&r), obs::meta(&m))
    }
    fn visit_itrace_start(self, r: ITraceStart, m: RecordMetadata) -> (V, V) {
        (obs::itrace(&r), obs::meta(&m))
    }
    fn visit_lost_samples(self, r: LostSamples, m: RecordMetadata) -> (V, V) {
        (obs::lost_samples(&r), obs::meta(&m))
    }
    fn visit_switch(self, m: RecordMetadata) -> (V, V) {
        (V::S("Switch", vec![]), obs::meta(&m))
    }
    fn visit_switch_cpu_wide(self, r: SwitchCpuWide, m: RecordMetadata) -> (V, V) {
        (obs::switch_cpu_wide(&r), obs::meta(&m))
    }
    fn visit_namespaces(self, r: Namespaces<'a>, m: RecordMetadata) -> (V, V) {
        (obs::namespaces(&r), obs::meta(&m))
    }
    fn visit_ksymbol(self, r: KSymbol<'a>, m: RecordMetadata) -> (V, V) {
        (obs::ksymbol(&r), obs::meta(&m))
    }
    fn visit_bpf_event(self, r: BpfEvent, m: RecordMetadata) -> (V, V) {
        (obs::bpf(&r), obs::meta(&m))
    }
    fn visit_cgroup(self, r: CGroup<'a>, m: RecordMetadata) -> (V, V) {
        (obs::cgroup(&r), obs::meta(&m))
    }
    fn visit_text_poke(self, r: TextPoke<'a>, m: RecordMetadata) -> (V, V) {
        (obs::text_poke(&r), obs::meta(&m))
    }
    fn visit_aux_output_hw_id(self, r: AuxOutputHwId, m: RecordMetadata) -> (V, V) {
        (obs::hw_id(&r), obs::meta(&m))
    }
    fn visit_unknown(self, d: Cow<'a, [u8]>, m: RecordMetadata) -> (V, V) {
        (obs::unknown(m.ty(), &d), obs::meta(&m))
    }
}

/// Parse a record body by its type.
pub fn typed<'p, B: ParseBuf<'p>, E: Endian>(ty: u32, p: &mut Parser<B, E>) -> ParseResult<V> {
    Ok(match ty {
        rt::MMAP => obs::mmap(&p.parse()?),
        rt::LOST => obs::lost(&p.parse()?),
        rt::COMM => obs::comm(&p.parse()?),
        rt::EXIT => obs::exit("Exit", &p.parse()?),
        rt::FORK => obs::exit("Fork", &p.parse::<Fork>()?),
        rt::THROTTLE => obs::throttle("Throttle", &p.parse()?),
        rt::UNTHROTTLE => obs::throttle("Unthrottle", &p.parse()?),
        rt::READ => obs::read(&p.parse()?),
        rt::SAMPLE => obs::sample(&p.parse()?),
        rt::MMAP2 => obs::mmap2(&p.parse()?),
        rt::AUX => obs::aux(&p.parse()?),
        rt::ITRACE_START => obs::itrace(&p.parse()?),
        rt::LOST_SAMPLES => obs::lost_samples(&p.parse()?),
        rt::SWITCH => V::S("Switch", vec![]),
        rt::SWITCH_CPU_WIDE => obs::switch_cpu_wide(&p.parse()?),
        rt::NAMESPACES => obs::namespaces(&p.parse()?),
        rt::KSYMBOL => obs::ksymbol(&p.parse()?),
        rt::BPF_EVENT => obs::bpf(&p.parse()?),
        rt::CGROUP => obs::cgroup(&p.parse()?),
        rt::TEXT_POKE => obs::text_poke(&p.parse()?),
        rt::AUX_OUTPUT_HW_ID => obs::hw_id(&p.parse()?),
        _ => obs::unknown(ty, &p.parse_rest()?),
    })
}

pub fn pair(a: V, b: V) -> V {
    V::S("Pair", vec![("record", a), ("meta", b)])
}

/// One framed record through the visitor interface.
pub fn full<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<V> {
    let (r, m) = p.parse_record(Tree)?;
    Ok(pair(r, m))
}

pub fn with_rest<'p, B: ParseBuf<'p>, E: Endian>(
    p: &mut Parser<B, E>,
    f: impl FnOnce(&mut Parser<B, E>) -> ParseResult<V>,
) -> ParseResult<V> {
    let v = f(p)?;
    let rest = rest_of(p)?;
    Ok(V::S("WithRest", vec![("value", v), ("rest", V::B(rest))]))
}

/// Everything the parser has left.
pub fn rest_of<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Vec<u8>> {
    let mut v = Vec::new();
    loop {
        match p.parse_u8() {
            Ok(b) => v.push(b),
            Err(e) if e.kind() == ErrorKind::Eof => return Ok(v),
            Err(e) => return Err(e),
        }
        if v.len() >= 16 {
            // bulk for the remainder
            v.extend_from_slice(&p.parse_rest()?);
            return Ok(v);
        }
    }
}

/// The case runs into the known finding (see known.rs) and decides nothing.
pub fn masked(cx: &mut Cx) -> R {
    cx.label("not judged: unaligned array in host order");
    Ok(())
}

//! C19: contiguous borrowed input is parsed without copying.

use super::Prop;
use crate::alloc::measure;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ParseBuf, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_header;

pub const C19: Prop = Prop {
    id: "C19",
    case,
    quick: 6_000_000,
    thorough: 90_000_000,
    rule: "valid records that carry variable-length data, from a slice or a single borrowed chunk at any alignment and byte order, \
           parsed as a record, with a supplied header, by metadata and body, or as a bare body: the address of every byte string (and of every array when host order \
           and alignment allow) must be the encoded place in the input buffer, and parsing must allocate at most 4 KiB when \
           everything can be borrowed; in temporary-chunk mode the values are compared after the source is destroyed. \
           Non-trivial: at least one non-empty variable-length field was located (or compared).",
};

/// (mark name, address, length in bytes) of the fields of a record.
pub fn fields(r: &Record) -> Vec<(&'static str, usize, usize)> {
    fn at<T>(n: &'static str, s: &[T]) -> (&'static str, usize, usize) {
        (n, s.as_ptr() as usize, std::mem::size_of_val(s))
    }
    match r {
        Record::Mmap(x) => vec![at("name", &x.filename), at("name", x.filename_os().as_encoded_bytes())],
        Record::Mmap2(x) => vec![at("name", &x.filename), at("name", x.filename_os().as_encoded_bytes())],
        Record::Comm(x) => vec![at("name", &x.comm), at("name", x.comm_os().as_encoded_bytes())],
        Record::CGroup(x) => vec![at("name", &x.path), at("name", x.path_os().as_os_str().as_encoded_bytes())],
        Record::KSymbol(x) => vec![at("name", &x.name)],
        Record::TextPoke(x) => vec![at("old_bytes", &x.old_bytes), at("new_bytes", &x.new_bytes)],
        Record::Namespaces(x) => vec![at("namespaces", &x.namespaces)],
        Record::Unknown { data, .. } => vec![at("data", data)],
        Record::Sample(s) => {
            let mut v = vec![];
            if let Some(x) = s.callchain() {
                v.push(at("callchain", x))
            }
            if let Some(x) = s.raw() {
                v.push(at("raw", x))
            }
            if let Some(x) = s.lbr() {
                v.push(at("lbr", x))
            }
            if let Some(x) = s.regs_user() {
                v.push(at("regs_user", &x.regs))
            }
            if let Some(x) = s.regs_intr() {
                v.push(at("regs_intr", &x.regs))
            }
            if let Some(x) = s.stack_user() {
                v.push(at("stack_user", x))
            }
            if let Some(x) = s.aux() {
                v.push(at("aux", x))
            }
            v
        }
        _ => vec![],
    }
}

/// A body by its type, as a record.
pub fn typed_record<'p, B: ParseBuf<'p>, E: Endian>(ty: u32, p: &mut Parser<B, E>) -> ParseResult<Record<'p>> {
    Ok(match ty {
        rt::MMAP => p.parse::<Mmap>()?.into(),
        rt::LOST => p.parse::<Lost>()?.into(),
        rt::COMM => p.parse::<Comm>()?.into(),
        rt::EXIT => Record::Exit(p.parse()?),
        rt::FORK => Record::Fork(p.parse()?),
        rt::THROTTLE => Record::Throttle(p.parse()?),
        rt::UNTHROTTLE => Record::Unthrottle(p.parse()?),
        rt::READ => p.parse::<Read>()?.into(),
        rt::SAMPLE => p.parse::<Sample>()?.into(),
        rt::MMAP2 => p.parse::<Mmap2>()?.into(),
        rt::AUX => p.parse::<Aux>()?.into(),
        rt::ITRACE_START => p.parse::<ITraceStart>()?.into(),
        rt::LOST_SAMPLES => p.parse::<LostSamples>()?.into(),
        rt::SWITCH => Record::Switch,
        rt::SWITCH_CPU_WIDE => p.parse::<SwitchCpuWide>()?.into(),
        rt::NAMESPACES => p.parse::<Namespaces>()?.into(),
        rt::KSYMBOL => p.parse::<KSymbol>()?.into(),
        rt::BPF_EVENT => p.parse::<BpfEvent>()?.into(),
        rt::CGROUP => p.parse::<CGroup>()?.into(),
        rt::TEXT_POKE => p.parse::<TextPoke>()?.into(),
        rt::AUX_OUTPUT_HW_ID => p.parse::<AuxOutputHwId>()?.into(),
        _ => Record::Unknown { ty, data: p.parse_rest()? },
    })
}

const ARRAYS: &[&str] = &["callchain", "lbr", "regs_user", "regs_intr", "namespaces"];

pub fn case(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    const TYPES: &[u32] = &[rt::SAMPLE, rt::MMAP, rt::COMM, rt::MMAP2, rt::NAMESPACES, rt::KSYMBOL, rt::CGROUP, rt::TEXT_POKE];
    let ty = match cx.g.weighted(&[50, 42, 8]) {
        0 => rt::SAMPLE,
        1 => cx.g.pick(TYPES),
        _ => genrec::unknown_type(&mut cx.g),
    };
    if ty == rt::SAMPLE && cx.g.pct(80) {
        c.sample_type |= cx.g.pick(&[st::CALLCHAIN, st::RAW, st::BRANCH_STACK, st::REGS_USER, st::STACK_USER, st::REGS_INTR, st::AUX, st::READ]);
    }
    let size = if cx.g.pct(50) { Size::Small } else { Size::Any };
    let mut r = genrec::rec(&mut cx.g, ty, &mut c, size);
    let e = AnyEndian::pick(&mut cx.g);
    let enc;
    // mode 3: a bare body (no header, no trailer)
    let mode = cx.g.weighted(&[50, 15, 20, 15]);
    let bare = mode == 3;
    if bare && ty == rt::MMAP2 {
        r.misc = 0;
        r.body = genrec::body(&mut cx.g, ty, &c, 0, Size::Small);
    }
    if bare {
        let mut en = Enc::new(e.big());
        r.encode_body(&mut en, &c);
        enc = Encoded { body: 0..0, bytes: en.out, lens: en.lens, marks: en.marks };
    } else {
        enc = r.encode(&c, e.big());
    }
    let want = r.tree(&c);
    let off = if cx.g.pct(65) { 0 } else { cx.g.below(8) };
    let temporary = cx.g.pct(20);
    let chunk = !temporary && cx.g.pct(30);
    let hint = cx.g.bool();
    let n = cx.g.len(20);
    let tail = if bare && r.takes_rest() { vec![] } else { cx.g.bytes(n) };
    let mut data = enc.bytes.clone();
    data.extend_from_slice(&tail);
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.fpn(off as u64);
    cx.say(|| {
        format!("{} as {e:?} at +{off}, mode {mode}{}; {}; marks {:?}; bytes {}", genrec::ty_name(ty), if temporary { " from temporary chunks" } else if chunk { " from one borrowed chunk" } else { "" }, describe_cfg(&c), enc.marks, hex(&data))
    });
    let dec = |b: &[u8]| match bare {
        true => drop(decode_body(ty, 0, b, &c, e.big())),
        false => drop(decode_record(b, &c, e.big())),
    };
    let Some(buf) = known::place(e, &data, off, dec) else { return masked(cx) };
    let off = buf.offset();

    if temporary {
        // temporary chunks: values must survive the source
        let plan = match Plan::gen_chunks(&mut cx.g, data.len()) {
            Plan::Chunks { cuts, hint, .. } => {
                let ext = if cx.g.pct(60) { vec![false] } else { vec![false, true] };
                Plan::Chunks { cuts, ext, hint }
            }
            p => p,
        };
        let rec = with_source!(&plan, buf.get(), None, b => {
            let mut p = Parser::new(b, obs::config(&c, e));
            read(mode, ty, &mut p)
        });
        let rec = match rec {
            Ok(r) => r,
            Err(x) => bail!("valid {} does not parse: {}", genrec::ty_name(ty), err_text(&x)),
        };
        // reuse freed memory
        let junk: Vec<Vec<u8>> = (0..4).map(|_| vec![0x77; data.len()]).collect();
        same("record from temporary chunks after the source is gone", &want, &obs::record(&rec))?;
        drop(junk);
        cx.label("temporary chunks");
        cx.nontrivial = !enc.marks.is_empty();
        return Ok(());
    }

    let base = buf.get().as_ptr() as usize;
    let (rec, usage) = if chunk {
        let plan = Plan::Chunks { cuts: vec![data.len().max(1)], ext: vec![true], hint };
        let Plan::Chunks { cuts, ext, hint } = plan else { unreachable!() };
        let src = Chunked::new(buf.get(), cuts, ext, hint, None);
        let mut p = Parser::new(src, obs::config(&c, e));
        measure(|| read(mode, ty, &mut p))
    } else {
        let mut p = Parser::new(buf.get(), obs::config(&c, e));
        measure(|| read(mode, ty, &mut p))
    };
    let rec = match rec {
        Ok(r) => r,
        Err(x) => bail!("valid {} does not parse: {}", genrec::ty_name(ty), err_text(&x)),
    };
    let mut all = e.host() && off == 0;
    let mut located = false;
    let fs = fields(&rec);
    for (name, pos, len) in &enc.marks {
        if *len == 0 {
            continue;
        }
        let addr = base + pos;
        let array = ARRAYS.contains(name);
        if array && !(e.host() && addr % 8 == 0) {
            all = false;
            continue;
        }
        let mut seen = false;
        for (n, at, l) in fs.iter().filter(|f| f.0 == *name) {
            seen = true;
            if *l == 0 {
                continue;
            }
            ensure!(*at == addr, "{n} of a {} record was copied: it lies at {at:#x}, its data in the borrowed input at {addr:#x}", genrec::ty_name(ty));
            ensure!(*l <= *len, "{n} spans {l} bytes, {len} were encoded");
            located = true;
        }
        ensure!(seen || matches!(rec, Record::Switch), "field {name} is missing from the record");
    }
    same("record", &want, &obs::record(&rec))?;
    if all {
        ensure!(usage.peak <= 4096, "parsing a fully borrowable {} record of {} bytes allocated {} bytes", genrec::ty_name(ty), enc.bytes.len(), usage.peak);
        cx.label("fully borrowable");
    }
    cx.label(if chunk { "one borrowed chunk" } else { "slice" });
    cx.nontrivial = located;
    Ok(())
}

fn read<'p, B: ParseBuf<'p>, E: Endian>(mode: usize, ty: u32, p: &mut Parser<B, E>) -> ParseResult<Record<'p>> {
    match mode {
        0 => p.parse::<Record>(),
        1 => {
            let h: perf_event_header = p.parse()?;
            Record::parse_with_header(p, h)
        }
        2 => {
            let (mut q, m) = p.parse_metadata()?;
            typed_record(m.ty(), &mut q)
        }
        _ => typed_record(ty, p),
    }
}

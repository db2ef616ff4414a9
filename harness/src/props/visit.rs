//! C09: visitor dispatch and agreement of the entry points.

use super::Prop;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::{ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_header;
use std::borrow::Cow;
use std::cell::RefCell;

pub const C09: Prop = Prop {
    id: "C09",
    case,
    quick: 9_000_000,
    thorough: 180_000_000,
    rule: "mode A: a valid record of any type (unknown types included) is given to a visitor that overrides exactly one method, none \
           or all of them, drawn at random; the calls made, the record and the metadata are compared with the model. Mode B: valid and \
           corrupted records through all entry points (Record::parse, parse_record, both with a supplied header, parse_metadata \
           with and without header followed by the body) compared with each other, including the bytes left in the outer parser. \
           Non-trivial: a dispatch was checked, or all six entry points ran.",
};

type Log = RefCell<Vec<(&'static str, V, V)>>;

/// No method overridden.
struct None_<'l>(&'l Log);
impl<'a> Visitor<'a> for None_<'_> {
    type Output = u32;
    fn visit_unimplemented(self, m: RecordMetadata) -> u32 {
        self.0.borrow_mut().push(("unimplemented", V::N, obs::meta(&m)));
        0
    }
}

macro_rules! single {
    ($( $name:ident, $method:ident, ($($p:ident : $t:ty),*), |$m:ident| $obs:expr; )*) => {
        $(
            struct $name<'l>(&'l Log);
            impl<'a> Visitor<'a> for $name<'_> {
                type Output = u32;
                fn visit_unimplemented(self, m: RecordMetadata) -> u32 {
                    self.0.borrow_mut().push(("unimplemented", V::N, obs::meta(&m)));
                    0
                }
                fn $method(self, $($p: $t,)* $m: RecordMetadata) -> u32 {
                    let v = $obs;
                    self.0.borrow_mut().push((stringify!($method), v, obs::meta(&$m)));
                    1
                }
            }
        )*
        const METHODS: &[&str] = &[$(stringify!($method)),*];
        fn dispatch(which: usize, log: &Log, p: &mut Parser<Chunked<'_>, AnyEndian>, header: Option<perf_event_header>) -> ParseResult<u32> {
            let mut i = 0;
            $(
                if i == which {
                    return match header {
                        None => p.parse_record($name(log)),
                        Some(h) => p.parse_record_with_header($name(log), h),
                    };
                }
                i += 1;
            )*
            let _ = i;
            match header {
                None => p.parse_record(None_(log)),
                Some(h) => p.parse_record_with_header(None_(log), h),
            }
        }
    };
}

single! {
    V0, visit_mmap, (r: Mmap<'a>), |m| obs::mmap(&r);
    V1, visit_lost, (r: Lost), |m| obs::lost(&r);
    V2, visit_comm, (r: Comm<'a>), |m| obs::comm(&r);
    V3, visit_exit, (r: Exit), |m| obs::exit("Exit", &r);
    V4, visit_throttle, (r: Throttle), |m| obs::throttle("Throttle", &r);
    V5, visit_unthrottle, (r: Throttle), |m| obs::throttle("Unthrottle", &r);
    V6, visit_fork, (r: Fork), |m| obs::exit("Fork", &r);
    V7, visit_read, (r: Read), |m| obs::read(&r);
    V8, visit_sample, (r: Sample<'a>), |m| obs::sample(&r);
    V9, visit_mmap2, (r: Mmap2<'a>), |m| obs::mmap2(&r);
    V10, visit_aux, (r: Aux), |m| obs::aux(&r);
    V11, visit_itrace_start, (r: ITraceStart), |m| obs::itrace(&r);
    V12, visit_lost_samples, (r: LostSamples), |m| obs::lost_samples(&r);
    V13, visit_switch, (), |m| V::S("Switch", vec![]);
    V14, visit_switch_cpu_wide, (r: SwitchCpuWide), |m| obs::switch_cpu_wide(&r);
    V15, visit_namespaces, (r: Namespaces<'a>), |m| obs::namespaces(&r);
    V16, visit_ksymbol, (r: KSymbol<'a>), |m| obs::ksymbol(&r);
    V17, visit_bpf_event, (r: BpfEvent), |m| obs::bpf(&r);
    V18, visit_cgroup, (r: CGroup<'a>), |m| obs::cgroup(&r);
    V19, visit_text_poke, (r: TextPoke<'a>), |m| obs::text_poke(&r);
    V20, visit_aux_output_hw_id, (r: AuxOutputHwId), |m| obs::hw_id(&r);
    V21, visit_unknown, (d: Cow<'a, [u8]>), |m| obs::unknown(m.ty(), &d);
}

fn method_of(ty: u32) -> usize {
    match ty {
        rt::MMAP..=rt::AUX_OUTPUT_HW_ID => ty as usize - 1,
        _ => 21,
    }
}

/// The MMAP equivalent of an MMAP2 tree.
fn as_mmap(v: &V) -> V {
    match v {
        V::S(_, f) => V::S(
            "Mmap",
            f.iter().filter(|(k, _)| matches!(*k, "pid" | "tid" | "addr" | "len" | "pgoff" | "filename" | "filename_os")).cloned().collect(),
        ),
        _ => unreachable!(),
    }
}

fn header_of(bytes: &[u8], big: bool) -> perf_event_header {
    let mut r = Rd { b: bytes, big };
    perf_event_header { type_: r.u32().unwrap(), misc: r.u16().unwrap(), size: r.u16().unwrap() }
}

fn one_method(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    let ty = genrec::any_type(&mut cx.g);
    let mut r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
    if cx.g.pct(20) {
        genrec::add_surplus(&mut cx.g, &mut r, &c, 32);
    }
    let e = AnyEndian::pick(&mut cx.g);
    let enc = r.encode(&c, e.big());
    let own = method_of(ty);
    let which = match cx.g.weighted(&[5, 2, 2, 2]) {
        0 => own,
        1 => METHODS.len(),
        // interesting neighbours: mmap for mmap2, the twin types
        2 => match ty {
            rt::MMAP2 => method_of(rt::MMAP),
            rt::MMAP => method_of(rt::MMAP2),
            rt::EXIT => method_of(rt::FORK),
            rt::FORK => method_of(rt::EXIT),
            rt::THROTTLE => method_of(rt::UNTHROTTLE),
            rt::UNTHROTTLE => method_of(rt::THROTTLE),
            rt::SWITCH => method_of(rt::SWITCH_CPU_WIDE),
            _ => METHODS.len() - 1,
        },
        _ => cx.g.below(METHODS.len()),
    };
    let with_header = cx.g.bool();
    let Plan::Chunks { cuts, ext, hint } = Plan::gen_chunks(&mut cx.g, enc.bytes.len()) else { unreachable!() };
    cx.cfg_fp(&c);
    cx.fp(&enc.bytes);
    cx.fpn(which as u64);
    let name = METHODS.get(which).copied().unwrap_or("nothing");
    cx.say(|| format!("{} ({ty}) as {e:?}, visitor overriding {name}; {}; misc={:#x}; bytes {}", genrec::ty_name(ty), describe_cfg(&c), r.misc, hex(&enc.bytes)));
    let log: Log = Default::default();
    let (data, h) = if with_header { (&enc.bytes[8..], Some(header_of(&enc.bytes, e.big()))) } else { (&enc.bytes[..], None) };
    let mut p = Parser::new(Chunked::new(data, cuts, ext, hint, None), obs::config(&c, e));
    let ret = match dispatch(which, &log, &mut p, h) {
        Ok(x) => x,
        Err(x) => bail!("valid {} record does not parse: {}", genrec::ty_name(ty), err_text(&x)),
    };
    let calls = log.into_inner();
    ensure!(calls.len() == 1, "visitor called {} times for one {} record: {:?}", calls.len(), genrec::ty_name(ty), calls.iter().map(|c| c.0).collect::<Vec<_>>());
    let (m, rec, meta) = &calls[0];
    let want = if which == own {
        (METHODS[own], r.tree(&c))
    } else if ty == rt::MMAP2 && which == method_of(rt::MMAP) {
        ("visit_mmap", as_mmap(&r.tree(&c)))
    } else {
        ("unimplemented", V::N)
    };
    ensure!(*m == want.0, "{} record (type {ty}) with only {name} overridden reached {m} instead of {}", genrec::ty_name(ty), want.0);
    ensure!(ret == (*m != "unimplemented") as u32, "parse_record does not return the visitor's output");
    same(&format!("record given to {m}"), &want.1, rec)?;
    same(&format!("metadata given to {m}"), &r.meta_tree(&c), meta)?;
    cx.label(if *m == "unimplemented" { "fell through to catch-all" } else { "reached the overridden method" });
    cx.nontrivial = true;
    Ok(())
}

const ENTRY: &[&str] = &[
    "Record::parse",
    "parse_record",
    "Record::parse_with_header",
    "parse_record_with_header",
    "parse_metadata then body",
    "parse_metadata_with_header then body",
];

/// One record through entry point `k`; metadata only where available.
fn through(k: usize, plan: &Plan, all: &[u8], c: &Cfg, e: AnyEndian) -> (Out, Option<V>, Vec<u8>) {
    let (data, h) = if matches!(k, 2 | 3 | 5) { (&all[8..], Some(header_of(all, e.big()))) } else { (all, None) };
    with_source!(plan, data, None, b => {
        let mut p = Parser::new(b, obs::config(c, e));
        let mut meta = None;
        let r: ParseResult<V> = match k {
            0 => p.parse::<Record>().map(|r| obs::record(&r)),
            2 => Record::parse_with_header(&mut p, h.unwrap()).map(|r| obs::record(&r)),
            1 | 3 => (match h {
                None => p.parse_record(Tree),
                Some(h) => p.parse_record_with_header(Tree, h),
            }).map(|(r, m)| { meta = Some(m); r }),
            4 => p.parse_metadata().and_then(|(mut q, m)| {
                let v = typed(m.ty(), &mut q)?;
                meta = Some(obs::meta(&m));
                Ok(v)
            }),
            _ => p.parse_metadata_with_header(h.unwrap()).and_then(|(mut q, m)| {
                let v = typed(m.ty(), &mut q)?;
                meta = Some(obs::meta(&m));
                Ok(v)
            }),
        };
        let o = out(r);
        let rest = if matches!(o, Out::Ok(_)) { rest_of(&mut p).unwrap_or_default() } else { vec![] };
        (o, meta, rest)
    })
}

fn agree(cx: &mut Cx) -> R {
    let mut c = if cx.g.pct(80) { genrec::cfg(&mut cx.g) } else { super::total::wild_cfg(&mut cx.g) };
    let e = AnyEndian::pick(&mut cx.g);
    let ty = genrec::any_type(&mut cx.g);
    let r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
    let enc = r.encode(&c, e.big());
    let mut data = if cx.g.pct(50) { enc.bytes } else { genrec::corrupt(&mut cx.g, &enc, e.big()).0 };
    if data.len() < 8 {
        cx.label("skipped: no header");
        return Ok(());
    }
    let n = cx.g.len(24);
    let tail = cx.g.bytes(n);
    data.extend_from_slice(&tail);
    let plan = Plan::gen(&mut cx.g, data.len());
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.say(|| format!("entry points on {} as {e:?} via {plan:?}; {}; bytes {}", genrec::ty_name(ty), describe_cfg(&c), hex(&data)));
    let base = through(0, &plan, &data, &c, e);
    let mut metas: Option<V> = None;
    for k in 1..ENTRY.len() {
        let x = through(k, &plan, &data, &c, e);
        let what = format!("{} vs {}", ENTRY[0], ENTRY[k]);
        same_out(&what, &base.0, &x.0)?;
        ensure!(base.2 == x.2, "{what}: {} vs {} bytes left in the parser", base.2.len(), x.2.len());
        if let Some(m) = x.1 {
            match &metas {
                None => metas = Some(m),
                Some(w) => same(&format!("metadata from {} vs {}", ENTRY[1], ENTRY[k]), w, &m)?,
            }
        }
    }
    cx.label(if matches!(base.0, Out::Ok(_)) { "entry points: value" } else { "entry points: error" });
    cx.nontrivial = true;
    Ok(())
}

pub fn case(cx: &mut Cx) -> R {
    if cx.g.pct(40) {
        agree(cx)
    } else {
        one_method(cx)
    }
}

//! C03: any bytes under any configuration give a record or a clean error.

use super::Prop;
use crate::exercise;
use crate::gen::G;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::{ErrorKind, ParseError, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};

pub const C03: Prop = Prop {
    id: "C03",
    case,
    quick: 12_000_000,
    thorough: 250_000_000,
    rule: "arbitrary bytes with plausible headers, and valid records corrupted by patched lengths, truncation, bit flips and \
           overwrites, under arbitrary configurations (unsupported bits included) and deliveries, through every entry point: \
           record, visitor, metadata, supplied header, typed body, attribute struct. Every value returned is observed, cloned, \
           converted, iterated, debug-printed and dropped. Non-trivial: at least 16 input bytes and either a value came back or \
           parsing got past the header.",
};

/// Configuration, unsupported bits included.
pub fn wild_cfg(g: &mut G) -> Cfg {
    let mut c = genrec::cfg(g);
    if g.pct(20) {
        c.read_format = g.u64();
    }
    if g.pct(20) {
        c.sample_type |= g.u64() & !st::ALL;
    }
    c
}

/// Bytes for a hostile-input case.
pub fn wild_bytes(g: &mut G, c: &mut Cfg, big: bool) -> Vec<u8> {
    if g.pct(70) {
        let ty = genrec::any_type(g);
        let keep = c.read_format;
        let size = if g.pct(85) { Size::Small } else { Size::Any };
        let r = genrec::rec(g, ty, c, size);
        let e = r.encode(c, big);
        c.read_format = keep;
        if g.pct(85) {
            genrec::corrupt(g, &e, big).0
        } else {
            e.bytes
        }
    } else {
        genrec::arbitrary(g, big)
    }
}

fn bad(e: &ParseError) -> R {
    if e.kind() == ErrorKind::External {
        bail!("reported a forwarded external error although the source raised none: {e}");
    }
    // an error must be printable too
    let _ = exercise::dbg(e, false)?;
    let s = e.to_string();
    if s.is_empty() {
        bail!("an error of kind {:?} prints as nothing", e.kind());
    }
    Ok(())
}

pub fn case(cx: &mut Cx) -> R {
    let mut c = wild_cfg(&mut cx.g);
    let e = AnyEndian::pick(&mut cx.g);
    let mode = cx.g.weighted(&[40, 15, 10, 15, 10, 10]);
    let mut data = if mode == 4 {
        super::attr::wild(&mut cx.g, e.big())
    } else {
        wild_bytes(&mut cx.g, &mut c, e.big())
    };
    if cx.g.pct(20) {
        let more = wild_bytes(&mut cx.g, &mut c, e.big());
        data.extend_from_slice(&more);
    }
    let plan = Plan::gen(&mut cx.g, data.len());
    let ty = genrec::any_type(&mut cx.g);
    let header = perf_event_header { type_: ty, misc: genrec::misc(&mut cx.g), size: if cx.g.bool() { data.len() as u16 } else { cx.g.u16() } };
    let off = cx.g.below(8);
    let skip = if mode == 3 { cx.g.below(data.len().min(9) + 1) } else { 0 };
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.fpn(mode as u64);
    cx.say(|| format!("mode {mode} (type {ty}) as {e:?} via {plan:?}; {}; {} bytes {}", describe_cfg(&c), data.len(), hex(&data)));
    let buf = Aligned::new(&data[skip..], off);
    let small = data.len() < 600;
    let mut got = 0;
    with_source!(&plan, buf.get(), None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        match mode {
            0 => for _ in 0..4 {
                match p.parse::<Record>() {
                    Ok(r) => {
                        exercise::record(&r, small)?;
                        got += 1;
                    }
                    Err(x) => { bad(&x)?; break }
                }
            },
            1 => match p.parse_record(Tree) {
                Ok(_) => got += 1,
                Err(x) => bad(&x)?,
            },
            2 => match p.parse_metadata() {
                Ok((mut q, m)) => {
                    got += 1;
                    exercise::dbg(&m, true)?;
                    let m2 = m.clone();
                    let _ = obs::meta(&m2);
                    if let Err(x) = typed(m.ty(), &mut q) { bad(&x)? }
                    if let Err(x) = q.parse_rest() { bad(&x)? }
                }
                Err(x) => bad(&x)?,
            },
            3 => match typed(ty, &mut p) {
                Ok(_) => got += 1,
                Err(x) => bad(&x)?,
            },
            4 => match p.parse::<perf_event_attr>() {
                Ok(a) => {
                    got += 1;
                    let c2: perf_event_data::parse::ParseConfig<perf_event_data::endian::Little> = a.into();
                    exercise::dbg(&c2, true)?;
                }
                Err(x) => bad(&x)?,
            },
            _ => match Record::parse_with_header(&mut p, header) {
                Ok(r) => {
                    exercise::record(&r, small)?;
                    got += 1;
                }
                Err(x) => bad(&x)?,
            },
        }
    });
    cx.nontrivial = data.len() >= 16;
    cx.label(plan.label());
    cx.label(match mode { 0 => "record", 1 => "visitor", 2 => "metadata", 3 => "typed body", 4 => "attribute struct", _ => "supplied header" });
    cx.label(if got > 0 { "value returned" } else { "rejected" });
    Ok(())
}

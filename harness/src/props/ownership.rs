//! C15: cloning, owning and converting.

use super::Prop;
use crate::alloc::Meter;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::Parser;
use perf_event_data::*;

pub const C15: Prop = Prop {
    id: "C15",
    case,
    quick: 2_400_000,
    thorough: 45_000_000,
    rule: "1-3 valid records of any type parsed from a random delivery (so owned and borrowed data both occur); a random history of \
           4-24 operations (clone, drop, re-check, convert to owned, Record::from the struct, MMAP2 to MMAP three ways, sample to \
           sample id, swap) over a pool of borrowed values and a pool of owned ones, every member compared with the model after it is made; \
           then the input buffer is overwritten and freed and the owned pool compared again; allocation balance must return to zero. \
           Non-trivial: at least one clone or conversion of a record that carries variable-length data.",
};

/// Owned values.
enum Own {
    Mmap(Mmap<'static>),
    Mmap2(Mmap2<'static>),
    Comm(Comm<'static>),
    CGroup(CGroup<'static>),
    KSymbol(KSymbol<'static>),
    TextPoke(TextPoke<'static>),
    Group(ReadGroup<'static>),
    Value(ReadValue),
    Sid(SampleId),
    Lost(Lost),
    Exit(Exit),
    Throttle(Throttle),
}

impl Own {
    fn tree(&self) -> V {
        match self {
            Own::Mmap(x) => obs::mmap(x),
            Own::Mmap2(x) => obs::mmap2(x),
            Own::Comm(x) => obs::comm(x),
            Own::CGroup(x) => obs::cgroup(x),
            Own::KSymbol(x) => obs::ksymbol(x),
            Own::TextPoke(x) => obs::text_poke(x),
            Own::Group(x) => obs::group(x),
            Own::Value(x) => obs::value(x),
            Own::Sid(x) => obs::sid(x),
            Own::Lost(x) => obs::lost(x),
            Own::Exit(x) => obs::exit("Exit", x),
            Own::Throttle(x) => obs::throttle("Throttle", x),
        }
    }
    fn dup(&self) -> Own {
        match self {
            Own::Mmap(x) => Own::Mmap(x.clone()),
            Own::Mmap2(x) => Own::Mmap2(x.clone()),
            Own::Comm(x) => Own::Comm(x.clone()),
            Own::CGroup(x) => Own::CGroup(x.clone()),
            Own::KSymbol(x) => Own::KSymbol(x.clone()),
            Own::TextPoke(x) => Own::TextPoke(x.clone()),
            Own::Group(x) => Own::Group(x.clone()),
            Own::Value(x) => Own::Value(x.clone()),
            Own::Sid(x) => Own::Sid(*x),
            Own::Lost(x) => Own::Lost(*x),
            Own::Exit(x) => Own::Exit(x.clone()),
            Own::Throttle(x) => Own::Throttle(x.clone()),
        }
    }
}

fn as_mmap(v: &V) -> V {
    match v {
        V::S(_, f) => V::S("Mmap", f.iter().filter(|(k, _)| matches!(*k, "pid" | "tid" | "addr" | "len" | "pgoff" | "filename" | "filename_os")).cloned().collect()),
        _ => unreachable!(),
    }
}
fn field(v: &V, name: &str) -> V {
    match v {
        V::S(_, f) => f.iter().find(|(k, _)| *k == name).map_or(V::N, |x| x.1.clone()),
        _ => V::N,
    }
}
fn as_sid(v: &V) -> V {
    sid_tree(field(v, "pid"), field(v, "tid"), field(v, "time"), field(v, "id"), field(v, "stream_id"), field(v, "cpu"))
}
fn rename(v: &V, n: &'static str) -> V {
    match v {
        V::S(_, f) => V::S(n, f.clone()),
        _ => v.clone(),
    }
}

/// Back to the enum through From, where it exists.
fn rewrap(r: Record) -> Record {
    match r {
        Record::Mmap(x) => x.into(),
        Record::Lost(x) => x.into(),
        Record::Comm(x) => x.into(),
        Record::Read(x) => x.into(),
        Record::Sample(x) => (*x).into(),
        Record::Mmap2(x) => x.into(),
        Record::Aux(x) => x.into(),
        Record::ITraceStart(x) => x.into(),
        Record::LostSamples(x) => x.into(),
        Record::SwitchCpuWide(x) => x.into(),
        Record::Namespaces(x) => x.into(),
        Record::KSymbol(x) => x.into(),
        Record::BpfEvent(x) => x.into(),
        Record::CGroup(x) => x.into(),
        Record::TextPoke(x) => x.into(),
        Record::AuxOutputHwId(x) => x.into(),
        other => other,
    }
}

/// Everything the record can be turned into that outlives the buffer, with the
/// tree it must have.
fn own(r: Record, t: &V, how: u64) -> Vec<(Own, V)> {
    match r {
        Record::Mmap(x) => vec![(Own::Mmap(x.into_owned()), t.clone())],
        Record::Mmap2(x) => match how % 4 {
            0 => vec![(Own::Mmap2(x.into_owned()), t.clone())],
            1 => {
                let m = x.to_mmap().into_owned();
                vec![(Own::Mmap(m), as_mmap(t)), (Own::Mmap2(x.into_owned()), t.clone())]
            }
            2 => vec![(Own::Mmap(x.into_mmap().into_owned()), as_mmap(t))],
            _ => vec![(Own::Mmap(Mmap::from(x).into_owned()), as_mmap(t))],
        },
        Record::Comm(x) => vec![(Own::Comm(x.into_owned()), t.clone())],
        Record::CGroup(x) => vec![(Own::CGroup(x.into_owned()), t.clone())],
        Record::KSymbol(x) => vec![(Own::KSymbol(x.into_owned()), t.clone())],
        Record::TextPoke(x) => vec![(Own::TextPoke(x.to_owned()), t.clone())],
        Record::Read(x) => {
            let want = field(t, "values");
            vec![(Own::Value(x.values), want)]
        }
        Record::Sample(s) => {
            let mut v = vec![];
            if let Some(g) = s.values() {
                v.push((Own::Group(g.clone().into_owned()), field(t, "values")));
            }
            let id = match how % 3 {
                0 => SampleId::from_sample(&s),
                1 => SampleId::from(&*s),
                _ => SampleId::from(*s),
            };
            v.push((Own::Sid(id), as_sid(t)));
            v
        }
        Record::Lost(x) => vec![(Own::Lost(x), t.clone())],
        Record::Exit(x) | Record::Fork(x) => vec![(Own::Exit(x), rename(t, "Exit"))],
        Record::Throttle(x) | Record::Unthrottle(x) => vec![(Own::Throttle(x), rename(t, "Throttle"))],
        _ => vec![],
    }
}

pub fn case(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    let e = AnyEndian::pick(&mut cx.g);
    let n = cx.g.range(1, 3);
    let mut bytes = vec![];
    let mut want = vec![];
    let mut rich = false;
    let mut first = 0;
    for i in 0..n {
        let ty = if cx.g.pct(35) { rt::SAMPLE } else { genrec::any_type(&mut cx.g) };
        // one configuration for all
        let ty = if ty == rt::READ && c.fmt(rf::GROUP) { rt::LOST } else { ty };
        if i == 0 {
            first = ty;
        }
        let size = if cx.g.pct(90) { Size::Small } else { Size::Any };
        let r = genrec::rec(&mut cx.g, ty, &mut c, size);
        let enc = r.encode(&c, e.big());
        rich |= enc.marks.iter().any(|m| m.2 > 0) || (ty == rt::SAMPLE && c.has(st::READ));
        bytes.extend_from_slice(&enc.bytes);
        want.push(r.tree(&c));
    }
    let plan = Plan::gen(&mut cx.g, bytes.len());
    // operations drawn up front so that generation does not disturb the meter
    let k = cx.g.range(4, 24);
    let ops: Vec<(usize, u64)> = (0..k).map(|_| (cx.g.weighted(&[6, 4, 3, 5, 4, 3, 2]), cx.g.upto(0xffff))).collect();
    let off = cx.g.below(8);
    cx.cfg_fp(&c);
    cx.fp(&bytes);
    for o in &ops {
        cx.fpn(o.0 as u64 ^ o.1 << 8);
    }
    cx.say(|| format!("{n} records starting with {} as {e:?} via {plan:?}; ops {ops:?}; {}; bytes {}", genrec::ty_name(first), describe_cfg(&c), hex(&bytes)));
    let mut made = 0u32;
    let off = match known::place(e, &bytes, off, |b| decode_all(b, &c, e.big())) {
        Some(b) => b.offset(),
        None => return masked(cx),
    };
    let meter = Meter::start();
    let r = run(&plan, &bytes, off, &c, e, &want, &ops, &mut made);
    let u = meter.read();
    r?;
    ensure!(u.live == 0 && u.blocks == 0, "after dropping everything {} bytes in {} blocks remain allocated", u.live, u.blocks);
    cx.nontrivial = rich && made > 0;
    cx.label(plan.label());
    if made > 0 {
        cx.label("cloned or converted");
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn run(plan: &Plan, bytes: &[u8], off: usize, c: &Cfg, e: AnyEndian, want: &[V], ops: &[(usize, u64)], made: &mut u32) -> R {
    let mut owned: Vec<(Own, V)> = vec![];
    let mut buf = Aligned::new(bytes, off);
    {
        let mut pool: Vec<(Record, V)> = vec![];
        with_source!(plan, buf.get(), None, b => {
            let mut p = Parser::new(b, obs::config(c, e));
            for w in want {
                match p.parse::<Record>() {
                    Ok(r) => pool.push((r, w.clone())),
                    Err(x) => bail!("valid record does not parse: {}", err_text(&x)),
                }
            }
        });
        for (r, w) in &pool {
            same("parsed record", w, &obs::record(r))?;
        }
        for &(op, arg) in ops {
            let arg_us = arg as usize;
            if pool.is_empty() && op < 5 {
                continue;
            }
            let i = if pool.is_empty() { 0 } else { arg_us % pool.len() };
            match op {
                // clone
                0 if pool.len() < 12 => {
                    let (r, w) = &pool[i];
                    let d = (r.clone(), w.clone());
                    same("clone", w, &obs::record(&d.0))?;
                    same("original after cloning", w, &obs::record(r))?;
                    pool.push(d);
                    *made += 1;
                }
                // drop
                1 => {
                    let (r, w) = pool.swap_remove(i);
                    same("record before dropping", &w, &obs::record(&r))?;
                    drop(r);
                }
                // re-check everything
                2 => {
                    for (r, w) in &pool {
                        same("record still held", w, &obs::record(r))?;
                    }
                    for (r, w) in &owned {
                        same("owned value still held", w, &r.tree())?;
                    }
                }
                // convert a clone to owned
                3 if owned.len() < 16 => {
                    let (r, w) = &pool[i];
                    let new = own(r.clone(), w, arg >> 4);
                    for (o, t) in &new {
                        same("owned version", t, &o.tree())?;
                    }
                    same("original after taking ownership of a clone", w, &obs::record(r))?;
                    *made += 1;
                    owned.extend(new);
                }
                // take ownership of the record itself, or rewrap it
                4 => {
                    let (r, w) = pool.swap_remove(i);
                    if arg & 0x100 != 0 {
                        let new = own(r, &w, arg >> 4);
                        for (o, t) in &new {
                            same("owned version", t, &o.tree())?;
                        }
                        owned.extend(new);
                    } else {
                        let r = rewrap(r);
                        same("record rebuilt from its struct", &w, &obs::record(&r))?;
                        pool.push((r, w));
                    }
                    *made += 1;
                }
                // clone or drop an owned value
                5 if !owned.is_empty() => {
                    let i = arg_us % owned.len();
                    if arg & 0x100 != 0 && owned.len() < 16 {
                        let d = (owned[i].0.dup(), owned[i].1.clone());
                        same("clone of an owned value", &d.1, &d.0.tree())?;
                        owned.push(d);
                    } else {
                        drop(owned.swap_remove(i));
                    }
                }
                // group/value conversions
                6 if !owned.is_empty() => {
                    let i = arg_us % owned.len();
                    if let Own::Value(v) = &owned[i].0 {
                        let g = ReadGroup::from(v.clone());
                        let back = ReadValue::try_from(g.clone()).map_err(|_| "a value turned into a group does not convert back")?;
                        same("value through a group and back", &owned[i].1, &obs::value(&back))?;
                        let t = owned[i].1.clone();
                        let g = g.into_owned();
                        let e = g.get(0).ok_or("a group made from a value is empty")?;
                        same("value from the group's entry", &t, &obs::value(&ReadValue::from_group_and_entry(&g, &e)))?;
                    }
                }
                _ => {}
            }
        }
        for (r, w) in &pool {
            same("record at the end", w, &obs::record(r))?;
        }
    }
    // the input goes away
    buf.scribble();
    drop(buf);
    for (o, w) in &owned {
        same("owned value after the input buffer is gone", w, &o.tree())?;
        let d = o.dup();
        same("clone of an owned value after the input buffer is gone", w, &d.tree())?;
    }
    Ok(())
}

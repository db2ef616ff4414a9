//! C23: what a parse gives depends on its input and configuration only - not on
//! what was parsed before, what is being parsed next to it, or by whom.

use super::primitives::{self, Op};
use super::Prop;
use crate::gen::{tiny, G};
use crate::genrec::{self, Size};
use crate::known;
use crate::model::*;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::endian::*;
use perf_event_data::parse::{ParseConfig, ParseError, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::marker::PhantomData;
use std::sync::Barrier;

pub const C23: Prop = Prop {
    id: "C23",
    case: purity,
    quick: 600_000,
    thorough: 30_000_000,
    rule: "2-6 jobs (a valid, mutated or arbitrary record, a bare body, a history of primitives, or an attribute struct - some of them \
           an earlier one cut short or with its end zeroed; each with its own configuration, byte order, \
           alignment and delivery) whose value, debug text and error text are taken once and compared with the model where the \
           record is valid; then all of them again: in random orders with repetitions; stepwise interleaved from several live \
           parsers with all earlier results kept and read again at the end; or on 2-4 threads at once, which also read one \
           shared record. Non-trivial: at least two jobs with different inputs, and at least one that gives a value.",
};

#[derive(Clone)]
enum What {
    Record,
    Attr,
    Body(u32),
    Ops(Vec<Op>),
}

#[derive(Clone)]
struct Job {
    what: What,
    c: Cfg,
    e: AnyEndian,
    plan: Plan,
    off: usize,
    bytes: Vec<u8>,
    want: Option<V>,
}

#[derive(Clone, PartialEq)]
struct Seen {
    out: Out,
    text: String,
}

fn seen_err(e: &ParseError) -> Seen {
    Seen { out: Out::Err(e.kind()), text: format!("{e} / {e:?}") }
}

fn seen_record(r: &Record) -> Seen {
    Seen { out: Out::Ok(obs::record(r)), text: format!("{r:?}") }
}

fn gen_job(g: &mut G, like: Option<&Job>) -> Job {
    if let Some(j) = like {
        if g.pct(25) {
            // all but some of its bytes
            let mut j = Job { want: None, ..j.clone() };
            let at = g.below(j.bytes.len() + 1);
            if g.bool() {
                j.bytes.truncate(at);
            } else {
                j.bytes[at..].fill(0);
            }
            return j;
        }
    }
    let e = AnyEndian::pick(g);
    let off = if g.pct(80) { 0 } else { g.below(8) };
    if g.pct(15) {
        let n = g.range(1, 200);
        let bytes = g.bytes(n);
        let plan = Plan::gen(g, n);
        let ops = (0..g.range(1, 5)).map(|_| primitives::gen_op(g, n)).filter(|op| primitives::need(op).is_none_or(|n| n < 1 << 20)).collect();
        return Job { what: What::Ops(ops), c: Cfg::default(), e, plan, off, bytes, want: None };
    }
    if g.pct(8) {
        let bytes = super::attr::both(g)[e.big() as usize].clone();
        let plan = if g.pct(60) { Plan::Slice } else { Plan::gen_split(g, bytes.len()) };
        return Job { what: What::Attr, c: Cfg::default(), e, plan, off, bytes, want: None };
    }
    let mut c = match like {
        // the same up to one part of the configuration
        Some(j) if g.pct(60) => {
            let mut c = j.c.clone();
            match g.below(6) {
                0 => c.sample_id_all = !c.sample_id_all,
                1 => c.read_format = genrec::cfg(g).read_format,
                2 => c.sample_type ^= 1 << g.below(25),
                3 => c.hw_index = !c.hw_index,
                4 => c.regs_user ^= 1 << g.below(64),
                _ => (),
            }
            c
        }
        _ => genrec::cfg(g),
    };
    let (bytes, valid) = match g.weighted(&[7, 2, 1]) {
        2 => (genrec::arbitrary(g, e.big()), false),
        k => {
            let ty = if g.pct(40) { rt::SAMPLE } else { genrec::any_type(g) };
            let size = if g.pct(90) || tiny() { Size::Small } else { Size::Any };
            let r = genrec::rec(g, ty, &mut c, size);
            if g.pct(15) {
                let mut en = Enc::new(e.big());
                r.encode_body(&mut en, &c);
                let mut bytes = en.out;
                if g.pct(30) {
                    bytes.truncate(g.below(bytes.len() + 1));
                }
                let plan = if g.pct(40) { Plan::Slice } else { Plan::gen_split(g, bytes.len()) };
                return Job { what: What::Body(ty), c, e, plan, off, bytes, want: None };
            }
            let enc = r.encode(&c, e.big());
            if k == 0 {
                (enc.bytes, true)
            } else {
                (genrec::corrupt(g, &enc, e.big()).0, false)
            }
        }
    };
    let plan = if g.pct(60) { Plan::Slice } else { Plan::gen_split(g, bytes.len()) };
    let mut want = None;
    if valid {
        let buf = Aligned::new(&bytes, off);
        if !known::hit(e, || drop(decode_record(buf.get(), &c, e.big()))) {
            want = decode_record(&bytes, &c, e.big()).ok().map(|d| d.rec.tree(&c));
        }
    }
    Job { what: What::Record, c, e, plan, off, bytes, want }
}

fn run(j: &Job) -> Seen {
    let buf = Aligned::new(&j.bytes, j.off);
    with_source!(&j.plan, buf.get(), None, b => {
        let mut p = Parser::new(b, obs::config(&j.c, j.e));
        match j.what {
            What::Record => match p.parse::<Record>() {
                Ok(r) => seen_record(&r),
                Err(e) => seen_err(&e),
            },
            What::Body(ty) => match typed(ty, &mut p) {
                Ok(v) => Seen { out: Out::Ok(v), text: String::new() },
                Err(e) => seen_err(&e),
            },
            What::Ops(ref ops) => {
                let mut vs = vec![];
                for op in ops {
                    match primitives::apply(op, &mut p) {
                        Ok(v) => vs.push(v),
                        Err(e) => return Seen { out: Out::Err(e.kind()), text: format!("after {vs:?}: {e} / {e:?}") },
                    }
                }
                Seen { out: Out::Ok(V::L(vs)), text: String::new() }
            }
            What::Attr => match p.parse::<perf_event_attr>() {
                Ok(a) => Seen { out: Out::Ok(super::attr::observe(&a)), text: String::new() },
                Err(e) => seen_err(&e),
            },
        }
    })
}

fn equal(what: &str, a: &Seen, b: &Seen) -> R {
    same_out(what, &a.out, &b.out)?;
    ensure!(a.text == b.text, "{what}: {:?} vs {:?}", a.text, b.text);
    Ok(())
}

macro_rules! is {
    ($t:ty: $tr:path) => {{
        #[allow(dead_code)]
        trait No {
            const YES: bool = false;
        }
        impl<T: ?Sized> No for T {}
        #[allow(dead_code)]
        struct W<T: ?Sized>(PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $tr> W<T> {
            const YES: bool = true;
        }
        <W<$t>>::YES
    }};
}
macro_rules! shareable {
    ($($t:ty),* $(,)?) => {
        [$((stringify!($t), is!($t: Send), is!($t: Sync))),*]
    };
}

/// Can every type of the interface go to, and be used from, another thread?
fn types() -> R {
    let all = shareable![
        ParseConfig<Native>, ParseConfig<Little>, ParseConfig<Big>, ParseConfig<Dynamic>, ParseError,
        Parser<&'static [u8], Native>, Parser<&'static [u8], Dynamic>,
        Record<'static>, RecordMetadata, SampleId, Mmap<'static>, Lost, Comm<'static>, Exit, Throttle, Read, Sample<'static>,
        Mmap2<'static>, Aux, ITraceStart, LostSamples, SwitchCpuWide, Namespaces<'static>, KSymbol<'static>, BpfEvent,
        CGroup<'static>, TextPoke<'static>, AuxOutputHwId, ReadGroup<'static>, ReadValue, GroupEntry, BranchEntry, DataSource,
        Registers<'static>,
    ];
    for (name, send, sync) in all {
        ensure!(send, "{name} cannot be sent to another thread");
        ensure!(sync, "{name} cannot be shared between threads");
    }
    Ok(())
}

/// A record that several threads read. [`types`] has held.
struct Shared<'a>(&'a Record<'a>);
unsafe impl Send for Shared<'_> {}
unsafe impl Sync for Shared<'_> {}

fn purity(cx: &mut Cx) -> R {
    types()?;
    let n = cx.g.range(2, if tiny() { 3 } else { 6 });
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..n {
        let j = gen_job(&mut cx.g, jobs.last());
        cx.fp(&j.bytes);
        cx.cfg_fp(&j.c);
        jobs.push(j);
    }
    let how = cx.g.weighted(&[64, 28, 8]);
    cx.say(|| {
        let v: Vec<_> = jobs
            .iter()
            .map(|j| format!("{} as {:?} at +{} via {}; {}; bytes {}", match &j.what {
                    What::Attr => "attr".into(),
                    What::Record => "record".into(),
                    What::Body(ty) => format!("{} body", genrec::ty_name(*ty)),
                    What::Ops(o) => format!("{o:?}"),
                }, j.e, j.off, j.plan.label(), describe_cfg(&j.c), hex(&j.bytes)))
            .collect();
        format!("{}: [{}]", ["orders", "interleaved", "threads"][how], v.join(" | "))
    });
    let first: Vec<Seen> = jobs.iter().map(run).collect();
    for (i, (j, s)) in jobs.iter().zip(&first).enumerate() {
        if let Some(w) = &j.want {
            same_out(&format!("job {i} of {n}, the first time"), &Out::Ok(w.clone()), &s.out)?;
        }
    }
    cx.nontrivial = jobs[1..].iter().any(|j| j.bytes != jobs[0].bytes) && first.iter().any(|s| matches!(s.out, Out::Ok(_)));
    match how {
        0 => {
            let mut before = n - 1;
            for _ in 0..cx.g.range(n, 4 * n) {
                let i = cx.g.below(n);
                equal(&format!("job {i} at first against after job {before}"), &first[i], &run(&jobs[i]))?;
                before = i;
            }
            cx.label("orders");
        }
        1 => interleaved(cx)?,
        _ => {
            threads(&mut cx.g, &jobs, &first)?;
            cx.label("threads");
        }
    }
    Ok(())
}

/// Several parsers take turns, and what they gave before is kept.
fn interleaved(cx: &mut Cx) -> R {
    struct Stream {
        c: Cfg,
        e: AnyEndian,
        buf: Aligned,
    }
    let mut streams = vec![];
    for _ in 0..cx.g.range(2, 4) {
        let mut c = genrec::cfg(&mut cx.g);
        let e = AnyEndian::pick(&mut cx.g);
        let mut data = vec![];
        let ty = genrec::any_type(&mut cx.g);
        // settles the configuration that the others of the stream have to live with
        let r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
        data.extend(r.encode(&c, e.big()).bytes);
        for _ in 0..cx.g.range(0, 4) {
            let mut c2 = c.clone();
            let ty = genrec::any_type(&mut cx.g);
            let r = genrec::rec(&mut cx.g, ty, &mut c2, Size::Small);
            let enc = r.encode(&c2, e.big());
            data.extend(if cx.g.pct(20) { genrec::corrupt(&mut cx.g, &enc, e.big()).0 } else { enc.bytes });
        }
        let off = if cx.g.pct(80) { 0 } else { cx.g.below(8) };
        streams.push(Stream { c, e, buf: Aligned::new(&data, off) });
    }
    // each on its own
    let solo: Vec<Vec<Seen>> = streams
        .iter()
        .map(|s| {
            let mut p = Parser::new(s.buf.get(), obs::config(&s.c, s.e));
            (0..6).map(|_| p.parse::<Record>().map_or_else(|e| seen_err(&e), |r| seen_record(&r))).collect()
        })
        .collect();
    let mut live: Vec<_> = streams.iter().map(|s| (Parser::new(s.buf.get(), obs::config(&s.c, s.e)), 0)).collect();
    let mut kept = vec![];
    for _ in 0..cx.g.range(4, 24) {
        let i = cx.g.below(live.len());
        let (p, k) = &mut live[i];
        if *k == 6 {
            continue;
        }
        let r = p.parse::<Record>();
        equal(&format!("record {k} of stream {i}, alone against in turns"), &solo[i][*k], &r.as_ref().map_or_else(seen_err, seen_record))?;
        kept.push((i, *k, r));
        *k += 1;
    }
    for (i, k, r) in &kept {
        equal(&format!("record {k} of stream {i}, read again after all others"), &solo[*i][*k], &r.as_ref().map_or_else(seen_err, seen_record))?;
    }
    cx.label("interleaved");
    Ok(())
}

fn threads(g: &mut G, jobs: &[Job], first: &[Seen]) -> R {
    let t = g.range(2, if tiny() { 2 } else { 4 });
    let rounds = if tiny() { 2 } else { g.range(4, 24) };
    let orders: Vec<Vec<usize>> = (0..t).map(|_| (0..g.range(1, 6)).map(|_| g.below(jobs.len())).collect()).collect();
    // a record that all of them look at
    let bufs: Vec<Aligned> = jobs.iter().map(|j| Aligned::new(&j.bytes, j.off)).collect();
    let one = jobs.iter().zip(&bufs).find_map(|(j, b)| match j.what {
        What::Record => Parser::new(b.get(), obs::config(&j.c, j.e)).parse::<Record>().ok(),
        _ => None,
    });
    let shared = one.as_ref().map(|r| (Shared(r), seen_record(r)));
    let gate = Barrier::new(t);
    std::thread::scope(|s| {
        let handles: Vec<_> = orders
            .iter()
            .map(|order| {
                let (gate, shared) = (&gate, &shared);
                s.spawn(move || -> R {
                    gate.wait();
                    for _ in 0..rounds {
                        for &i in order {
                            equal(&format!("job {i}, alone against next to {} other threads", t - 1), &first[i], &run(&jobs[i]))?;
                        }
                        if let Some((Shared(r), want)) = shared {
                            equal("a record read by several threads at once", want, &seen_record(r))?;
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        let all: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
        for r in all {
            match r {
                Ok(r) => r?,
                Err(_) => bail!("a thread panicked"),
            }
        }
        Ok(())
    })
}

//! C10: configurations reflect the attributes they were built from.

use super::Prop;
use crate::gen::G;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::{ErrorKind, ParseConfig, Parser};
use perf_event_data::*;

pub const C10: Prop = Prop {
    id: "C10",
    case,
    quick: 6_000_000,
    thorough: 100_000_000,
    rule: "(a) random attribute words (unsupported bits included) through every byte-order type and re-typing: accessors and the \
           behaviour that depends on the hidden settings compared with the words; (b) histories of 2-10 records and bare bodies \
           with differing misc bits through one parser; (c) unsupported read formats: every way of reading counter values must \
           fail as unsupported, everything else must be unaffected. Non-trivial: (a) with some word non-zero, (b) with two misc \
           values, (c) always.",
};

fn word(g: &mut G) -> u64 {
    match g.weighted(&[4, 3, 2, 1, 1]) {
        0 => g.u64(),
        1 => g.upto(u64::MAX),
        2 => 1u64 << g.below(64),
        3 => u64::MAX,
        _ => 0,
    }
}

pub fn case(cx: &mut Cx) -> R {
    match cx.g.weighted(&[40, 35, 25]) {
        0 => words(cx),
        1 => history(cx),
        _ => unsupported(cx),
    }
}

fn check<E: Endian>(c: &Cfg, k: &ParseConfig<E>, what: &str) -> R {
    let st_ = k.sample_type().bits();
    ensure!(st_ & st::ALL == c.sample_type & st::ALL, "{what}: sample_type {:#x} reported for {:#x}", st_, c.sample_type);
    let rf_ = k.read_format().bits();
    ensure!(rf_ & rf::ALL == c.read_format & rf::ALL, "{what}: read_format {rf_:#x} reported for {:#x}", c.read_format);
    ensure!((rf_ & !rf::ALL != 0) == (c.read_format & !rf::ALL != 0), "{what}: read_format {rf_:#x} reported for {:#x} (unsupported bits)", c.read_format);
    ensure!(k.regs_user() == c.regs_user, "{what}: regs_user {:#x} reported for {:#x}", k.regs_user(), c.regs_user);
    ensure!(k.regs_intr() == c.regs_intr, "{what}: regs_intr {:#x} reported for {:#x}", k.regs_intr(), c.regs_intr);
    let n = SampleId::estimate_len(k);
    ensure!(n == c.sid_len(), "{what}: trailer length {n}, configured {}", c.sid_len());
    Ok(())
}

/// Settings without accessors show in what gets parsed.
fn behaviour<E: Endian>(c: &Cfg, k: ParseConfig<E>, big: bool, what: &str, misc: u16) -> R {
    // sample_id_all and the trailer fields
    let mut g = G::replay(vec![]);
    let sid = SidM { pid: 1, tid: 2, time: 3, id: 4, stream_id: 5, cpu: 6, res: 7, identifier: 8 };
    let mut en = Enc::new(big);
    if c.sample_id_all {
        sid.encode(&mut en, c);
    }
    en.u8(0x77);
    let mut p = Parser::new(&en.out[..], k.clone());
    let got = with_rest(&mut p, |p| p.parse::<SampleId>().map(|s| obs::sid(&s)));
    match got {
        Ok(v) => same(&format!("{what}: trailer"), &V::S("WithRest", vec![("value", sid.tree(c)), ("rest", V::B(vec![0x77]))]), &v)?,
        Err(x) => bail!("{what}: trailer does not parse: {}", err_text(&x)),
    }
    // every other setting, through a sample; unsupported read formats are
    // covered elsewhere
    let mut cs = c.clone();
    if cs.read_format & !rf::ALL != 0 && cs.has(st::READ) {
        return Ok(());
    }
    cs.sample_type &= st::ALL;
    let mut s = genrec::sample(&mut g, &cs, Size::Small);
    s.hw_index = 0x1122334455667788;
    s.lbr = vec![(9, 10, 11)];
    s.callchain = vec![21, 22, 23];
    s.regs_user = RegsM { abi: 2, regs: (100..100 + cs.regs_user.count_ones() as u64).collect() };
    s.regs_intr = RegsM { abi: 1, regs: (300..300 + cs.regs_intr.count_ones() as u64).collect() };
    s.raw = vec![1, 2, 3];
    s.time = 77;
    let r = Rec { misc, body: Body::Sample(Box::new(s)), sid: SidM::default(), surplus: vec![] };
    let b = r.encode(&cs, big).bytes;
    let mut p = Parser::new(&b[..], k.clone());
    match full(&mut p) {
        Ok(v) => same(&format!("{what}: sample"), &pair(r.tree(&cs), r.meta_tree(&cs)), &v)?,
        Err(x) => bail!("{what}: sample does not parse: {}", err_text(&x)),
    }
    check(c, p.config(), &format!("{what}, after a sample"))
}

/// The debug output is the one place that shows every setting.
fn shown<E: Endian + std::fmt::Debug>(c: &Cfg, k: &ParseConfig<E>, misc: u16) -> R {
    let t = format!("{k:?}");
    for want in [
        format!("sample_id_all: {}", c.sample_id_all),
        format!("branch_hw_index: {}", c.hw_index),
        format!("misc: 0x{misc:X}"),
        format!("regs_user: 0x{:X}", c.regs_user),
        format!("regs_intr: 0x{:X}", c.regs_intr),
    ] {
        let i = t.find(&want).map(|i| i + want.len());
        let whole = i.is_some_and(|i| !t[i..].starts_with(|c: char| c.is_alphanumeric()));
        ensure!(whole, "the debug output lacks `{want}`: {t}");
    }
    Ok(())
}

fn words(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    if cx.g.pct(70) {
        c.sample_type = word(&mut cx.g);
        c.read_format = word(&mut cx.g);
        c.regs_user = word(&mut cx.g);
        c.regs_intr = word(&mut cx.g);
    }
    if cx.g.pct(40) {
        c.read_format &= rf::ALL
    }
    let misc = genrec::misc(&mut cx.g);
    cx.cfg_fp(&c);
    cx.say(|| describe_cfg(&c));
    let a = obs::attr(&c);
    check(&c, &ParseConfig::<Native>::from(a), "Native")?;
    check(&c, &ParseConfig::<Little>::from(a), "Little")?;
    if cx.g.pct(10) {
        shown(&c, &ParseConfig::<Little>::from(a), 0)?;
        shown(&Cfg::default(), &ParseConfig::<Native>::default(), 0)?;
        // the parser for the body of a record knows the misc bits of its header
        let mut en = Enc::new(false);
        en.u32(rt::MMAP);
        en.u16(misc);
        en.u16(8);
        let mut p = Parser::new(&en.out[..], ParseConfig::<Little>::from(a));
        match p.parse_metadata() {
            Ok((body, meta)) => {
                ensure!(meta.misc() == misc, "a header with misc {misc:#x} gives {:#x}", meta.misc());
                check(&c, body.config(), "configuration of a record's parser")?;
                shown(&c, body.config(), misc)?;
            }
            Err(x) => bail!("the header of an empty record does not parse: {}", err_text(&x)),
        }
        shown(&c, p.config(), 0)?;
    }
    check(&c, &ParseConfig::<Big>::from(a), "Big")?;
    behaviour(&c, ParseConfig::<Little>::from(a), false, "Little", misc)?;
    behaviour(&c, ParseConfig::<Big>::from(a), true, "Big", misc)?;
    // re-typing, several times
    let k = ParseConfig::<Big>::from(a);
    let k = k.with_endian(Little);
    check(&c, &k, "re-typed")?;
    let k = k.clone().with_endian(Dynamic::Big);
    ensure!(*k.endian() == Dynamic::Big, "endian() does not report the new byte order");
    check(&c, &k, "re-typed twice")?;
    behaviour(&c, k.clone(), true, "re-typed twice", misc)?;
    let k = k.with_endian(AnyEndian::DynLittle);
    behaviour(&c, k, false, "re-typed three times", misc)?;
    check(&Cfg::default(), &ParseConfig::<Little>::default(), "default configuration")?;
    cx.nontrivial = c.sample_type | c.read_format | c.regs_user | c.regs_intr != 0;
    cx.label("words");
    Ok(())
}

fn history(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    c.read_format &= !rf::GROUP;
    let e = AnyEndian::pick(&mut cx.g);
    let n = cx.g.range(2, 10);
    let mut steps = vec![];
    let mut ends = vec![];
    let mut data = vec![];
    let mut miscs = std::collections::HashSet::new();
    for _ in 0..n {
        let ty = match cx.g.weighted(&[4, 4, 3]) {
            0 => rt::MMAP2,
            1 => rt::SWITCH_CPU_WIDE,
            _ => genrec::any_type(&mut cx.g),
        };
        let how = cx.g.weighted(&[4, 3, 3, 3, 3]);
        let mut r = genrec::rec(&mut cx.g, ty, &mut c, Size::Tiny);
        // a bare body has no header, hence no misc bits
        let bare = how == 3 && !r.takes_rest() && ty != rt::MMAP2;
        if bare {
            r.misc = 0;
            r.surplus.clear();
            let mut en = Enc::new(e.big());
            r.encode_body(&mut en, &c);
            data.extend_from_slice(&en.out);
        } else {
            miscs.insert(r.misc);
            data.extend_from_slice(&r.encode(&c, e.big()).bytes);
        }
        steps.push((r, how, bare));
        ends.push(data.len());
    }
    // bare MMAP2 at the end (it takes the rest)
    let last = if cx.g.bool() {
        let r = Rec { misc: 0, body: genrec::body(&mut cx.g, rt::MMAP2, &c, 0, Size::Tiny), sid: SidM::default(), surplus: vec![] };
        let mut en = Enc::new(e.big());
        r.encode_body(&mut en, &c);
        data.extend_from_slice(&en.out);
        Some(r)
    } else {
        None
    };
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.say(|| {
        let s: Vec<_> = steps.iter().map(|(r, h, b)| format!("{}:{:#x}/{h}{}", genrec::ty_name(r.ty()), r.misc, if *b { "/bare" } else { "" })).collect();
        format!("{} as {e:?}; {}", s.join(" "), describe_cfg(&c))
    });
    let plan = if cx.g.pct(75) { Plan::Slice } else { Plan::gen_split(&mut cx.g, data.len()) };
    let scan = || {
        let mut at = 0;
        for ((r, _, bare), end) in steps.iter().zip(&ends) {
            match bare {
                true => drop(decode_body(r.ty(), 0, &data[at..], &c, e.big())),
                false => drop(decode_record(&data[at..], &c, e.big())),
            }
            at = *end;
        }
    };
    if known::hit(e, scan) {
        return masked(cx);
    }
    with_source!(&plan, &data[..], None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        for (i, (r, how, bare)) in steps.iter().enumerate() {
            let fail = |x: perf_event_data::parse::ParseError| format!("step {i} ({}): {}", genrec::ty_name(r.ty()), err_text(&x));
            let what = format!("step {i} ({})", genrec::ty_name(r.ty()));
            if *bare {
                same(&what, &r.tree(&c), &typed(r.ty(), &mut p).map_err(fail)?)?;
            } else if *how == 0 {
                same(&what, &r.tree(&c), &obs::record(&p.parse::<Record>().map_err(fail)?))?;
            } else if *how == 1 {
                let h = p.parse().map_err(fail)?;
                let (a, m) = p.parse_record_with_header(Tree, h).map_err(fail)?;
                same(&what, &pair(r.tree(&c), r.meta_tree(&c)), &pair(a, m))?;
            } else if *how == 2 {
                let (mut q, m) = p.parse_metadata().map_err(fail)?;
                let v = typed(m.ty(), &mut q).map_err(fail)?;
                same(&what, &pair(r.tree(&c), r.meta_tree(&c)), &pair(v, obs::meta(&m)))?;
            } else {
                same(&what, &pair(r.tree(&c), r.meta_tree(&c)), &full(&mut p).map_err(fail)?)?;
            }
            check(&c, p.config(), &what)?;
        }
        if let Some(r) = &last {
            let v = typed(rt::MMAP2, &mut p).map_err(|x| format!("bare MMAP2 after the history: {}", err_text(&x)))?;
            same("bare MMAP2 after the history", &r.tree(&c), &v)?;
        }
    });
    cx.nontrivial = miscs.len() >= 2;
    cx.label("history");
    Ok(())
}

fn unsupported(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    let good = c.read_format;
    let bad = match cx.g.weighted(&[4, 3, 2]) {
        0 => 1u64 << cx.g.range(5, 63),
        1 => word(&mut cx.g) & !rf::ALL,
        _ => !rf::ALL,
    };
    let bad = if bad == 0 { 1 << 5 } else { bad };
    c.read_format |= bad;
    let e = AnyEndian::pick(&mut cx.g);
    let which = cx.g.weighted(&[3, 3, 3, 3, 3]);
    let n = cx.g.range(400, 700);
    let filler = cx.g.bytes(n);
    cx.cfg_fp(&c);
    cx.fp(&filler);
    cx.fpn(which as u64);
    cx.nontrivial = true;
    if which == 4 {
        // records without counter values do not care
        c.sample_type &= !st::READ;
        let mut ty = genrec::any_type(&mut cx.g);
        if ty == rt::READ {
            ty = rt::SAMPLE
        }
        let mut cg = c.clone();
        cg.read_format = good;
        let r = genrec::rec(&mut cx.g, ty, &mut cg, Size::Small);
        let b = r.encode(&cg, e.big()).bytes;
        cx.say(|| format!("{} under read_format {:#x}: {}", genrec::ty_name(ty), c.read_format, hex(&b)));
        let mut p = Parser::new(&b[..], obs::config(&c, e));
        match full(&mut p) {
            Ok(v) => same("record without counter values", &pair(r.tree(&cg), r.meta_tree(&cg)), &v)?,
            Err(x) => bail!("{} has no counter values but fails: {}", genrec::ty_name(ty), err_text(&x)),
        }
        cx.label("unsupported: unaffected record");
        return Ok(());
    }
    let plan = Plan::gen(&mut cx.g, filler.len());
    cx.say(|| format!("reader {which} under read_format {:#x} via {plan:?}", c.read_format));
    // fields before the counter values, so that the sample reaches them
    c.sample_type = st::READ | (c.sample_type & (st::IDENTIFIER | st::IP | st::TID | st::TIME | st::ADDR | st::ID | st::STREAM_ID | st::CPU | st::PERIOD));
    c.sample_id_all = false;
    let framed = which >= 2 && cx.g.bool();
    let mut data = vec![];
    if framed {
        let mut en = Enc::new(e.big());
        en.u32(if which == 2 { rt::READ } else { rt::SAMPLE });
        en.u16(0);
        en.u16(8 + filler.len() as u16);
        data = en.out;
    }
    data.extend_from_slice(&filler);
    let k = with_source!(&plan, &data[..], None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        match (which, framed) {
            (0, _) => p.parse::<ReadValue>().map(|_| ()),
            (1, _) => p.parse::<ReadGroup>().map(|_| ()),
            (_, true) => p.parse::<Record>().map(|_| ()),
            (2, false) => p.parse::<perf_event_data::Read>().map(|_| ()),
            _ => p.parse::<Sample>().map(|_| ()),
        }
    });
    match k {
        Ok(()) => bail!("counter values (reader {which}) parse under read_format {:#x}", c.read_format),
        Err(x) => ensure!(x.kind() == ErrorKind::UnsupportedConfig, "counter values (reader {which}) under read_format {:#x} fail as {}", c.read_format, err_text(&x)),
    }
    cx.label("unsupported: rejected");
    Ok(())
}

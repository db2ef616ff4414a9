//! C04: memory is bounded by the bytes supplied.

use super::Prop;
use crate::alloc::Meter;
use crate::gen::G;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::Parser;
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;

pub const C04: Prop = Prop {
    id: "C04",
    case,
    quick: 6_000_000,
    thorough: 120_000_000,
    rule: "(a) valid, corrupted and arbitrary inputs under every delivery: peak allocation measured by a counting allocator, \
           everything released after the result is dropped; (b) records whose last count or length claims 20 KB up to 2^64 \
           bytes while under 4 KB are present, after other well-filled fields: must fail, with no single allocation as large as \
           the claim. Non-trivial: (b), or (a) with at least 16 bytes.",
};

pub fn case(cx: &mut Cx) -> R {
    if cx.g.pct(55) {
        claims(cx)
    } else {
        general(cx)
    }
}

fn general(cx: &mut Cx) -> R {
    let e = AnyEndian::pick(&mut cx.g);
    let attr = cx.g.pct(12);
    let mut c = super::total::wild_cfg(&mut cx.g);
    let data = if attr {
        super::attr::wild(&mut cx.g, e.big())
    } else if cx.g.bool() {
        super::total::wild_bytes(&mut cx.g, &mut c, e.big())
    } else {
        c.read_format &= rf::ALL;
        let ty = genrec::any_type(&mut cx.g);
        genrec::rec(&mut cx.g, ty, &mut c, Size::Any).encode(&c, e.big()).bytes
    };
    let plan = Plan::gen(&mut cx.g, data.len());
    let body = cx.g.pct(25);
    let ty = genrec::any_type(&mut cx.g);
    let conf = obs::config(&c, e);
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.say(|| format!("{} {} bytes as {e:?} via {plan:?}; {}; {}", if attr { "attr" } else { "record" }, data.len(), describe_cfg(&c), hex(&data)));
    let pieces = plan.pieces(data.len()) as i64;
    let (used, after) = with_source!(&plan, &data[..], None, b => {
        let mut p = Parser::new(b, conf);
        let m = Meter::start();
        if attr {
            let r = p.parse::<perf_event_attr>();
            let used = m.read();
            drop(r);
            (used, m.read())
        } else if body {
            let used = mem_body(ty, &mut p, &m);
            (used, m.read())
        } else {
            let r = p.parse::<Record>();
            let used = m.read();
            drop(r);
            (used, m.read())
        }
    });
    let len = data.len() as i64;
    let bound = match plan {
        Plan::Slice => 4 * len + 65536,
        // copies of the pieces, lists of the pieces, growing buffers
        _ => 12 * len + 256 * pieces + 65536,
    };
    ensure!(used.peak <= bound, "{} bytes supplied via {}, peak allocation {} exceeds {bound}", len, plan.label(), used.peak);
    ensure!(after.live == 0 && after.blocks == 0, "after dropping the result {} bytes in {} blocks are still allocated", after.live, after.blocks);
    cx.nontrivial = len >= 16;
    cx.label(plan.label());
    Ok(())
}

/// Parse a body, keeping the value alive while measuring, without
/// observing it (observing allocates).
fn mem_body<'p, B: parse::ParseBuf<'p>, E: endian::Endian>(ty: u32, p: &mut Parser<B, E>, m: &Meter) -> crate::alloc::Usage {
    macro_rules! go {
        ($t:ty) => {{
            let r = p.parse::<$t>();
            let u = m.read();
            drop(r);
            u
        }};
    }
    match ty {
        rt::MMAP => go!(Mmap),
        rt::COMM => go!(Comm),
        rt::READ => go!(Read),
        rt::SAMPLE => go!(Sample),
        rt::MMAP2 => go!(Mmap2),
        rt::NAMESPACES => go!(Namespaces),
        rt::KSYMBOL => go!(KSymbol),
        rt::CGROUP => go!(CGroup),
        rt::TEXT_POKE => go!(TextPoke),
        rt::EXIT => go!(Exit),
        rt::AUX => go!(Aux),
        _ => {
            let r = p.parse_rest();
            let u = m.read();
            drop(r);
            u
        }
    }
}

fn fill(g: &mut G, max: usize) -> usize {
    if g.bool() {
        g.range(max / 2, max)
    } else {
        g.upto(max as u64) as usize
    }
}

fn claims(cx: &mut Cx) -> R {
    let e = AnyEndian::pick(&mut cx.g);
    let g = &mut cx.g;
    // the claimed size in bytes
    let claim: u64 = match g.weighted(&[5, 2, 2, 1]) {
        0 => g.range(20_000, 60_000) as u64,
        1 => g.range(60_000, 100_000_000) as u64,
        2 => 1u64 << g.range(28, 62),
        _ => g.u64() | (1 << 40),
    };
    let have = g.range(0, 3900);
    let mut c = Cfg { read_format: g.upto(rf::ALL), sample_id_all: g.bool(), hw_index: g.bool(), ..Default::default() };
    c.regs_user = g.upto(0xff);
    let which = g.weighted(&[4, 4, 4, 4, 4, 4, 5, 3, 2]);
    let vars = [st::READ, st::CALLCHAIN, st::RAW, st::BRANCH_STACK, st::STACK_USER, st::AUX];
    let (mut bytes, lens, kind, claimed): (Vec<u8>, Vec<LenField>, &'static str, u64);
    match which {
        0..=5 => {
            let mut s = SampleM::default();
            c.sample_type = vars[which];
            for v in &vars[..which] {
                if g.pct(70) {
                    c.sample_type |= v;
                }
            }
            for v in [st::IP, st::TID, st::TIME, st::REGS_USER, st::CPU] {
                if g.bool() {
                    c.sample_type |= v
                }
            }
            if which == 0 {
                c.read_format |= rf::GROUP;
            }
            s.regs_user = RegsM { abi: 2, regs: g.u64s(c.regs_user.count_ones() as usize) };
            s.values = ReadM { entries: vec![Counter::default(); 1], ..Default::default() };
            let target = |g: &mut G, i: usize| if i == which { have } else { fill(g, 8000) };
            for (i, v) in vars.iter().enumerate() {
                if !c.has(*v) {
                    continue;
                }
                let n = target(g, i);
                match i {
                    0 if c.fmt(rf::GROUP) => s.values.entries = vec![Counter { value: 7, id: 8, lost: 9 }; n / 24],
                    0 => {}
                    1 => s.callchain = g.u64s(n / 8),
                    2 => s.raw = g.bytes(n),
                    3 => s.lbr = vec![(1, 2, 3); n / 24],
                    4 => {
                        s.stack = g.bytes(n.max(1));
                        s.dyn_size = 0
                    }
                    _ => s.aux = g.bytes(n),
                }
            }
            let r = Rec { misc: 0, body: Body::Sample(Box::new(s)), sid: SidM::default(), surplus: vec![] };
            let en = r.encode(&c, e.big());
            let (elem, name): (u64, &'static str) = match which {
                0 => (8 * (1 + c.fmt(rf::ID) as u64 + c.fmt(rf::LOST) as u64), "read group"),
                1 => (8, "call chain"),
                2 => (1, "raw"),
                3 => (24, "branch stack"),
                4 => (1, "user stack"),
                _ => (1, "aux"),
            };
            kind = name;
            // position of the claimed count among the length fields
            let mut k = 0;
            for (i, v) in vars.iter().enumerate().take(which) {
                if c.has(*v) {
                    k += match i {
                        0 => c.fmt(rf::GROUP) as usize,
                        4 => 2,
                        _ => 1,
                    }
                }
            }
            lens = vec![en.lens[k]];
            claimed = (claim / elem).saturating_add(1);
            bytes = en.bytes;
            // anything after the claimed field stays small
            let _ = &lens;
        }
        6 => {
            kind = "namespaces";
            let r = Rec { misc: 0, body: Body::Namespaces { pid: 1, tid: 2, ns: vec![(3, 4); have / 16] }, sid: SidM::default(), surplus: vec![] };
            let en = r.encode(&c, e.big());
            lens = vec![en.lens[0]];
            claimed = claim / 16 + 1;
            bytes = en.bytes;
        }
        7 => {
            kind = "text poke";
            let r = Rec { misc: 0, body: Body::TextPoke { addr: 5, old: vec![6; have / 2], new: vec![7; have / 2], padb: 0 }, sid: SidM::default(), surplus: vec![] };
            let en = r.encode(&c, e.big());
            lens = vec![en.lens[0]];
            claimed = claim.clamp(20_000, 65_535);
            bytes = en.bytes;
        }
        _ => {
            kind = "attribute struct";
            let mut en = Enc::new(e.big());
            en.u32(0);
            en.len32(0);
            let n = have.max(200);
            en.bytes(&vec![0; n]);
            lens = en.lens.clone();
            claimed = claim.min(u32::MAX as u64);
            bytes = en.out;
        }
    }
    let (pos, w, _) = lens[0];
    let cap = if w == 8 { u64::MAX } else { (1u64 << (8 * w as u32)) - 1 };
    let claimed = claimed.min(cap);
    let claim_bytes = claim.min(cap).max(20_000);
    patch_int(&mut bytes, pos, w, claimed, e.big());
    let off = cx.g.below(2) * cx.g.below(8);
    let Some(buf) = known::place(e, &bytes, off, |b| drop(decode_record(b, &c, e.big()))) else { return masked(cx) };
    let plan = match cx.g.weighted(&[3, 3, 3, 2]) {
        0 => Plan::Slice,
        1 => Plan::Chunks { cuts: vec![cx.g.range(256, 1024)], ext: vec![cx.g.bool(), cx.g.bool()], hint: true },
        2 => Plan::Chunks { cuts: vec![cx.g.range(256, 1024)], ext: vec![cx.g.bool(), cx.g.bool()], hint: false },
        _ => Plan::Reader { cap: cx.g.range(64, 2000), reads: vec![usize::MAX] },
    };
    let bare = cx.g.bool() && which < 8;
    let conf = obs::config(&c, e);
    cx.cfg_fp(&c);
    cx.fp(&bytes);
    cx.fpn(plan.pieces(bytes.len()) as u64);
    cx.say(|| format!("{kind} claims {claimed} elements ({claim_bytes} bytes), {} bytes supplied as {e:?} via {plan:?}, bare={bare}; {}", bytes.len(), describe_cfg(&c)));
    let ty = match which { 0..=5 => rt::SAMPLE, 6 => rt::NAMESPACES, _ => rt::TEXT_POKE };
    let start = if bare { 8 } else { 0 };
    let (ok, used, after) = with_source!(&plan, &buf.get()[start..], None, b => {
        let mut p = Parser::new(b, conf);
        let m = Meter::start();
        macro_rules! go {
            ($t:ty) => {{
                let r = p.parse::<$t>();
                let u = m.read();
                let ok = r.is_ok();
                drop(r);
                (ok, u, m.read())
            }};
        }
        match (which, bare) {
            (8, _) => go!(perf_event_attr),
            (_, false) => go!(Record),
            _ => match ty {
                rt::SAMPLE => go!(Sample),
                rt::NAMESPACES => go!(Namespaces),
                _ => go!(TextPoke),
            },
        }
    });
    ensure!(!ok, "{kind} claiming {claimed} elements parsed although only {} bytes were supplied", bytes.len());
    ensure!((used.largest as u64) < claim_bytes, "{kind} claims {claim_bytes} bytes with {} supplied via {}: a block of {} bytes was allocated", bytes.len(), plan.label(), used.largest);
    ensure!(after.live == 0 && after.blocks == 0, "after the failed parse {} bytes in {} blocks are still allocated", after.live, after.blocks);
    let len = bytes.len() as i64;
    let bound = if matches!(plan, Plan::Slice) { 4 * len + 65536 } else { 12 * len + 256 * plan.pieces(bytes.len()) as i64 + 65536 };
    ensure!(used.peak <= bound, "{len} bytes supplied via {}, peak allocation {} exceeds {bound}", plan.label(), used.peak);
    cx.nontrivial = true;
    cx.label(kind);
    cx.label(plan.label());
    Ok(())
}

//! C14: parser primitives against a byte queue.

use super::Prop;
use crate::gen::G;
use crate::genrec;
use crate::known;
use crate::obs;
use crate::model::*;
use crate::run::*;
use crate::source::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ErrorKind, ParseBuf, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_header;

pub const C14: Prop = Prop {
    id: "C14",
    case,
    quick: 6_000_000,
    thorough: 120_000_000,
    rule: "a random history of 1-16 parser operations (all public primitives, zero-length and absurd lengths included) over 0-200 \
           random bytes (sometimes up to 5000) in a random delivery, byte order and alignment, checked after every step against a \
           byte queue; ends with the rest of the input; also copies of one parser read on independently, and histories inside the body of a record or of a record in a record. Non-trivial: at least two operations consumed bytes.",
};

#[derive(Clone, Copy, Debug)]
pub enum Op {
    U8,
    U16,
    U32,
    U64,
    ParseU8,
    ParseU16,
    ParseU32,
    ParseU64,
    Array(usize),
    Bytes(usize),
    RepeatedU8(usize),
    RepeatedU32(usize),
    RepeatedU64(usize),
    RepeatedArray(usize),
    RepeatedNs(usize),
    SliceU8(usize),
    SliceU16(usize),
    SliceU32(usize),
    SliceU64(usize),
    SliceNs(usize),
    SliceBranch(usize),
    DirectU8(usize),
    DirectU32(usize),
    DirectU64(usize),
    If(bool),
    IfWith(bool),
    With,
    Header,
    RestTrim,
    Rest,
}

fn len(g: &mut G, left: usize, unit: usize) -> usize {
    let fit = left / unit;
    match g.weighted(&[5, 20, 2, 1, 1]) {
        0 => 0,
        1 if left > 16384 && g.bool() => g.range(16384 / unit, fit),
        1 => g.upto(fit.min(12) as u64) as usize,
        2 => fit,
        3 => fit + 1 + g.below(4),
        _ => match g.below(6) {
            0 => usize::MAX,
            1 => usize::MAX / unit,
            2 => (usize::MAX / unit).saturating_add(1),
            3 => (1u64 << 40) as usize,
            4 => {
                let v = g.upto(fit.min(12) as u64);
                crate::genrec::aliased(g, v) as usize
            }
            _ => left + 1000,
        },
    }
}

pub fn gen_op(g: &mut G, left: usize) -> Op {
    match g.weighted(&[3, 3, 3, 3, 5, 6, 2, 3, 2, 3, 2, 3, 4, 2, 2, 3, 3, 4, 3, 3, 2, 2, 2, 2]) {
        0 => g.pick(&[Op::U8, Op::ParseU8]),
        1 => g.pick(&[Op::U16, Op::ParseU16]),
        2 => g.pick(&[Op::U32, Op::ParseU32]),
        3 => g.pick(&[Op::U64, Op::ParseU64]),
        4 => Op::Array(g.pick(&[0, 1, 3, 8, 20, 33])),
        5 => Op::Bytes(len(g, left, 1)),
        6 => Op::RepeatedU8(len(g, left, 1)),
        7 => match g.below(3) {
            0 => Op::RepeatedU32(len(g, left, 4)),
            1 => Op::RepeatedU64(len(g, left, 8)),
            _ => Op::RepeatedArray(len(g, left, 5)),
        },
        8 => Op::RepeatedNs(len(g, left, 16)),
        9 => Op::SliceU8(len(g, left, 1)),
        10 => Op::SliceU16(len(g, left, 2)),
        11 => Op::SliceU32(len(g, left, 4)),
        12 => Op::SliceU64(len(g, left, 8)),
        13 => Op::SliceNs(len(g, left, 16)),
        14 => Op::SliceBranch(len(g, left, 24)),
        15 => Op::DirectU8(len(g, left, 1)),
        16 => Op::DirectU32(len(g, left, 4)),
        17 => Op::DirectU64(len(g, left, 8)),
        18 => Op::If(g.bool()),
        19 => Op::IfWith(g.bool()),
        20 => Op::With,
        21 => Op::Header,
        22 => Op::RestTrim,
        _ => Op::Rest,
    }
}

/// Bytes the operation needs, None for "everything"; saturating.
pub fn need(op: &Op) -> Option<usize> {
    Some(match op {
        Op::U8 | Op::ParseU8 => 1,
        Op::U16 | Op::ParseU16 => 2,
        Op::U32 | Op::ParseU32 => 4,
        Op::U64 | Op::ParseU64 => 8,
        Op::Array(n) | Op::Bytes(n) | Op::RepeatedU8(n) | Op::SliceU8(n) | Op::DirectU8(n) => *n,
        Op::SliceU16(n) => n.saturating_mul(2),
        Op::RepeatedU32(n) | Op::SliceU32(n) | Op::DirectU32(n) => n.saturating_mul(4),
        Op::RepeatedArray(n) => n.saturating_mul(5),
        Op::RepeatedU64(n) | Op::SliceU64(n) | Op::DirectU64(n) => n.saturating_mul(8),
        Op::RepeatedNs(n) | Op::SliceNs(n) => n.saturating_mul(16),
        Op::SliceBranch(n) => n.saturating_mul(24),
        Op::If(b) => *b as usize * 4,
        Op::IfWith(b) => *b as usize * 3,
        Op::With => 6,
        Op::Header => 8,
        Op::RestTrim | Op::Rest => return None,
    })
}

pub fn is_direct(op: &Op) -> bool {
    matches!(op, Op::DirectU8(_) | Op::DirectU32(_) | Op::DirectU64(_))
}

/// Would a view of the operation's elements at `p` be unaligned?
pub fn unaligned(op: &Op, p: *const u8) -> bool {
    let width = match op {
        Op::SliceU16(_) => 2,
        Op::SliceU32(_) | Op::DirectU32(_) => 4,
        Op::SliceU64(_) | Op::DirectU64(_) | Op::SliceNs(_) | Op::SliceBranch(_) => std::mem::align_of::<u64>(),
        _ => return false,
    };
    need(op) != Some(0) && p as usize % width != 0
}

fn ints(b: &[u8], w: usize, big: bool) -> V {
    V::W(b.chunks_exact(w)
        .map(|c| {
            let f = |a: u64, x: &u8| (a << 8) | *x as u64;
            if big { c.iter().fold(0, f) } else { c.iter().rev().fold(0, f) }
        })
        .collect())
}

fn branches(b: &[u8], big: bool) -> V {
    let V::W(w) = ints(b, 8, big) else { unreachable!() };
    V::L(w.chunks_exact(3).map(|c| branch_tree(&(c[0], c[1], c[2]))).collect())
}

/// What the operation must return given exactly its bytes.
pub fn expect(op: &Op, b: &[u8], big: bool) -> V {
    match op {
        Op::U8 | Op::U16 | Op::U32 | Op::U64 | Op::ParseU8 | Op::ParseU16 | Op::ParseU32 | Op::ParseU64 => ints(b, b.len().max(1), big),
        Op::Array(_) | Op::RepeatedArray(_) | Op::Bytes(_) | Op::Rest => V::B(b.to_vec()),
        Op::RestTrim => {
            let n = b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
            V::B(b[..n].to_vec())
        }
        Op::RepeatedU8(_) | Op::SliceU8(_) | Op::DirectU8(_) => ints(b, 1, big),
        Op::SliceU16(_) => ints(b, 2, big),
        Op::RepeatedU32(_) | Op::SliceU32(_) | Op::DirectU32(_) => ints(b, 4, big),
        Op::RepeatedU64(_) | Op::SliceU64(_) | Op::DirectU64(_) | Op::RepeatedNs(_) | Op::SliceNs(_) => ints(b, 8, big),
        Op::SliceBranch(_) => branches(b, big),
        Op::If(false) | Op::IfWith(false) => V::N,
        Op::If(true) => ints(b, 4, big),
        // u8 then u16
        Op::IfWith(true) => V::L(vec![ints(&b[..1], 1, big), ints(&b[1..], 2, big)]),
        // u16 then four bytes
        Op::With => V::L(vec![ints(&b[..2], 2, big), V::B(b[2..].to_vec())]),
        Op::Header => V::L(vec![ints(&b[..4], 4, big), ints(&b[4..6], 2, big), ints(&b[6..], 2, big)]),
    }
}

fn w<T: Copy + Into<u64>>(x: &[T]) -> V {
    V::W(x.iter().map(|v| (*v).into()).collect())
}
fn nsw(x: &[NamespaceEntry]) -> V {
    V::W(x.iter().flat_map(|e| [e.dev, e.inode]).collect())
}

/// Run the operation; a declined direct view gives V::S("declined").
pub fn apply<'p, B: ParseBuf<'p>, E: Endian>(op: &Op, p: &mut Parser<B, E>) -> ParseResult<V> {
    let declined = || V::S("declined", vec![]);
    Ok(match *op {
        Op::U8 => V::W(vec![p.parse_u8()? as u64]),
        Op::U16 => V::W(vec![p.parse_u16()? as u64]),
        Op::U32 => V::W(vec![p.parse_u32()? as u64]),
        Op::U64 => V::W(vec![p.parse_u64()?]),
        Op::ParseU8 => V::W(vec![p.parse::<u8>()? as u64]),
        Op::ParseU16 => V::W(vec![p.parse::<u16>()? as u64]),
        Op::ParseU32 => V::W(vec![p.parse::<u32>()? as u64]),
        Op::ParseU64 => V::W(vec![p.parse::<u64>()?]),
        Op::Array(0) => V::B(p.parse::<[u8; 0]>()?.to_vec()),
        Op::Array(1) => V::B(p.parse::<[u8; 1]>()?.to_vec()),
        Op::Array(3) => V::B(p.parse::<[u8; 3]>()?.to_vec()),
        Op::Array(8) => V::B(p.parse::<[u8; 8]>()?.to_vec()),
        Op::Array(20) => V::B(p.parse::<[u8; 20]>()?.to_vec()),
        Op::Array(_) => V::B(p.parse::<[u8; 33]>()?.to_vec()),
        Op::Bytes(n) => V::B(p.parse_bytes(n)?.to_vec()),
        Op::RepeatedU8(n) => w(&p.parse_repeated::<u8>(n)?),
        Op::RepeatedU32(n) => w(&p.parse_repeated::<u32>(n)?),
        Op::RepeatedU64(n) => w(&p.parse_repeated::<u64>(n)?),
        Op::RepeatedArray(n) => V::B(p.parse_repeated::<[u8; 5]>(n)?.concat()),
        Op::RepeatedNs(n) => nsw(&p.parse_repeated::<NamespaceEntry>(n)?),
        // SAFETY: the element types are plain data
        Op::SliceU8(n) => w(&unsafe { p.parse_slice::<u8>(n)? }),
        Op::SliceU16(n) => w(&unsafe { p.parse_slice::<u16>(n)? }),
        Op::SliceU32(n) => w(&unsafe { p.parse_slice::<u32>(n)? }),
        Op::SliceU64(n) => w(&unsafe { p.parse_slice::<u64>(n)? }),
        Op::SliceNs(n) => nsw(&unsafe { p.parse_slice::<NamespaceEntry>(n)? }),
        Op::SliceBranch(n) => V::L(unsafe { p.parse_slice::<BranchEntry>(n)? }.iter().map(obs::branch).collect()),
        Op::DirectU8(n) => unsafe { p.parse_slice_direct::<u8>(n)? }.map_or_else(declined, w),
        Op::DirectU32(n) => unsafe { p.parse_slice_direct::<u32>(n)? }.map_or_else(declined, w),
        Op::DirectU64(n) => unsafe { p.parse_slice_direct::<u64>(n)? }.map_or_else(declined, w),
        Op::If(b) => p.parse_if::<u32>(b)?.map_or(V::N, |x| V::W(vec![x as u64])),
        Op::IfWith(b) => p
            .parse_if_with(b, |p| Ok(V::L(vec![V::W(vec![p.parse_u8()? as u64]), V::W(vec![p.parse_u16()? as u64])])))?
            .unwrap_or(V::N),
        Op::With => p.parse_with(|p| Ok(V::L(vec![V::W(vec![p.parse_u16()? as u64]), V::B(p.parse_bytes(4)?.to_vec())])))?,
        Op::Header => {
            let h: perf_event_header = p.parse()?;
            V::L(vec![V::W(vec![h.type_ as u64]), V::W(vec![h.misc as u64]), V::W(vec![h.size as u64])])
        }
        Op::RestTrim => V::B(p.parse_rest_trim_nul()?.to_vec()),
        Op::Rest => V::B(p.parse_rest()?.to_vec()),
    })
}

pub fn gen_data(g: &mut G) -> Vec<u8> {
    let n = match g.weighted(&[900, 90, 10]) {
        0 => g.len(200),
        1 => g.len(5000),
        // beyond what the library allocates up front for a source of unknown size
        _ if crate::gen::tiny() => g.range(0, 60),
        _ => g.range(15_000, 70_000),
    };
    let mut d = g.bytes(n);
    if g.pct(20) && !d.is_empty() {
        // NUL tail
        let k = g.range(1, d.len());
        let l = d.len();
        d[l - k..].fill(0);
    }
    d
}

/// `data` is what the parser holds, `base` its position in what the source was
/// made from. Returns how many operations consumed bytes.
#[allow(clippy::too_many_arguments)]
fn history<'p, B: ParseBuf<'p>>(g: &mut G, p: &mut Parser<B, AnyEndian>, data: &[u8], base: usize, plan: &Plan, e: AnyEndian, trace: &mut Vec<Op>, hit: &mut [bool; 5]) -> Result<u32, String> {
    let big = e.big();
    let mut pos = 0;
    let mut used = 0;
    let n = g.range(1, 16);
    for step in 0..n {
        let left = data.len() - pos;
        let mut op = gen_op(g, left);
        for _ in 0..3 {
            // mostly operations that can succeed, so that histories get long
            if need(&op).unwrap_or(left) <= left && need(&op).is_some() || g.pct(15) {
                break;
            }
            op = gen_op(g, left);
        }
        trace.push(op.clone());
        let from = pos;
        let at = || format!("step {step}, {op:?} at {from} of {}", data.len());
        let take = need(&op).unwrap_or(left);
        let (borrowed, piece) = if left > 0 { plan.piece_at(base + pos, base + data.len()) } else { (false, 0) };
        let r = apply(&op, p);
        if borrowed && take <= piece && unaligned(&op, data[pos..].as_ptr()) && e.host() && known::present() {
            // the known finding: the bytes are passed over before the view is declined
            hit[4] = true;
            pos += take;
            if is_direct(&op) {
                ensure!(matches!(r, Ok(V::S("declined", _))), "{}: an unaligned view was given", at());
                continue;
            }
            match r {
                Ok(v) if take <= left - take => same(&at(), &expect(&op, &data[pos..pos + take], big), &v)?,
                Err(_) if take > left - take => return Ok(used),
                Ok(_) => bail!("{}: succeeded although the input is too short", at()),
                Err(e) => bail!("{}: {}", at(), err_text(&e)),
            }
            pos += take;
            used += 1;
            continue;
        }
        if is_direct(&op) {
            match r {
                Ok(V::S("declined", _)) => {
                    hit[0] = true;
                    continue;
                }
                Ok(v) => {
                    ensure!(take <= left, "{}: a view of {take} bytes was returned but only {left} remain", at());
                    same(&at(), &expect(&op, &data[pos..pos + take], big), &v)?;
                    hit[1] = true;
                }
                Err(e) => {
                    // an impossible view may be reported as an error
                    ensure!(take > left, "{}: failed ({}) although {left} bytes remain", at(), err_text(&e));
                    hit[2] = true;
                    return Ok(used);
                }
            }
        } else if take <= left {
            match r {
                Ok(v) => same(&at(), &expect(&op, &data[pos..pos + take], big), &v)?,
                Err(e) => bail!("{}: failed ({}) although {take} bytes were needed and {left} remain", at(), err_text(&e)),
            }
        } else {
            match r {
                Ok(_) => bail!("{}: succeeded although {take} bytes were needed and {left} remain", at()),
                Err(e) => {
                    let k = e.kind();
                    ensure!(k == ErrorKind::Eof || (k == ErrorKind::InvalidRecord && take == usize::MAX), "{}: too little data reported as {}", at(), err_text(&e));
                    hit[2] = true;
                    return Ok(used);
                }
            }
        }
        pos += take;
        if take > 0 {
            used += 1;
        }
    }
    // whatever is left must be what the queue holds, twice over
    let rest = match p.parse_rest() {
        Ok(r) => r,
        Err(e) => bail!("rest of input after {pos} of {} bytes: {}", data.len(), err_text(&e)),
    };
    same("rest of input", &V::B(data[pos..].to_vec()), &V::B(rest.to_vec()))?;
    match p.parse_rest() {
        Ok(r) => ensure!(r.is_empty(), "rest of an exhausted input is {} bytes", r.len()),
        Err(e) => bail!("rest of an exhausted input: {}", err_text(&e)),
    }
    hit[3] = true;
    ensure!(p.parse_u8().is_err(), "a byte came out of an exhausted parser");
    Ok(used)
}

/// Copies of a parser read on independently.
fn clones(cx: &mut Cx) -> R {
    let n = cx.g.range(8, 120);
    let data = cx.g.bytes(n);
    let e = AnyEndian::pick(&mut cx.g);
    let off = cx.g.below(8);
    let buf = Aligned::new(&data, off);
    let d = buf.get();
    cx.fp(&data);
    let mut all = vec![(Parser::new(d, obs::config(&Cfg::default(), e)), 0usize)];
    let mut trace = vec![];
    let mut used = 0;
    for _ in 0..cx.g.range(2, 20) {
        let i = cx.g.below(all.len());
        if cx.g.pct(25) && all.len() < 5 {
            let c = (all[i].0.clone(), all[i].1);
            all.push(c);
            continue;
        }
        let (p, pos) = &mut all[i];
        let left = d.len() - *pos;
        let op = gen_op(&mut cx.g, left);
        let take = need(&op).unwrap_or(left);
        if is_direct(&op) || take > left || unaligned(&op, d[*pos..].as_ptr()) && e.host() {
            continue;
        }
        let at = format!("copy {i}, {op:?} at {pos} of {}", d.len());
        match apply(&op, p) {
            Ok(v) => same(&at, &expect(&op, &d[*pos..*pos + take], e.big()), &v)?,
            Err(x) => bail!("{at}: {}", err_text(&x)),
        }
        trace.push((i, op));
        *pos += take;
        used += (take > 0) as u32;
    }
    cx.say(|| format!("copies of a parser as {e:?} at +{off}: {trace:?} over {}", hex(&data)));
    cx.nontrivial = all.len() > 1 && used >= 2;
    for (i, (p, pos)) in all.iter_mut().enumerate() {
        match p.parse_rest() {
            Ok(r) => same(&format!("rest of copy {i}"), &V::B(d[*pos..].to_vec()), &V::B(r.to_vec()))?,
            Err(x) => bail!("rest of copy {i}: {}", err_text(&x)),
        }
    }
    cx.label("copies of a parser");
    Ok(())
}

/// The parser of a record's body, and of a record inside a record's body, is a
/// source like any other - and leaves the one it came from after the record.
fn inside_records(cx: &mut Cx) -> R {
    let c = Cfg { sample_id_all: cx.g.bool(), sample_type: cx.g.upto(st::ALL) & st::SID, ..Cfg::default() };
    let e = AnyEndian::pick(&mut cx.g);
    let mut data = gen_data(&mut cx.g);
    data.truncate(60_000);
    let inner_len = data.len();
    let depth = cx.g.range(1, 2);
    // the innermost body starts at `base` of the whole
    let mut base = 0;
    let mut after = vec![];
    for _ in 0..depth {
        let ty = if cx.g.bool() { genrec::any_type(&mut cx.g) } else { cx.g.u32() };
        let trailer = if c.sample_id_all && !matches!(ty, rt::MMAP | rt::SAMPLE) { c.sid_len() } else { 0 };
        let t = cx.g.bytes(trailer);
        let mut en = Enc::new(e.big());
        en.u32(ty);
        en.u16(genrec::misc(&mut cx.g));
        en.u16((8 + data.len() + trailer) as u16);
        en.bytes(&data);
        en.bytes(&t);
        let n = cx.g.len(40);
        let tail = cx.g.bytes(n);
        en.bytes(&tail);
        after.push(tail);
        data = en.out;
        base += 8;
    }
    let off = if cx.g.pct(50) { 0 } else { cx.g.below(8) };
    let buf = Aligned::new(&data, off);
    let plan = Plan::gen(&mut cx.g, data.len());
    cx.fp(&data);
    let mut trace = vec![];
    let mut hit = [false; 5];
    let body = &buf.get()[base..base + inner_len];
    let g = &mut cx.g;
    let r = with_source!(&plan, buf.get(), None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        let r = (|| {
            let err = |x: perf_event_data::parse::ParseError| format!("metadata: {}", err_text(&x));
            let (mut q, _) = p.parse_metadata().map_err(err)?;
            if depth == 1 {
                return history(g, &mut q, body, base, &plan, e, &mut trace, &mut hit);
            }
            let r = {
                let (mut q2, _) = q.parse_metadata().map_err(err)?;
                history(g, &mut q2, body, base, &plan, e, &mut trace, &mut hit)
            };
            same("the outer record after the inner one", &V::B(after[0].clone()), &rest_of(&mut q).map_or(V::N, V::B))?;
            r
        })();
        match rest_of(&mut p) {
            Ok(x) => same("what follows the record", &V::B(after[depth - 1].clone()), &V::B(x)).and(r),
            Err(x) => Err(format!("what follows the record: {}", err_text(&x))),
        }
    });
    cx.say(|| format!("inside {depth} records, as {e:?} at +{off} via {plan:?}; {}: {trace:?} over {}", describe_cfg(&c), hex(&data)));
    for op in &trace {
        cx.fp(format!("{op:?}").as_bytes());
    }
    cx.label("inside records");
    cx.nontrivial = r? >= 2;
    Ok(())
}

pub fn case(cx: &mut Cx) -> R {
    match cx.g.weighted(&[82, 6, 12]) {
        0 => (),
        1 => return clones(cx),
        _ => return inside_records(cx),
    }
    let data = gen_data(&mut cx.g);
    let e = AnyEndian::pick(&mut cx.g);
    let plan = Plan::gen(&mut cx.g, data.len());
    let off = if cx.g.pct(50) { 0 } else { cx.g.below(8) };
    let c = Cfg::default();
    cx.fp(&data);
    let mut trace = vec![];
    let mut hit = [false; 5];
    let buf = Aligned::new(&data, off);
    let g = &mut cx.g;
    let r = with_source!(&plan, buf.get(), None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        history(g, &mut p, buf.get(), 0, &plan, e, &mut trace, &mut hit)
    });
    cx.say(|| format!("{e:?} at +{off} via {plan:?}: {trace:?} over {} bytes {}", data.len(), hex(&data)));
    for op in &trace {
        let s = format!("{op:?}");
        cx.fp(s.as_bytes());
    }
    let names = ["view declined", "view given", "ended by a failing operation", "read to the end", "unaligned array in host order"];
    for (h, n) in hit.iter().zip(names) {
        if *h {
            cx.label(n);
        }
    }
    cx.label(plan.label());
    cx.nontrivial = r? >= 2;
    Ok(())
}

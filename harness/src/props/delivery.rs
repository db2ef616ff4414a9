//! C05 (delivery independence) and C18 (source failures).

use super::primitives::{self, Op};
use super::Prop;
use crate::gen::G;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::{ErrorKind, ParseBuf, ParseError, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};

pub const C05: Prop = Prop {
    id: "C05",
    case: case05,
    quick: 4_500_000,
    thorough: 75_000_000,
    rule: "one to three records (valid, corrupted or arbitrary bytes) plus trailing bytes, a bare typed body, an attribute struct, or a \
           history of parser primitives, parsed once from a slice and two or three times from random deliveries (chunks of random \
           sizes, borrowed or temporary, with and without size hint; buffered readers of random capacity over short reads); outcomes, error kinds and \
           remaining bytes must agree step by step. Non-trivial: at least one delivery had two or more pieces.",
};
pub const C18: Prop = Prop {
    id: "C18",
    case: case18,
    quick: 12_000_000,
    thorough: 200_000_000,
    rule: "a source that fails at a random byte position k (arbitrary error, some other io error, unexpected-end io error, parse end-of-input; for good or only once), as a \
           chunked source or a buffered reader, under: sequences of one to three valid records, one possibly corrupted record, a bare body, an attribute struct, \
           a history of parser primitives including rest-of-input. Each step must succeed with the model's value if it needs \
           only bytes before k and otherwise return exactly that failure. Non-trivial: the fault was reached or k lies inside the data.",
};

/// How one record is read.
fn entry<'p, B: ParseBuf<'p>, E: Endian>(k: usize, p: &mut Parser<B, E>) -> ParseResult<V> {
    match k {
        0 => p.parse::<Record>().map(|r| obs::record(&r)),
        1 => full(p),
        2 => {
            let (mut q, m) = p.parse_metadata()?;
            let v = typed(m.ty(), &mut q)?;
            let rest = q.parse_rest()?.len();
            Ok(V::L(vec![v, obs::meta(&m), V::U(rest as u64)]))
        }
        3 => {
            let h: perf_event_header = p.parse()?;
            Record::parse_with_header(p, h).map(|r| obs::record(&r))
        }
        _ => {
            let (mut q, m) = p.parse_metadata()?;
            Ok(pair(obs::meta(&m), V::B(q.parse_rest()?.to_vec())))
        }
    }
}

enum What {
    Records(Vec<usize>),
    Body(u32),
    Attr,
    Ops(Vec<Op>),
}

fn steps<'p, B: ParseBuf<'p>, E: Endian>(w: &What, p: &mut Parser<B, E>) -> Vec<Out> {
    let mut v = vec![];
    let n = match w {
        What::Records(e) => e.len(),
        What::Ops(o) => o.len(),
        _ => 1,
    };
    for i in 0..n {
        let r = out(match w {
            What::Records(e) => entry(e[i], p),
            What::Body(ty) => typed(*ty, p),
            What::Attr => p.parse::<perf_event_attr>().map(|a| super::attr::observe(&a)),
            What::Ops(o) => primitives::apply(&o[i], p),
        });
        let stop = matches!(r, Out::Err(_));
        v.push(r);
        if stop {
            return v;
        }
    }
    v.push(out(p.parse_rest().map(|b| V::B(b.to_vec()))));
    v
}

fn gen_what(g: &mut G, c: &mut Cfg, big: bool) -> (What, Vec<u8>) {
    match g.weighted(&[60, 15, 8, 17]) {
        0 => {
            let n = g.range(1, 3);
            let mut d = vec![];
            let mut es = vec![];
            for _ in 0..n {
                es.push(g.weighted(&[4, 3, 2, 1, 1]));
                match g.weighted(&[65, 20, 15]) {
                    0 => {
                        let ty = genrec::any_type(g);
                        let keep = c.read_format;
                        let size = if g.pct(85) { Size::Small } else { Size::Any };
                        let r = genrec::rec(g, ty, c, size);
                        d.extend_from_slice(&r.encode(c, big).bytes);
                        c.read_format = keep;
                    }
                    1 => {
                        let b = super::total::wild_bytes(g, c, big);
                        d.extend_from_slice(&b);
                    }
                    _ => {
                        let ty = genrec::any_type(g);
                        let keep = c.read_format;
                        let r = genrec::rec(g, ty, c, Size::Small);
                        let e = r.encode(c, big);
                        d.extend_from_slice(&genrec::corrupt(g, &e, big).0);
                        c.read_format = keep;
                    }
                }
            }
            let n = g.len(20);
            d.extend_from_slice(&g.bytes(n));
            (What::Records(es), d)
        }
        1 => {
            let ty = genrec::any_type(g);
            let size = if g.pct(85) { Size::Small } else { Size::Any };
            let r = genrec::rec(g, ty, c, size);
            let mut en = Enc::new(big);
            r.encode_body(&mut en, c);
            let mut d = en.out;
            match g.weighted(&[5, 2, 3]) {
                0 => {}
                1 => {
                    let n = g.below(d.len() + 1);
                    d.truncate(n)
                }
                _ => {
                    let n = g.len(30);
                    d.extend_from_slice(&g.bytes(n))
                }
            }
            (What::Body(ty), d)
        }
        2 => (What::Attr, super::attr::wild(g, big)),
        _ => {
            let d = primitives::gen_data(g);
            let n = g.range(1, 12);
            let mut left = d.len();
            let ops = (0..n)
                .map(|_| loop {
                    let op = primitives::gen_op(g, left);
                    // whether a view is given depends on the delivery by design
                    if primitives::is_direct(&op) {
                        continue;
                    }
                    left -= primitives::need(&op).unwrap_or(left).min(left);
                    break op;
                })
                .collect();
            (What::Ops(ops), d)
        }
    }
}

/// Let the reference decoder see every typed array of the input.
fn scan(w: &What, b: &[u8], c: &Cfg, big: bool) {
    match w {
        What::Records(_) => decode_all(b, c, big),
        What::Body(ty) => drop(decode_body(*ty, 0, b, c, big)),
        What::Attr => (),
        What::Ops(ops) => {
            let mut pos = 0;
            for op in ops {
                let n = primitives::need(op).unwrap_or(b.len() - pos);
                if n > b.len() - pos {
                    break;
                }
                if primitives::unaligned(op, b[pos..].as_ptr()) {
                    known::array_at(1 as *const u8);
                }
                pos += n;
            }
        }
    }
}

pub fn case05(cx: &mut Cx) -> R {
    let mut c = if cx.g.pct(85) { genrec::cfg(&mut cx.g) } else { super::total::wild_cfg(&mut cx.g) };
    let mut e = AnyEndian::pick(&mut cx.g);
    let (what, data) = gen_what(&mut cx.g, &mut c, e.big());
    let off = if cx.g.pct(60) { 0 } else { cx.g.below(8) };
    let plans: Vec<Plan> = (0..cx.g.range(2, 3)).map(|_| Plan::gen_split(&mut cx.g, data.len())).collect();
    cx.cfg_fp(&c);
    cx.fp(&data);
    let kind = match &what {
        What::Records(_) => "records",
        What::Body(_) => "typed body",
        What::Attr => "attribute struct",
        What::Ops(_) => "primitives",
    };
    cx.label(kind);
    cx.say(|| format!("{kind} as {e:?} at +{off}, slice vs {plans:?}; {}; {} bytes {}", describe_cfg(&c), data.len(), hex(&data)));
    let buf = match known::place(e, &data, off, |b| scan(&what, b, &c, e.big())) {
        Some(b) => b,
        None if matches!(what, What::Ops(_)) => {
            e = if HOST_BIG { AnyEndian::Little } else { AnyEndian::Big };
            Aligned::new(&data, off)
        }
        None => return masked(cx),
    };
    let base = {
        let mut p = Parser::new(buf.get(), obs::config(&c, e));
        steps(&what, &mut p)
    };
    for plan in &plans {
        let got = with_source!(plan, buf.get(), None, b => {
            let mut p = Parser::new(b, obs::config(&c, e));
            steps(&what, &mut p)
        });
        for (i, (a, b)) in base.iter().zip(&got).enumerate() {
            let s = if i + 1 == base.len() && !matches!(a, Out::Err(_)) { "remaining bytes".to_string() } else { format!("step {i}") };
            same_out(&format!("{kind}, {s}, slice vs {plan:?}"), a, b)?;
        }
        ensure!(base.len() == got.len(), "{kind}: {} vs {} steps", base.len(), got.len());
        cx.label(plan.label());
        if plan.pieces(data.len()) >= 2 {
            cx.nontrivial = true;
        }
    }
    cx.label(if matches!(base.last(), Some(Out::Ok(_))) { "all steps succeeded" } else { "ended in an error" });
    Ok(())
}

// --------------------------------------------------------------------- C18

pub fn gen_fault(g: &mut G, len: usize) -> Fault {
    let kind = match g.weighted(&[4, 4, 2, 2, 2]) {
        0 => FaultKind::Other,
        1 => FaultKind::Io(g.pick(IO_KINDS)),
        2 => FaultKind::IoEof,
        3 => FaultKind::Eof,
        _ => FaultKind::Os,
    };
    let at = match g.weighted(&[8, 1, 1, 2]) {
        0 => g.below(len + 1),
        1 => 0,
        2 => len,
        _ => len.saturating_sub(g.below(9)),
    };
    let once = g.pct(40) && matches!(kind, FaultKind::Other | FaultKind::Io(_) | FaultKind::Os);
    let id = match kind {
        // errno values but EINTR
        FaultKind::Os => match g.range(1, 133) as u64 {
            4 => 5,
            n => n,
        },
        _ => g.upto(u64::MAX),
    };
    Fault { at, kind, id, once }
}

/// Is this error exactly the injected failure?
fn is_fault(f: &Fault, e: &ParseError) -> R {
    match f.kind {
        FaultKind::Other | FaultKind::Io(_) | FaultKind::Os => {
            ensure!(e.kind() == ErrorKind::External, "the source failed with {:?} at byte {} but the parse reported {}", f.kind, f.at, err_text(e));
            ensure!(marker_of(e) == Some(f.id), "the source's error is not reachable from the reported one: {}", err_text(e));
            if let FaultKind::Io(k) = f.kind {
                ensure!(has_cause(e, |i: &std::io::Error| i.kind() == k), "the source's io error of kind {k:?} is not reachable: {}", err_text(e));
            }
        }
        FaultKind::IoEof | FaultKind::Eof => {
            ensure!(e.kind() == ErrorKind::Eof, "the source reported an unexpected end at byte {} but the parse reported {}", f.at, err_text(e));
        }
    }
    Ok(())
}

/// A step that needs data up to `end`; `want` is its value.
fn step(what: &str, f: &Fault, end: usize, want: &V, got: ParseResult<V>) -> Result<bool, String> {
    match got {
        Ok(v) => {
            ensure!(end <= f.at, "{what} needs bytes up to {end} but succeeded although the source failed at {}", f.at);
            same(what, want, &v)?;
            Ok(true)
        }
        Err(e) => {
            ensure!(end > f.at, "{what} needs bytes up to {end} only, but failed because of a fault at {}: {}", f.at, err_text(&e));
            is_fault(f, &e).map_err(|m| format!("{what}: {m}"))?;
            Ok(false)
        }
    }
}

fn plan18(g: &mut G, len: usize) -> Plan {
    Plan::gen_split(g, len)
}

/// The rest of the input after `pos`.
fn rest18(what: &str, f: &Fault, want: &[u8], got: ParseResult<V>) -> R {
    match f.kind {
        FaultKind::Other | FaultKind::Io(_) | FaultKind::Os => match got {
            Ok(_) => Err(format!("{what}: the rest of the input was returned although the source failed at {}", f.at)),
            Err(e) => is_fault(f, &e).map_err(|m| format!("{what}: {m}")),
        },
        _ => match got {
            Ok(v) => same(what, &V::B(want.to_vec()), &v),
            Err(e) => Err(format!("{what}: end of input is not an error for the rest of the input: {}", err_text(&e))),
        },
    }
}

pub fn case18(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    let e = AnyEndian::pick(&mut cx.g);
    let mode = cx.g.weighted(&[40, 15, 15, 10, 20]);
    match mode {
        // records
        0 => {
            let mut data = vec![];
            let mut want = vec![];
            for _ in 0..cx.g.range(1, 3) {
                let ty = genrec::any_type(&mut cx.g);
                let ty = if ty == rt::READ && c.fmt(rf::GROUP) { rt::LOST } else { ty };
                let mut r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
                if cx.g.pct(20) {
                    genrec::add_surplus(&mut cx.g, &mut r, &c, 24);
                }
                data.extend_from_slice(&r.encode(&c, e.big()).bytes);
                let how = cx.g.below(3);
                let t = match how {
                    0 => r.tree(&c),
                    1 => pair(r.tree(&c), r.meta_tree(&c)),
                    _ => r.meta_tree(&c),
                };
                want.push((how, data.len(), t));
            }
            let n = cx.g.below(9);
            data.extend_from_slice(&cx.g.bytes(n));
            let f = gen_fault(&mut cx.g, data.len());
            let plan = plan18(&mut cx.g, data.len());
            note(cx, "records", &f, &plan, &c, &data, e);
            if known::hit(e, || decode_all(&data, &c, e.big())) {
                return masked(cx);
            }
            with_source!(&plan, &data[..], Some(f), b => {
                let mut p = Parser::new(b, obs::config(&c, e));
                for (i, (how, end, t)) in want.iter().enumerate() {
                    let r = match how {
                        0 => p.parse::<Record>().map(|r| obs::record(&r)),
                        1 => full(&mut p),
                        _ => p.parse_metadata().map(|(_, m)| obs::meta(&m)),
                    };
                    if !step(&format!("record {i}"), &f, *end, t, r)? {
                        cx.label("fault reported");
                        return Ok(());
                    }
                }
                let last = want.last().unwrap().1;
                rest18("rest after the records", &f, &data[last..f.at.max(last)], p.parse_rest().map(|b| V::B(b.to_vec())))?;
            });
        }
        // one record, possibly corrupted, compared with its fault-free outcome
        1 => {
            let ty = genrec::any_type(&mut cx.g);
            let r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
            let enc = r.encode(&c, e.big());
            let data = genrec::corrupt(&mut cx.g, &enc, e.big()).0;
            let f = gen_fault(&mut cx.g, data.len());
            let plan = plan18(&mut cx.g, data.len());
            note(cx, "corrupted record", &f, &plan, &c, &data, e);
            if known::hit(e, || drop(decode_record(&data, &c, e.big()))) {
                return masked(cx);
            }
            let clean = out(with_source!(&plan, &data[..], None, b => {
                full(&mut Parser::new(b, obs::config(&c, e)))
            }));
            let got = with_source!(&plan, &data[..], Some(f), b => {
                full(&mut Parser::new(b, obs::config(&c, e)))
            });
            let size = if data.len() >= 8 { (Rd { b: &data[6..8], big: e.big() }).u16().unwrap() as usize } else { usize::MAX };
            if f.at < 8 || (size >= 8 && f.at < size) {
                match got {
                    Ok(_) => bail!("a record of {size} bytes was returned although the source failed at {}", f.at),
                    // malformed contents may be noticed before the failing byte is asked for
                    Err(x) if matches!(&clean, Out::Err(k) if *k == x.kind() && *k != ErrorKind::Eof) => {}
                    Err(x) => is_fault(&f, &x)?,
                }
                cx.label("fault reported");
            } else {
                same_out(&format!("record of {size} bytes with and without a fault at {}", f.at), &clean, &out(got))?;
            }
        }
        // bare bodies
        2 => {
            let ty = genrec::any_type(&mut cx.g);
            let mut r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
            // a bare body has no header: no misc bits
            r.misc = 0;
            r.surplus.clear();
            if ty == rt::MMAP2 {
                r.body = genrec::body(&mut cx.g, ty, &c, 0, Size::Small);
            }
            let mut en = Enc::new(e.big());
            r.encode_body(&mut en, &c);
            let mut data = en.out;
            let end = data.len();
            if !r.takes_rest() {
                let n = cx.g.below(17);
                data.extend_from_slice(&cx.g.bytes(n));
            }
            let f = gen_fault(&mut cx.g, data.len());
            let plan = plan18(&mut cx.g, data.len());
            note(cx, genrec::ty_name(ty), &f, &plan, &c, &data, e);
            if known::hit(e, || drop(decode_body(ty, 0, &data, &c, e.big()))) {
                return masked(cx);
            }
            let got = with_source!(&plan, &data[..], Some(f), b => {
                typed(ty, &mut Parser::new(b, obs::config(&c, e)))
            });
            if !r.takes_rest() {
                step(&format!("{} body", genrec::ty_name(ty)), &f, end, &r.tree(&c), got)?;
            } else if matches!(f.kind, FaultKind::Other | FaultKind::Io(_) | FaultKind::Os) {
                match got {
                    Ok(_) => bail!("a body that extends to the end of input was returned although the source failed at {}", f.at),
                    Err(x) => is_fault(&f, &x)?,
                }
            } else {
                // the unexpected end is simply the end
                match (decode_body(ty, 0, &data[..f.at.min(data.len())], &c, e.big()), got) {
                    (Ok(b), Ok(v)) => same("body up to the end of input", &Rec { misc: 0, body: b, sid: SidM::default(), surplus: vec![] }.tree(&c), &v)?,
                    (Err(_), Err(x)) => is_fault(&f, &x)?,
                    (Ok(_), Err(x)) => bail!("body up to the end of input at {}: {}", f.at, err_text(&x)),
                    (Err(_), Ok(_)) => bail!("a truncated body was returned as data"),
                }
            }
        }
        // attribute struct
        3 => {
            let n = cx.g.pick(super::attr::SIZES) as usize;
            let mut data = cx.g.bytes(n);
            patch_int(&mut data, 4, 4, n as u64, e.big());
            let k = cx.g.below(17);
            data.extend_from_slice(&cx.g.bytes(k));
            let f = gen_fault(&mut cx.g, data.len());
            let plan = plan18(&mut cx.g, data.len());
            note(cx, "attribute struct", &f, &plan, &c, &data, e);
            let clean = Parser::new(&data[..], obs::config(&c, e)).parse::<perf_event_attr>().map(|a| super::attr::observe(&a));
            let clean = match clean {
                Ok(v) => v,
                Err(x) => bail!("valid attribute struct does not parse: {}", err_text(&x)),
            };
            let got = with_source!(&plan, &data[..], Some(f), b => {
                Parser::new(b, obs::config(&c, e)).parse::<perf_event_attr>().map(|a| super::attr::observe(&a))
            });
            step("attribute struct", &f, n, &clean, got)?;
        }
        // primitives
        _ => {
            let data = primitives::gen_data(&mut cx.g);
            let f = gen_fault(&mut cx.g, data.len());
            let plan = plan18(&mut cx.g, data.len());
            note(cx, "primitives", &f, &plan, &c, &data, e);
            let n = cx.g.range(1, 12);
            let mut pos = 0;
            let g = &mut cx.g;
            let mut ended = false;
            with_source!(&plan, &data[..], Some(f), b => {
                let mut p = Parser::new(b, obs::config(&c, e));
                for i in 0..n {
                    let op = primitives::gen_op(g, data.len() - pos);
                    let end = primitives::need(&op).map(|n| pos.saturating_add(n));
                    if e.host() && known::present() && primitives::unaligned(&op, data[pos..].as_ptr()) {
                        continue;
                    }
                    if primitives::is_direct(&op) || end.is_some_and(|x| x > data.len() + 4096) {
                        continue;
                    }
                    let what = format!("step {i}, {op:?} at {pos}");
                    let r = primitives::apply(&op, &mut p);
                    match end {
                        Some(end) => {
                            let want = data.get(pos..end).map_or(V::N, |b| primitives::expect(&op, b, e.big()));
                            if !step(&what, &f, end, &want, r)? {
                                ended = true;
                                break;
                            }
                            pos = end;
                        }
                        None => {
                            let want = primitives::expect(&op, &data[pos..f.at.max(pos)], e.big());
                            let V::B(w) = want else { unreachable!() };
                            rest18(&what, &f, &w, r)?;
                            ended = true;
                            break;
                        }
                    }
                }
            });
            if ended {
                cx.label("fault reported");
            }
        }
    }
    Ok(())
}

fn note(cx: &mut Cx, what: &'static str, f: &Fault, plan: &Plan, c: &Cfg, data: &[u8], e: AnyEndian) {
    cx.label(what);
    cx.label(match f.kind {
        FaultKind::Other => "fault: other",
        FaultKind::Io(_) => "fault: io",
        FaultKind::Os => "fault: os error",
        FaultKind::IoEof => "fault: io eof",
        FaultKind::Eof => "fault: eof",
    });
    if f.once {
        cx.label("fault: only once");
    }
    cx.cfg_fp(c);
    cx.fp(data);
    cx.fpn(f.at as u64);
    cx.nontrivial = f.at <= data.len();
    cx.say(|| format!("{what} as {e:?}, {f:?} via {plan:?}; {}; {} bytes {}", describe_cfg(c), data.len(), hex(data)));
}

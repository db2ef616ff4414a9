//! C01, C02 (decoding against the model), C06 (byte order and alignment),
//! C07 (framing) and C08 (sample-id trailer).

use super::Prop;
use crate::gen::G;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::{ErrorKind, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;

pub const C01: Prop = Prop {
    id: "C01",
    case: |cx| decode(cx, false),
    quick: 15_000_000,
    thorough: 220_000_000,
    rule: "record type, configuration, field values, padding, surplus, byte order, buffer alignment and delivery drawn at \
           random; modes: framed record, bare body followed by other bytes, mutated record that the reference decoder still \
           accepts. Non-trivial: the library's value was compared with the model's for a record with at least one payload byte \
           (or a SWITCH/unknown record).",
};
pub const C02: Prop = Prop {
    id: "C02",
    case: |cx| decode(cx, true),
    quick: 4_500_000,
    thorough: 70_000_000,
    rule: "sample_type, read_format, register masks, hw index and every enabled field drawn at random, encoded as the kernel \
           does; modes: framed record, bare body followed by other bytes, mutated record that the reference decoder still \
           accepts. Non-trivial: at least two fields enabled and the library's sample compared with the model's.",
};

fn parse_record(plan: &Plan, data: &[u8], c: &Cfg, e: AnyEndian) -> ParseResult<V> {
    with_source!(plan, data, None, b => {
        let mut p = Parser::new(b, obs::config(c, e));
        p.parse::<Record>().map(|r| obs::record(&r))
    })
}

fn pick_delivery(g: &mut G, len: usize, pct: u64) -> Plan {
    if g.pct(pct) {
        Plan::gen_split(g, len)
    } else {
        Plan::Slice
    }
}

/// Does the decoded body depend on misc bits that only a header can supply?
fn needs_header(r: &Rec) -> bool {
    match r.ty() {
        rt::MMAP2 => r.misc & MISC_BUILD_ID != 0,
        rt::SWITCH_CPU_WIDE => r.misc & MISC_SWITCH_OUT != 0,
        _ => false,
    }
}

fn decode(cx: &mut Cx, sample: bool) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    let ty = if sample { rt::SAMPLE } else { genrec::non_sample_type(&mut cx.g) };
    let mut r = genrec::rec(&mut cx.g, ty, &mut c, Size::Any);
    if cx.g.pct(25) {
        genrec::add_surplus(&mut cx.g, &mut r, &c, 64);
    }
    let e = AnyEndian::pick(&mut cx.g);
    let enc = r.encode(&c, e.big());
    let off = if cx.g.pct(60) { 0 } else { cx.g.below(8) };
    cx.cfg_fp(&c);
    let mode = cx.g.weighted(&[60, 20, 20]);
    match mode {
        0 => {
            cx.fp(&enc.bytes);
            let Some(buf) = known::place(e, &enc.bytes, off, |b| drop(decode_record(b, &c, e.big()))) else {
                return masked(cx);
            };
            let plan = pick_delivery(&mut cx.g, enc.bytes.len(), 15);
            cx.say(|| format!("{} as {e:?} at +{off} via {plan:?}; {}; misc={:#x}; bytes {}", genrec::ty_name(ty), describe_cfg(&c), r.misc, hex(&enc.bytes)));
            let got = match parse_record(&plan, buf.get(), &c, e) {
                Ok(v) => v,
                Err(x) => bail!("valid {} record does not parse: {}", genrec::ty_name(ty), err_text(&x)),
            };
            same("record", &r.tree(&c), &got)?;
            cx.label("framed");
        }
        1 => {
            if needs_header(&r) {
                cx.label("skipped: needs header");
                return Ok(());
            }
            r.surplus.clear();
            let mut en = Enc::new(e.big());
            r.encode_body(&mut en, &c);
            let tail = if r.takes_rest() {
                vec![]
            } else {
                let n = cx.g.len(40);
                cx.g.bytes(n)
            };
            // a body may lie anywhere in what its parser reads
            let skip = if cx.g.pct(30) { cx.g.below(24) } else { 0 };
            let mut data = cx.g.bytes(skip);
            data.extend_from_slice(&en.out);
            data.extend_from_slice(&tail);
            cx.fp(&data);
            let Some(buf) = known::place(e, &data, off, |b| drop(decode_body(ty, 0, &b[skip..], &c, e.big()))) else {
                return masked(cx);
            };
            let plan = pick_delivery(&mut cx.g, data.len(), 15);
            cx.say(|| format!("{} body as {e:?} at +{off} after {skip} bytes via {plan:?}; {}; bytes {}", genrec::ty_name(ty), describe_cfg(&c), hex(&data)));
            let got = with_source!(&plan, buf.get(), None, b => {
                let mut p = Parser::new(b, obs::config(&c, e));
                for x in &data[..skip] {
                    ensure!(p.parse_u8().ok() == Some(*x), "a byte before the body does not parse");
                }
                with_rest(&mut p, |p| typed(ty, p))
            });
            let got = match got {
                Ok(v) => v,
                Err(x) => bail!("valid {} body does not parse: {}", genrec::ty_name(ty), err_text(&x)),
            };
            same("body", &V::S("WithRest", vec![("value", r.tree(&c)), ("rest", V::B(tail))]), &got)?;
            cx.label("body");
        }
        _ => {
            let (bytes, how) = genrec::corrupt(&mut cx.g, &enc, e.big());
            cx.fp(&bytes);
            let d = match decode_record(&bytes, &c, e.big()) {
                Ok(d) => d,
                Err(_) => {
                    cx.label("mutated: rejected by the reference");
                    return Ok(());
                }
            };
            // the mutation may have changed the type; stay within this property
            if (d.rec.ty() == rt::SAMPLE) != sample {
                return Ok(());
            }
            let Some(buf) = known::place(e, &bytes, off, |b| drop(decode_record(b, &c, e.big()))) else {
                return masked(cx);
            };
            let plan = pick_delivery(&mut cx.g, bytes.len(), 15);
            cx.say(|| format!("{how} {} as {e:?}; {}; bytes {}", genrec::ty_name(ty), describe_cfg(&c), hex(&bytes)));
            let got = match parse_record(&plan, buf.get(), &c, e) {
                Ok(v) => v,
                Err(x) => bail!("{how} record that is still well-formed does not parse: {}", err_text(&x)),
            };
            same("mutated record", &d.rec.tree(&c), &got)?;
            cx.label("mutated: compared");
        }
    }
    cx.nontrivial = if sample {
        c.sample_type.count_ones() >= 2
    } else {
        !enc.body.is_empty() || ty == rt::SWITCH || matches!(r.body, Body::Unknown { .. })
    };
    cx.label(genrec::ty_name(ty));
    Ok(())
}

// ---------------------------------------------------------------------- C06

pub const C06: Prop = Prop {
    id: "C06",
    case: endian_align,
    quick: 3_600_000,
    thorough: 70_000_000,
    rule: "one logical record (or attribute struct) encoded in both byte orders and parsed under all five byte orders and a user's own two (which \
           keep the trait's default is_native) at random buffer alignments; all outcomes must be equal; also the published conversions on random words. Non-trivial: the record has at least 8 payload bytes and at \
           least one variant parsed at an odd alignment.",
};

fn endian_align(cx: &mut Cx) -> R {
    match cx.g.weighted(&[86, 8, 6]) {
        0 => endian_record(cx),
        1 => endian_attr(cx),
        _ => endian_scalar(cx),
    }
}

/// The conversions themselves, which callers may use on their own.
fn endian_scalar(cx: &mut Cx) -> R {
    use perf_event_data::endian::*;
    fn go<E: Endian>(name: &str, e: E, big: bool, x: u64) -> R {
        let b = x.to_le_bytes();
        let rev = |n: usize| {
            let mut v = b[..n].to_vec();
            if big {
                v.reverse();
            }
            v
        };
        let got = (e.convert_u16(rev(2).try_into().unwrap()), e.convert_u32(rev(4).try_into().unwrap()), e.convert_u64(rev(8).try_into().unwrap()));
        let want = (x as u16, x as u32, x);
        ensure!(got == want, "{name} converts {got:x?}, written {want:x?}");
        ensure!(e.is_native() == (big == HOST_BIG), "{name}.is_native() is {}", e.is_native());
        Ok(())
    }
    let x = cx.g.u64();
    cx.fpn(x);
    cx.say(|| format!("conversions of {x:#x}"));
    go("Little", Little, false, x)?;
    go("Big", Big, true, x)?;
    go("Native", Native, HOST_BIG, x)?;
    go("Dynamic::Little", Dynamic::Little, false, x)?;
    go("Dynamic::Big", Dynamic::Big, true, x)?;
    let own = crate::source::Own(!HOST_BIG);
    ensure!(!own.is_native(), "a byte order that is not the host's is native by default");
    cx.nontrivial = true;
    cx.label("conversions");
    Ok(())
}

fn endian_attr(cx: &mut Cx) -> R {
    let enc = super::attr::both(&mut cx.g);
    cx.fp(&enc[0]);
    cx.say(|| format!("attribute struct, LE bytes {}", hex(&enc[0])));
    let plan = if cx.g.pct(30) { Plan::gen_split(&mut cx.g, enc[0].len()) } else { Plan::Slice };
    let mut base = None;
    for e in AnyEndian::ALL {
        let off = cx.g.below(8);
        let buf = Aligned::new(&enc[e.big() as usize], off);
        let got = with_source!(&plan, buf.get(), None, b => {
            let mut p = Parser::new(b, obs::config(&Cfg::default(), e));
            out(with_rest(&mut p, |p| p.parse::<perf_event_attr>().map(|a| super::attr::observe(&a))))
        });
        match &base {
            None => base = Some(got),
            Some(b) => same_out(&format!("attribute struct as Little against {e:?} at +{off}"), b, &got)?,
        }
    }
    cx.nontrivial = true;
    cx.label("attribute struct");
    Ok(())
}

fn endian_record(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    let ty = if cx.g.pct(45) { rt::SAMPLE } else { genrec::any_type(&mut cx.g) };
    let size = if cx.g.pct(80) { Size::Small } else { Size::Any };
    let r = genrec::rec(&mut cx.g, ty, &mut c, size);
    let enc = [r.encode(&c, false).bytes, r.encode(&c, true).bytes];
    cx.cfg_fp(&c);
    cx.fp(&enc[0]);
    cx.say(|| format!("{}; {}; LE bytes {}", genrec::ty_name(ty), describe_cfg(&c), hex(&enc[0])));
    let split = cx.g.pct(15);
    let mut base: Option<(Out, AnyEndian, usize)> = None;
    let mut odd = false;
    let variants = AnyEndian::ALL;
    let offs: Vec<usize> = variants.iter().map(|_| cx.g.below(8)).collect();
    let plan = if split { Plan::gen_split(&mut cx.g, enc[0].len()) } else { Plan::Slice };
    let mut runs: Vec<(AnyEndian, usize, &Plan)> = vec![(AnyEndian::Little, 0, &Plan::Slice), (AnyEndian::Native, 0, &Plan::Slice)];
    for (i, e) in variants.iter().enumerate() {
        runs.push((*e, offs[i], &plan));
        odd |= offs[i] != 0;
    }
    for (e, off, plan) in runs {
        let buf = Aligned::new(&enc[e.big() as usize], off);
        let got = with_source!(plan, buf.get(), None, b => {
            let mut p = Parser::new(b, obs::config(&c, e));
            out(with_rest(&mut p, full))
        });
        if known::hit(e, || drop(decode_record(buf.get(), &c, e.big()))) {
            // the known finding: pin what it does
            let Some((base, ..)) = &base else { return masked(cx) };
            cx.label("unaligned array in host order");
            if let Plan::Slice = plan {
                let all = buf.get();
                match (known::twice(|| decode_record(all, &c, e.big())), &got) {
                    (Err(_), Out::Err(_)) => (),
                    (Ok(d), Out::Ok(v)) => {
                        let rec = pair(d.rec.tree(&c), d.rec.meta_tree(&c));
                        let want = V::S("WithRest", vec![("value", rec), ("rest", V::B(all[d.consumed..].to_vec()))]);
                        same(&format!("{e:?} at +{off}: arrays that are not aligned"), &want, v)?
                    }
                    (_, o) => same_out(&format!("{e:?} at +{off}, where arrays are not aligned"), base, o)?,
                }
            }
            continue;
        }
        match &base {
            None => base = Some((got, e, off)),
            Some((b, e0, off0)) => same_out(&format!("{e0:?} at +{off0} against {e:?} at +{off} via {}", plan.label()), b, &got)?,
        }
    }
    cx.nontrivial = odd && enc[0].len() >= 16;
    cx.label(genrec::ty_name(ty));
    Ok(())
}

// ---------------------------------------------------------------------- C07

pub const C07: Prop = Prop {
    id: "C07",
    case: framing,
    quick: 5_400_000,
    thorough: 90_000_000,
    rule: "buffers of 1-12 back-to-back records (with surplus bytes inside and foreign bytes after), each parsed through a \
           randomly chosen entry point or visitor; the bytes left must be exactly those after the last declared size. Also: \
           frames malformed inside among them may fail but must not disturb the others; the same (possibly cut or mutated) frame followed by two different tails must give the same outcome; declared sizes \
           below 8 must be rejected as invalid. Non-trivial: two or more records, or a tail of at least 8 bytes.",
};

/// Visitor that ignores everything.
struct Nothing;
impl<'a> Visitor<'a> for Nothing {
    type Output = u32;
    fn visit_unimplemented(self, m: RecordMetadata) -> u32 {
        m.ty()
    }
}

fn framing(cx: &mut Cx) -> R {
    match cx.g.weighted(&[60, 30, 10]) {
        0 => frames(cx),
        1 => tails(cx),
        _ => small_size(cx),
    }
}

/// A complete frame whose body is (probably) malformed.
fn bad_frame(g: &mut G, r: &Rec, c: &Cfg, big: bool) -> Vec<u8> {
    let enc = r.encode(c, big);
    let mut f = enc.bytes.clone();
    match g.weighted(&[4, 3, 3]) {
        // some inner length is wrong
        0 => {
            let (pos, w, v) = enc.lens[g.below(enc.lens.len())];
            if pos >= 8 {
                let nv = genrec::wild_len(g, w, v);
                patch_int(&mut f, pos, w, nv, big);
            }
        }
        // the record ends early
        1 => {
            let n = g.range(8, f.len());
            f.truncate(n);
            patch_int(&mut f, 6, 2, n as u64, big);
        }
        // noise
        _ => {
            let n = f.len() - 8;
            let b = g.bytes(n);
            f[8..].copy_from_slice(&b);
        }
    }
    f
}

fn frames(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    let mut e = AnyEndian::pick(&mut cx.g);
    let n = cx.g.range(1, 12);
    // READ needs a non-group format
    let mut recs = vec![];
    if cx.g.bool() {
        c.read_format &= !rf::GROUP;
    }
    for _ in 0..n {
        let mut ty = genrec::any_type(&mut cx.g);
        if ty == rt::READ && c.fmt(rf::GROUP) {
            ty = rt::LOST;
        }
        let mut r = genrec::rec(&mut cx.g, ty, &mut c, if n <= 2 { Size::Any } else { Size::Small });
        if cx.g.pct(40) {
            genrec::add_surplus(&mut cx.g, &mut r, &c, 40);
        }
        recs.push((r, cx.g.below(6)));
    }
    let join = |big: bool| recs.iter().flat_map(|(r, _)| r.encode(&c, big).bytes).collect::<Vec<u8>>();
    let mut data = join(e.big());
    if known::hit(e, || decode_all(&data, &c, e.big())) {
        e = if HOST_BIG { AnyEndian::Little } else { AnyEndian::Big };
        data = join(e.big());
    }
    if cx.g.pct(25) {
        // some frames are malformed inside: they may fail, but only they
        if e.host() {
            if cx.g.bool() {
                e = if HOST_BIG { AnyEndian::Little } else { AnyEndian::Big };
            } else {
                // no values, which the unaligned-array defect could change
                recs.iter_mut().for_each(|(_, how)| *how = 3);
            }
        }
        data.clear();
        for (r, how) in recs.iter_mut() {
            if cx.g.pct(40) {
                data.extend_from_slice(&bad_frame(&mut cx.g, r, &c, e.big()));
                *how = 6 + cx.g.below(3);
            } else {
                data.extend_from_slice(&r.encode(&c, e.big()).bytes);
            }
        }
        cx.label("malformed frames between");
    }
    let nt = cx.g.len(60);
    let tail = cx.g.bytes(nt);
    data.extend_from_slice(&tail);
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.say(|| {
        let t: Vec<_> = recs.iter().map(|(r, how)| format!("{}/{how}", genrec::ty_name(r.ty()))).collect();
        format!("{} records [{}] + {} foreign bytes as {e:?}; {}", recs.len(), t.join(" "), tail.len(), describe_cfg(&c))
    });
    let plan = pick_delivery(&mut cx.g, data.len(), 35);
    let rest = with_source!(&plan, &data[..], None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        for (i, (r, how)) in recs.iter().enumerate() {
            let fail = |x: perf_event_data::parse::ParseError| format!("record {i} ({}) through entry {how}: {}", genrec::ty_name(r.ty()), err_text(&x));
            match how {
                0 => same(&format!("record {i}"), &r.tree(&c), &obs::record(&p.parse::<Record>().map_err(fail)?))?,
                1 => same(&format!("record {i}"), &pair(r.tree(&c), r.meta_tree(&c)), &full(&mut p).map_err(fail)?)?,
                2 => {
                    let ty = p.parse_record(Nothing).map_err(fail)?;
                    ensure!(ty == r.ty(), "record {i}: visitor saw type {ty}, written {}", r.ty());
                }
                3 => {
                    // metadata only, the body is left unread
                    let (_, m) = p.parse_metadata().map_err(fail)?;
                    ensure!(m.ty() == r.ty() && m.misc() == r.misc, "record {i}: metadata type {} misc {:#x}, written {} {:#x}", m.ty(), m.misc(), r.ty(), r.misc);
                }
                4 => {
                    let h = p.parse().map_err(fail)?;
                    same(&format!("record {i}"), &r.tree(&c), &obs::record(&Record::parse_with_header(&mut p, h).map_err(fail)?))?;
                }
                6 => drop(p.parse::<Record>()),
                7 => drop(p.parse_record(Nothing)),
                8 => drop(p.parse_metadata().map(|_| ())),
                _ => {
                    // metadata, then part of the body
                    let (mut q, m) = p.parse_metadata().map_err(fail)?;
                    let _ = q.parse_u8();
                    ensure!(m.ty() == r.ty(), "record {i}: metadata type {}, written {}", m.ty(), r.ty());
                }
            }
        }
        rest_of(&mut p).map_err(|x| err_text(&x))?
    });
    ensure!(rest == tail, "after {} records {} bytes are left instead of {}: {} vs {}", recs.len(), rest.len(), tail.len(), hex(&rest), hex(&tail));
    cx.nontrivial = recs.len() >= 2 || tail.len() >= 8;
    cx.label("sequence");
    Ok(())
}

fn tails(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    let e = AnyEndian::pick(&mut cx.g);
    let ty = genrec::any_type(&mut cx.g);
    let mut r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
    if cx.g.bool() {
        genrec::add_surplus(&mut cx.g, &mut r, &c, 24);
    }
    let enc = r.encode(&c, e.big());
    let mut frame = enc.bytes.clone();
    match cx.g.weighted(&[3, 5, 3]) {
        0 => {}
        // cut somewhere, the header agreeing
        1 => {
            let n = cx.g.range(8, frame.len());
            frame.truncate(n);
            patch_int(&mut frame, 6, 2, n as u64, e.big());
        }
        // an inner length that reaches past the end
        _ => {
            let i = cx.g.below(enc.lens.len());
            let (pos, w, v) = enc.lens[i];
            if pos >= 8 {
                let nv = v.wrapping_add(1 + cx.g.upto(40));
                patch_int(&mut frame, pos, w, nv, e.big());
            }
        }
    }
    let n = cx.g.range(8, 200);
    let tail = cx.g.bytes(n);
    cx.cfg_fp(&c);
    cx.fp(&frame);
    cx.fp(&tail);
    cx.say(|| format!("frame {} as {e:?} with and without tail {}; {}", hex(&frame), hex(&tail), describe_cfg(&c)));
    let plan = pick_delivery(&mut cx.g, frame.len(), 30);
    let mut both = frame.clone();
    both.extend_from_slice(&tail);
    let run = |data: &[u8]| {
        with_source!(&plan, data, None, b => {
            let mut p = Parser::new(b, obs::config(&c, e));
            match full(&mut p) {
                Ok(v) => (Out::Ok(v), rest_of(&mut p).ok()),
                Err(x) => (Out::Err(x.kind()), None),
            }
        })
    };
    let (a, ra) = run(&frame);
    let (b, rb) = run(&both);
    same_out("frame alone against frame followed by foreign bytes", &a, &b)?;
    if let Out::Ok(_) = a {
        ensure!(ra.as_deref() == Some(&[]), "bytes of the frame are left over: {ra:?}");
        ensure!(rb.as_ref() == Some(&tail), "the bytes after the frame are not intact");
        cx.label("tails: parsed");
    } else {
        cx.label("tails: rejected");
    }
    cx.nontrivial = true;
    Ok(())
}

fn small_size(cx: &mut Cx) -> R {
    let c = genrec::cfg(&mut cx.g);
    let e = AnyEndian::pick(&mut cx.g);
    let ty = genrec::any_type(&mut cx.g);
    let size = cx.g.below(8);
    let mut en = Enc::new(e.big());
    en.u32(ty);
    en.u16(genrec::misc(&mut cx.g));
    en.u16(size as u16);
    let n = cx.g.len(100);
    let b = cx.g.bytes(n);
    en.bytes(&b);
    let data = en.out;
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.say(|| format!("declared size {size}: {}", hex(&data)));
    let plan = pick_delivery(&mut cx.g, data.len(), 30);
    for how in 0..3 {
        let k = with_source!(&plan, &data[..], None, b => {
            let mut p = Parser::new(b, obs::config(&c, e));
            match how {
                0 => p.parse::<Record>().map(|_| ()).map_err(|e| e.kind()),
                1 => p.parse_metadata().map(|_| ()).map_err(|e| e.kind()),
                _ => p.parse_record(Nothing).map(|_| ()).map_err(|e| e.kind()),
            }
        });
        ensure!(k == Err(ErrorKind::InvalidRecord), "declared size {size} gives {k:?}");
    }
    cx.nontrivial = true;
    cx.label("size below header");
    Ok(())
}

// ---------------------------------------------------------------------- C08

pub const C08: Prop = Prop {
    id: "C08",
    case: trailer,
    quick: 18_000_000,
    thorough: 350_000_000,
    rule: "records of every type under random sample_type and sample_id_all, trailer fields drawn independently of the body; \
           metadata and record compared with the model, the published length with the bytes used, bodies shorter than the \
           trailer must be rejected as invalid. Non-trivial: the trailer is non-empty, or the type has none although \
           sample_id_all is set.",
};

fn trailer(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    c.sample_id_all = cx.g.pct(80);
    if cx.g.bool() {
        c.sample_type = (c.sample_type & !st::SID) | (cx.g.upto(st::ALL) & st::SID);
    }
    let e = AnyEndian::pick(&mut cx.g);
    let len = SampleId::estimate_len(&obs::config(&c, e));
    ensure!(len == c.sid_len(), "published trailer length {len}, the kernel writes {}; {}", c.sid_len(), describe_cfg(&c));
    cx.cfg_fp(&c);
    match cx.g.weighted(&[65, 15, 20]) {
        0 => {
            let ty = genrec::any_type(&mut cx.g);
            let mut r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
            if cx.g.pct(30) {
                genrec::add_surplus(&mut cx.g, &mut r, &c, 30);
            }
            let enc = r.encode(&c, e.big());
            cx.fp(&enc.bytes);
            cx.say(|| format!("{} as {e:?}; {}; bytes {}", genrec::ty_name(ty), describe_cfg(&c), hex(&enc.bytes)));
            let plan = pick_delivery(&mut cx.g, enc.bytes.len(), 30);
            let how = cx.g.below(2);
            let got = with_source!(&plan, &enc.bytes[..], None, b => {
                let mut p = Parser::new(b, obs::config(&c, e));
                if how == 0 {
                    full(&mut p)
                } else {
                    p.parse_metadata().map(|(mut q, m)| {
                        let body = rest_of(&mut q);
                        pair(body.map_or(V::N, V::B), obs::meta(&m))
                    })
                }
            });
            let got = match got {
                Ok(v) => v,
                Err(x) => bail!("valid {} record does not parse: {}", genrec::ty_name(ty), err_text(&x)),
            };
            let body = if how == 0 { r.tree(&c) } else { V::B(enc.bytes[enc.body.clone()].to_vec()) };
            same("record and metadata", &pair(body, r.meta_tree(&c)), &got)?;
            cx.nontrivial = c.sample_id_all && (c.sid_len() > 0 || !r.has_trailer());
            cx.label(genrec::ty_name(ty));
        }
        1 => {
            // the trailer type on its own
            let sid = genrec::sid(&mut cx.g);
            let mut en = Enc::new(e.big());
            sid.encode(&mut en, &c);
            let used = en.out.len();
            let n = cx.g.len(30);
            let tail = cx.g.bytes(n);
            en.bytes(&tail);
            cx.fp(&en.out);
            cx.say(|| format!("bare trailer as {e:?}; {}; bytes {}", describe_cfg(&c), hex(&en.out)));
            ensure!(used == len, "published trailer length {len}, {used} bytes written");
            let plan = pick_delivery(&mut cx.g, en.out.len(), 30);
            let got = with_source!(&plan, &en.out[..], None, b => {
                let mut p = Parser::new(b, obs::config(&c, e));
                with_rest(&mut p, |p| p.parse::<SampleId>().map(|s| obs::sid(&s)))
            });
            let got = match got {
                Ok(v) => v,
                Err(x) => bail!("trailer does not parse: {}", err_text(&x)),
            };
            same("trailer", &V::S("WithRest", vec![("value", sid.tree(&c)), ("rest", V::B(tail))]), &got)?;
            cx.nontrivial = used > 0;
            cx.label("bare trailer");
        }
        _ => {
            let need = c.sid_len();
            if need == 0 {
                return Ok(());
            }
            let mut ty = genrec::any_type(&mut cx.g);
            if matches!(ty, rt::MMAP | rt::SAMPLE) {
                ty = rt::COMM;
            }
            let n = cx.g.below(need);
            let mut en = Enc::new(e.big());
            en.u32(ty);
            en.u16(genrec::misc(&mut cx.g));
            en.u16(8 + n as u16);
            let b = cx.g.bytes(n + 64);
            en.bytes(&b);
            cx.fp(&en.out);
            cx.say(|| format!("{n}-byte body, {need}-byte trailer configured: {}", hex(&en.out)));
            let plan = pick_delivery(&mut cx.g, en.out.len(), 30);
            let k = with_source!(&plan, &en.out[..], None, b => {
                let mut p = Parser::new(b, obs::config(&c, e));
                p.parse::<Record>().map(|_| ()).map_err(|e| e.kind())
            });
            ensure!(k == Err(ErrorKind::InvalidRecord), "{n}-byte body shorter than its {need}-byte trailer gives {k:?}");
            cx.nontrivial = true;
            cx.label("body shorter than trailer");
        }
    }
    Ok(())
}

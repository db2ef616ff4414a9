//! C13: failures are classified by cause and carry their message.

use super::Prop;
use crate::genrec::{self, Size};
use crate::known;
use crate::model::*;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::{ErrorKind, ParseError, ParseResult, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::error::Error;

pub const C13: Prop = Prop {
    id: "C13",
    case,
    quick: 15_000_000,
    thorough: 280_000_000,
    rule: "(a) valid records, bodies and attribute structs cut at any byte; (b) valid records with exactly one malformed field; (c) \
           unsupported and misplaced read formats; (d) errors built from messages, boxed errors and io errors. The category is \
           compared with the cause, the displayed text with category + separator + cause, and the source chain is followed. \
           Non-trivial: every case in which a failure was produced.",
};

/// What must hold of any error, whatever its cause.
pub fn well_formed(e: &ParseError) -> R {
    let text = e.to_string();
    let src = e.source();
    match e.kind() {
        ErrorKind::External => {
            if let Some(s) = src {
                ensure!(text == s.to_string(), "an external error prints {text:?}, its cause {:?}", s.to_string());
            }
        }
        k => {
            let cat = match src {
                None => text.as_str(),
                Some(s) => {
                    let c = s.to_string();
                    match text.strip_suffix(&c).and_then(|p| p.strip_suffix(": ")) {
                        Some(p) => p,
                        None => bail!("a {k:?} error prints {text:?}, not its category, a separator and the cause {c:?}"),
                    }
                }
            };
            let low = cat.to_lowercase();
            let ok = match k {
                ErrorKind::Eof => cat == ParseError::eof().to_string(),
                ErrorKind::InvalidRecord => low.contains("invalid"),
                ErrorKind::UnsupportedConfig => low.contains("unsupported") && low.contains("config"),
                ErrorKind::UnsupportedData => low.contains("unsupported") && low.contains("data"),
                _ => true,
            };
            ensure!(ok && !cat.is_empty(), "a {k:?} error prints the category {cat:?}");
        }
    }
    // Debug must work as well
    ensure!(!format!("{e:?}").is_empty(), "an error debug-prints as nothing");
    Ok(())
}

fn expect(what: &str, r: ParseResult<()>, want: &[ErrorKind]) -> R {
    match r {
        Ok(()) => bail!("{what}: parses, expected {want:?}"),
        Err(e) => {
            ensure!(want.contains(&e.kind()), "{what}: fails as {}, expected {want:?}", err_text(&e));
            well_formed(&e)
        }
    }
}

pub fn case(cx: &mut Cx) -> R {
    match cx.g.weighted(&[36, 36, 10, 10, 14]) {
        0 => cut(cx),
        1 => malformed(cx),
        2 => formats(cx),
        4 => overclaim(cx),
        _ => built(cx),
    }
}

fn cut(cx: &mut Cx) -> R {
    let e = AnyEndian::pick(&mut cx.g);
    let mut c = genrec::cfg(&mut cx.g);
    let ty = genrec::any_type(&mut cx.g);
    let size = if cx.g.pct(85) { Size::Small } else { Size::Any };
    let r = genrec::rec(&mut cx.g, ty, &mut c, size);
    let enc = r.encode(&c, e.big());
    cx.cfg_fp(&c);
    let mode = cx.g.weighted(&[5, 5]);
    if mode == 0 {
        // the header still declares the full size
        let n = cx.g.below(enc.bytes.len());
        let data = enc.bytes[..n].to_vec();
        let plan = Plan::gen(&mut cx.g, data.len());
        let how = cx.g.below(3);
        cx.fp(&data);
        cx.say(|| format!("{} cut to {n} of {} bytes as {e:?} via {plan:?}: {}", genrec::ty_name(ty), enc.bytes.len(), hex(&data)));
        let got = with_source!(&plan, &data[..], None, b => {
            let mut p = Parser::new(b, obs::config(&c, e));
            match how {
                0 => p.parse::<Record>().map(|_| ()),
                1 => full(&mut p).map(|_| ()),
                _ => p.parse_metadata().map(|_| ()),
            }
        });
        expect(&format!("{} cut to {n} of {} bytes", genrec::ty_name(ty), enc.bytes.len()), got, &[ErrorKind::Eof])?;
        cx.nontrivial = true;
        cx.label("cut frame");
        return Ok(());
    }
    // the body ends early (a bare body, or a frame whose header agrees)
    let mut en = Enc::new(e.big());
    r.encode_body(&mut en, &c);
    let body = en.out;
    if body.is_empty() {
        return Ok(());
    }
    let n = cx.g.below(body.len());
    let short = &body[..n];
    let framed = cx.g.bool();
    let misc = if framed { r.misc } else { 0 };
    match decode_body(ty, misc, short, &c, e.big()) {
        Err(Bad::Eof) => {}
        // names and unknown payloads may simply be shorter; a shorter body can
        // also be malformed in another way
        _ => {
            cx.label("cut body still well-formed");
            return Ok(());
        }
    }
    let mut data = vec![];
    if framed {
        let mut h = Enc::new(e.big());
        h.u32(ty);
        h.u16(misc);
        let trailer = if matches!(ty, rt::MMAP | rt::SAMPLE) { 0 } else { c.sid_len() };
        h.u16((8 + n + trailer) as u16);
        h.bytes(short);
        if trailer > 0 {
            r.sid.encode(&mut h, &c);
        }
        // what follows belongs to the next record
        h.bytes(&[0xEE; 80]);
        data.extend_from_slice(&h.out);
    } else {
        data.extend_from_slice(short);
    }
    let plan = Plan::gen(&mut cx.g, data.len());
    cx.fp(&data);
    cx.say(|| format!("{} body of {n} of {} bytes, framed={framed}, as {e:?} via {plan:?}; {}; {}", genrec::ty_name(ty), body.len(), describe_cfg(&c), hex(&data)));
    let got = with_source!(&plan, &data[..], None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        if framed { p.parse::<Record>().map(|_| ()) } else { typed(ty, &mut p).map(|_| ()) }
    });
    expect(&format!("{} body cut to {n} of {} bytes", genrec::ty_name(ty), body.len()), got, &[ErrorKind::Eof])?;
    cx.nontrivial = true;
    cx.label(if framed { "cut body in a frame" } else { "cut bare body" });
    Ok(())
}

/// A record that claims more data than it has.
fn overclaim(cx: &mut Cx) -> R {
    let e = AnyEndian::pick(&mut cx.g);
    let mut c = genrec::cfg(&mut cx.g);
    let ty = if cx.g.pct(75) { rt::SAMPLE } else { cx.g.pick(&[rt::NAMESPACES, rt::TEXT_POKE]) };
    if ty == rt::SAMPLE && c.sample_type & (st::CALLCHAIN | st::RAW | st::BRANCH_STACK | st::STACK_USER | st::AUX) == 0 {
        c.sample_type |= cx.g.pick(&[st::CALLCHAIN, st::RAW, st::BRANCH_STACK, st::STACK_USER, st::AUX]);
    }
    let r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
    let enc = r.encode(&c, e.big());
    let mut data = enc.bytes.clone();
    let lens: Vec<_> = enc.lens.iter().filter(|l| l.0 >= 8).copied().collect();
    if lens.is_empty() {
        return Ok(());
    }
    let (pos, w, v) = cx.g.pick(&lens);
    let nv = genrec::wild_len(&mut cx.g, w, v);
    patch_int(&mut data, pos, w, nv, e.big());
    let after = cx.g.below(60);
    let t = cx.g.bytes(after);
    let frame = data.len();
    data.extend_from_slice(&t);
    let want: &[ErrorKind] = match decode_record(&data, &c, e.big()) {
        Err(Bad::Eof) => &[ErrorKind::Eof],
        Err(Bad::Huge) => &[ErrorKind::Eof, ErrorKind::InvalidRecord],
        _ => {
            cx.label("claim still well-formed");
            return Ok(());
        }
    };
    let Some(buf) = known::place(e, &data, 0, |b| drop(decode_record(b, &c, e.big()))) else { return Ok(()) };
    let plan = Plan::gen(&mut cx.g, data.len());
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.say(|| format!("{} with a length of {v} at byte {pos} replaced by {nv}, frame of {frame} bytes, as {e:?} via {plan:?}; {}; {}", genrec::ty_name(ty), describe_cfg(&c), hex(&data)));
    let got = with_source!(&plan, buf.get(), None, b => Parser::new(b, obs::config(&c, e)).parse::<Record>().map(|_| ()));
    expect(&format!("{} claiming a length of {nv}", genrec::ty_name(ty)), got, want)?;
    cx.nontrivial = true;
    cx.label("claims too much");
    Ok(())
}

fn malformed(cx: &mut Cx) -> R {
    use ErrorKind::*;
    let e = AnyEndian::pick(&mut cx.g);
    let mut c = genrec::cfg(&mut cx.g);
    let which = cx.g.weighted(&[3, 3, 4, 4, 4, 3]);
    let mut want: &[ErrorKind] = &[InvalidRecord];
    let (data, what): (Vec<u8>, String) = match which {
        0 => {
            // declared size below the header
            let ty = genrec::any_type(&mut cx.g);
            let r = genrec::rec(&mut cx.g, ty, &mut c, Size::Small);
            let mut b = r.encode(&c, e.big()).bytes;
            let n = cx.g.below(8) as u64;
            patch_int(&mut b, 6, 2, n, e.big());
            (b, format!("{} with declared size {n}", genrec::ty_name(ty)))
        }
        1 => {
            // body shorter than the trailer
            c.sample_id_all = true;
            if c.sid_len() == 0 {
                c.sample_type |= st::TIME;
            }
            let mut ty = genrec::any_type(&mut cx.g);
            if matches!(ty, rt::MMAP | rt::SAMPLE) {
                ty = rt::LOST
            }
            let n = cx.g.below(c.sid_len());
            let mut en = Enc::new(e.big());
            en.u32(ty);
            en.u16(genrec::misc(&mut cx.g));
            en.u16(8 + n as u16);
            let k = n + cx.g.below(80);
            let b = cx.g.bytes(k);
            en.bytes(&b);
            (en.out, format!("{} with a {n}-byte body and a {}-byte trailer", genrec::ty_name(ty), c.sid_len()))
        }
        2 => {
            // build-id length over 20
            let mut r = genrec::rec(&mut cx.g, rt::MMAP2, &mut c, Size::Small);
            r.misc |= MISC_BUILD_ID;
            r.body = genrec::body(&mut cx.g, rt::MMAP2, &c, r.misc, Size::Small);
            let en = r.encode(&c, e.big());
            let n = match cx.g.weighted(&[3, 3, 1]) {
                0 => 21 + cx.g.upto(3),
                1 => 21 + cx.g.upto(234),
                _ => 255,
            };
            let mut b = en.bytes;
            // the length byte follows header, ids, address, length and offset
            patch_int(&mut b, 8 + 8 + 24, 1, n, e.big());
            (b, format!("MMAP2 with build-id length {n}"))
        }
        3 => {
            // dynamic stack size over the stack size
            c.sample_type |= st::STACK_USER;
            let mut s = genrec::sample(&mut cx.g, &c, Size::Small);
            if s.stack.is_empty() {
                s.stack = vec![1, 2, 3, 4, 5, 6, 7, 8];
            }
            let n = s.stack.len() as u64;
            s.dyn_size = match cx.g.weighted(&[4, 3, 2, 2, 2]) {
                4 => genrec::aliased(&mut cx.g, 1).max(n + 1),
                0 => n + 1 + cx.g.upto(8),
                1 => n + 1 + cx.g.upto(u64::MAX - n - 1),
                2 => u64::MAX,
                _ => (n + 1).next_power_of_two() << cx.g.upto(40),
            };
            let d = s.dyn_size;
            let r = Rec { misc: genrec::misc(&mut cx.g), body: Body::Sample(Box::new(s)), sid: SidM::default(), surplus: vec![] };
            (r.encode(&c, e.big()).bytes, format!("SAMPLE with stack size {n} and dynamic size {d}"))
        }
        4 => {
            // counter count too large to represent
            c.sample_type |= st::READ;
            c.read_format |= rf::GROUP;
            let elem = 1 + c.fmt(rf::ID) as u64 + c.fmt(rf::LOST) as u64;
            let s = genrec::sample(&mut cx.g, &c, Size::Small);
            let r = Rec { misc: 0, body: Body::Sample(Box::new(s)), sid: SidM::default(), surplus: vec![] };
            let en = r.encode(&c, e.big());
            let mut b = en.bytes;
            let (pos, w, _) = en.lens[0];
            let n = if elem > 1 {
                // entries x words per entry does not fit 64 bits
                let min = u64::MAX / elem + 1;
                match cx.g.weighted(&[3, 3, 2]) {
                    0 => min + cx.g.upto(4),
                    1 => min + cx.g.upto(u64::MAX - min),
                    _ => u64::MAX,
                }
            } else {
                // fits as a count of words, not as a count of bytes
                want = &[InvalidRecord, Eof];
                u64::MAX / 8 + 1 + cx.g.upto(u64::MAX - u64::MAX / 8 - 1)
            };
            patch_int(&mut b, pos, w, n, e.big());
            (b, format!("SAMPLE with {n} counters of {elem} words"))
        }
        _ => {
            // bad attribute size, other conditions fine
            let size = loop_size(cx);
            let mut en = Enc::new(e.big());
            en.u32(cx.g.u32());
            en.u32(size);
            let b = cx.g.bytes(200);
            en.bytes(&b);
            (en.out, format!("attribute struct of size {size}"))
        }
    };
    let plan = Plan::gen(&mut cx.g, data.len());
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.say(|| format!("{what} as {e:?} via {plan:?}; {}; {}", describe_cfg(&c), hex(&data)));
    let visitor = cx.g.bool();
    let got = with_source!(&plan, &data[..], None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        if which == 5 {
            p.parse::<perf_event_attr>().map(|_| ())
        } else if visitor {
            full(&mut p).map(|_| ())
        } else {
            p.parse::<Record>().map(|_| ())
        }
    });
    expect(&what, got, want)?;
    cx.nontrivial = true;
    cx.label(match which { 0 => "size below header", 1 => "short trailer", 2 => "build-id length", 3 => "dynamic stack size", 4 => "counter count", _ => "attribute size" });
    Ok(())
}

fn loop_size(cx: &mut Cx) -> u32 {
    let s = cx.g.upto(135) as u32;
    if super::attr::SIZES.contains(&s) { s - 1 } else { s }
}

fn formats(cx: &mut Cx) -> R {
    let e = AnyEndian::pick(&mut cx.g);
    let mut c = genrec::cfg(&mut cx.g);
    let which = cx.g.below(6);
    let n = cx.g.range(0, 12) * 8 + 400;
    let data = cx.g.bytes(n);
    let bad = 1u64 << cx.g.range(5, 63);
    c.sample_type = st::READ | (c.sample_type & (st::IP | st::TIME | st::TID));
    c.sample_id_all = false;
    match which {
        // group format where a single value is required
        0 | 1 | 2 => {
            c.read_format |= rf::GROUP;
            if cx.g.pct(30) {
                c.read_format |= bad
            }
        }
        // no group format where a group is required
        3 => {
            c.read_format &= !rf::GROUP;
            if cx.g.pct(30) {
                c.read_format |= bad
            }
        }
        _ => c.read_format |= bad,
    }
    let mut buf = vec![];
    if which == 2 || which == 5 {
        let mut en = Enc::new(e.big());
        en.u32(if which == 2 { rt::READ } else { rt::SAMPLE });
        en.u16(0);
        en.u16(8 + data.len() as u16);
        buf = en.out;
    }
    buf.extend_from_slice(&data);
    let plan = Plan::gen(&mut cx.g, buf.len());
    cx.cfg_fp(&c);
    cx.fp(&buf);
    cx.fpn(which as u64);
    cx.say(|| format!("reader {which} under read_format {:#x}, {} bytes via {plan:?}", c.read_format, buf.len()));
    let got = with_source!(&plan, &buf[..], None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        match which {
            0 => p.parse::<ReadValue>().map(|_| ()),
            1 => p.parse::<perf_event_data::Read>().map(|_| ()),
            2 | 5 => p.parse::<Record>().map(|_| ()),
            3 => p.parse::<ReadGroup>().map(|_| ()),
            _ => p.parse::<Sample>().map(|_| ()),
        }
    });
    expect(&format!("reader {which} under read_format {:#x}", c.read_format), got, &[ErrorKind::UnsupportedConfig])?;
    cx.nontrivial = true;
    cx.label("read format");
    Ok(())
}

#[derive(Debug)]
struct Outer(String, Marker);
impl std::fmt::Display for Outer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Error for Outer {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&self.1)
    }
}

/// Errors supplied by the user of the library.
fn built(cx: &mut Cx) -> R {
    let n = cx.g.range(0, 30);
    let text = String::from_utf8_lossy(&cx.g.tricky_text(n)).into_owned();
    let id = cx.g.u64();
    let which = cx.g.below(6);
    let k = if cx.g.pct(20) { std::io::ErrorKind::UnexpectedEof } else { cx.g.pick(IO_KINDS) };
    cx.fp(text.as_bytes());
    cx.fpn(id ^ which as u64);
    cx.say(|| format!("error built the {which}th way from {text:?}, marker {id}, io kind {k:?}"));
    let (e, kind, shown, marker): (ParseError, ErrorKind, String, bool) = match which {
        0 => (ParseError::new(text.clone()), ErrorKind::External, text.clone(), false),
        1 => (ParseError::new(Marker(id)), ErrorKind::External, Marker(id).to_string(), true),
        2 => {
            let b: Box<dyn Error + Send + Sync> = Box::new(Outer(text.clone(), Marker(id)));
            (ParseError::from(b), ErrorKind::External, text.clone(), true)
        }
        3 => {
            let io = std::io::Error::new(k, Marker(id));
            let kind = if k == std::io::ErrorKind::UnexpectedEof { ErrorKind::Eof } else { ErrorKind::External };
            let shown = io.to_string();
            (ParseError::from(io), kind, shown, true)
        }
        4 => {
            let io = std::io::Error::from(k);
            let kind = if k == std::io::ErrorKind::UnexpectedEof { ErrorKind::Eof } else { ErrorKind::External };
            let shown = io.to_string();
            (ParseError::from(io), kind, shown, false)
        }
        _ => (ParseError::eof(), ErrorKind::Eof, String::new(), false),
    };
    ensure!(e.kind() == kind, "kind is {:?}, expected {kind:?}", e.kind());
    well_formed(&e)?;
    match e.source() {
        Some(s) => ensure!(which != 5 && s.to_string() == shown, "the source prints {:?}, given {shown:?}", s.to_string()),
        None => ensure!(which == 5, "the cause is not reachable"),
    }
    if marker {
        ensure!(marker_of(&e) == Some(id), "the original error is not in the source chain");
    }
    // the very error that was given, not only what it wraps
    match which {
        2 => ensure!(has_cause(&e, |o: &Outer| o.0 == text && o.1 .0 == id), "the boxed error is not in the source chain"),
        3 | 4 => ensure!(
            has_cause(&e, |i: &std::io::Error| i.kind() == k && i.get_ref().is_some() == (which == 3)),
            "the io error of kind {k:?} is not in the source chain"
        ),
        _ => {}
    }
    cx.nontrivial = true;
    cx.label("built");
    Ok(())
}

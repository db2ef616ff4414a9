//! C11: event attribute structs.

use super::Prop;
use crate::gen::G;
use crate::model::*;
use crate::run::*;
use crate::source::*;
use perf_event_data::endian::Native;
use perf_event_data::parse::{ErrorKind, ParseConfig, Parser};
use perf_event_open_sys::bindings::perf_event_attr;

pub const C11: Prop = Prop {
    id: "C11",
    case,
    quick: 12_000_000,
    thorough: 250_000_000,
    rule: "attribute structs with random field values written in either byte order at every published size (64..136), at larger \
           sizes with zero and non-zero tails, at unpublished sizes, and cut short at any byte, followed by foreign bytes, under \
           any delivery; the parsed struct, the bytes left and the error category are compared with the kernel layout. \
           Non-trivial: at least 8 bytes of fields decided the outcome (everything except empty input).",
};

pub const SIZES: &[u32] = &[64, 72, 80, 96, 104, 112, 120, 128, 136];
pub const MAX: u32 = 136;

/// Field values in layout order: (name, offset, width).
const FIELDS: &[(&str, u32, u8)] = &[
    ("config", 8, 8),
    ("sample_period", 16, 8),
    ("sample_type", 24, 8),
    ("read_format", 32, 8),
    ("flags", 40, 8),
    ("wakeup_events", 48, 4),
    ("bp_type", 52, 4),
    ("config1", 56, 8),
    ("config2", 64, 8),
    ("branch_sample_type", 72, 8),
    ("sample_regs_user", 80, 8),
    ("sample_stack_user", 88, 4),
    ("clockid", 92, 4),
    ("sample_regs_intr", 96, 8),
    ("aux_watermark", 104, 4),
    ("sample_max_stack", 108, 2),
    // reserved words: never visible
    ("", 110, 2),
    ("aux_sample_size", 112, 4),
    ("", 116, 4),
    ("sig_data", 120, 8),
    ("config3", 128, 8),
];

pub fn observe(a: &perf_event_attr) -> V {
    let u = V::U;
    // SAFETY: plain integers in every union
    let (period, wakeup, c1, c2) = unsafe {
        (a.__bindgen_anon_1.sample_period, a.__bindgen_anon_2.wakeup_events, a.__bindgen_anon_3.config1, a.__bindgen_anon_4.config2)
    };
    V::S("Attr", vec![
        ("type", u(a.type_ as u64)),
        ("size", u(a.size as u64)),
        ("config", u(a.config)),
        ("sample_period", u(period)),
        ("sample_type", u(a.sample_type)),
        ("read_format", u(a.read_format)),
        ("flags", u(a._bitfield_1.get(0, 64))),
        ("wakeup_events", u(wakeup as u64)),
        ("bp_type", u(a.bp_type as u64)),
        ("config1", u(c1)),
        ("config2", u(c2)),
        ("branch_sample_type", u(a.branch_sample_type)),
        ("sample_regs_user", u(a.sample_regs_user)),
        ("sample_stack_user", u(a.sample_stack_user as u64)),
        ("clockid", u(a.clockid as u32 as u64)),
        ("sample_regs_intr", u(a.sample_regs_intr)),
        ("aux_watermark", u(a.aux_watermark as u64)),
        ("sample_max_stack", u(a.sample_max_stack as u64)),
        ("aux_sample_size", u(a.aux_sample_size as u64)),
        ("sig_data", u(a.sig_data)),
        ("config3", u(a.config3)),
    ])
}

/// The struct's bytes up to `size` (at least 8), and the expected tree.
fn build(g: &mut G, size: u32, big: bool) -> (Vec<u8>, V) {
    let mut e = Enc::new(big);
    let ty = g.u32();
    e.u32(ty);
    e.len32(size);
    let mut tree = vec![("type", V::U(ty as u64)), ("size", V::U(size as u64))];
    // attribute layouts in the kernel zero reserved words; noise must be ignored
    for &(name, off, w) in FIELDS {
        let v = match (name, w) {
            ("", 2) if g.bool() => 0,
            ("", 4) if g.bool() => 0,
            (_, 8) => g.u64(),
            (_, 4) => g.u32() as u64,
            _ => g.u16() as u64,
        };
        if off < size {
            match w {
                8 => e.u64(v),
                4 => e.u32(v as u32),
                _ => e.u16(v as u16),
            }
        }
        if !name.is_empty() {
            tree.push((name, V::U(if off < size { v } else { 0 })));
        }
    }
    (e.out, V::S("Attr", tree))
}

/// One attribute struct in little- and in big-endian form.
pub fn both(g: &mut G) -> [Vec<u8>; 2] {
    let size = g.pick(SIZES);
    let (le, _) = build(g, size, false);
    let mut be = le.clone();
    be[0..4].reverse();
    be[4..8].reverse();
    for &(_, off, w) in FIELDS {
        if off < size {
            be[off as usize..(off + w as u32) as usize].reverse()
        }
    }
    [le, be]
}

/// Serialized attribute struct as hostile input.
pub fn wild(g: &mut G, big: bool) -> Vec<u8> {
    let size = if g.pct(70) { g.pick(SIZES) } else { 137 + g.upto(300) as u32 };
    let (mut b, _) = build(g, size.min(MAX), big);
    patch_int(&mut b, 4, 4, size as u64, big);
    if size > MAX {
        let n = (size - MAX) as usize;
        let t = if g.bool() { vec![0; n] } else { g.bytes(n) };
        b.extend_from_slice(&t);
    }
    match g.weighted(&[3, 3, 3, 2]) {
        0 => {}
        1 => {
            let v = match g.weighted(&[3, 2, 2]) {
                0 => g.upto(200),
                1 => g.u32() as u64,
                _ => g.pick(SIZES) as u64 + g.upto(8),
            };
            patch_int(&mut b, 4, 4, v, big)
        }
        2 => {
            let n = g.below(b.len() + 1);
            b.truncate(n)
        }
        _ => {
            let n = g.len(60);
            let t = g.bytes(n);
            b.extend_from_slice(&t)
        }
    }
    b
}

fn case(cx: &mut Cx) -> R {
    let e = AnyEndian::pick(&mut cx.g);
    let mode = cx.g.weighted(&[50, 20, 12, 18]);
    let size = match mode {
        0 => cx.g.pick(SIZES),
        1 => match cx.g.weighted(&[4, 4, 1]) {
            0 => MAX + 1 + cx.g.upto(16) as u32,
            1 => MAX + cx.g.range(1, if crate::gen::tiny() { 40 } else { 600 }) as u32,
            _ => MAX + cx.g.range(1, if crate::gen::tiny() { 40 } else { 66_000 }) as u32,
        },
        2 => {
            let s = match cx.g.weighted(&[4, 3, 2]) {
                0 => cx.g.upto(135) as u32,
                1 => cx.g.pick(SIZES).wrapping_add(cx.g.pick(&[1u32, 8, u32::MAX, 4, u32::MAX - 7])),
                _ => cx.g.upto(63) as u32,
            };
            if SIZES.contains(&s) || s > MAX { 65 } else { s }
        }
        _ => {
            match cx.g.weighted(&[70, 15, 15]) {
                0 => cx.g.pick(SIZES),
                1 => MAX + cx.g.range(1, 40) as u32,
                // far more than is there
                _ => {
                    let s = cx.g.pick(SIZES) as u64;
                    let s = crate::genrec::aliased(&mut cx.g, s) as u32;
                    s.max(3000)
                }
            }
        }
    };
    let (mut data, want) = build(&mut cx.g, if mode == 2 { MAX } else { size.min(MAX) }, e.big());
    patch_int(&mut data, 4, 4, size as u64, e.big());
    let want = match want {
        V::S(n, mut f) => {
            f[1].1 = V::U(size as u64);
            V::S(n, f)
        }
        v => v,
    };
    // the unknown part of a larger struct
    let mut dirty = false;
    if size > MAX {
        let n = (if mode == 3 { size.min(3000) } else { size } - MAX) as usize;
        let mut t = vec![0u8; n];
        match cx.g.weighted(if mode == 3 { &[1] } else { &[4, 3, 2] }) {
            0 => {}
            1 => {
                let i = match cx.g.weighted(&[2, 2, 3]) {
                    0 => 0,
                    1 => n - 1,
                    _ => cx.g.below(n),
                };
                t[i] = 1 << cx.g.below(8);
            }
            _ => t = cx.g.bytes(n),
        }
        dirty = t.iter().any(|b| *b != 0);
        data.extend_from_slice(&t);
    }
    let cut = mode == 3;
    let mut tail = vec![];
    if cut {
        // any strict prefix, or one whose missing bytes are few
        let n = if cx.g.bool() { cx.g.below(data.len()) } else { data.len() - 1 - cx.g.below(data.len().min(8)) };
        data.truncate(n);
    } else if mode != 2 {
        let n = cx.g.len(40);
        tail = cx.g.bytes(n);
        data.extend_from_slice(&tail);
    }
    let off = cx.g.below(8);
    let buf = Aligned::new(&data, off);
    let plan = Plan::gen(&mut cx.g, data.len());
    cx.fp(&data);
    cx.say(|| format!("size {size}, {} bytes present{} as {e:?} via {plan:?}: {}", data.len(), if cut { " (cut)" } else { "" }, hex(&data)));
    let got = with_source!(&plan, buf.get(), None, b => {
        let mut p = Parser::new(b, ParseConfig::<Native>::default().with_endian(e));
        match p.parse::<perf_event_attr>() {
            Ok(a) => Ok((observe(&a), rest_of(&mut p).map_err(|x| err_text(&x))?)),
            Err(x) => Err(x),
        }
    });
    cx.nontrivial = data.len() >= 8 || cut;
    cx.label(plan.label());
    if cut {
        cx.label("cut");
        match got {
            Ok(_) => bail!("{} of {size} bytes parse", data.len()),
            Err(x) => ensure!(x.kind() == ErrorKind::Eof, "{} of {size} bytes give {}", data.len(), err_text(&x)),
        }
        return Ok(());
    }
    if mode == 2 {
        cx.label("unpublished size");
        match got {
            Ok(_) => bail!("size {size} is accepted"),
            Err(x) => ensure!(x.kind() == ErrorKind::InvalidRecord, "size {size} gives {}", err_text(&x)),
        }
        return Ok(());
    }
    if dirty {
        cx.label("larger, unknown fields set");
        match got {
            Ok(_) => bail!("size {size} with non-zero bytes beyond the known fields is accepted"),
            Err(x) => ensure!(x.kind() == ErrorKind::UnsupportedData, "non-zero bytes beyond the known fields give {}", err_text(&x)),
        }
        return Ok(());
    }
    cx.label(if size > MAX { "larger, zeros" } else { "published size" });
    let (v, rest) = match got {
        Ok(x) => x,
        Err(x) => bail!("a valid {size}-byte struct does not parse: {}", err_text(&x)),
    };
    same("struct", &want, &v)?;
    ensure!(rest == tail, "{} bytes are left after the struct instead of {}", rest.len(), tail.len());
    Ok(())
}

/// A big-endian kernel allocates the flag bits of perf_event_attr from the most
/// significant bit; the library always counts from the least.
pub fn probes() -> Vec<(&'static str, String)> {
    let mut en = Enc::new(true);
    en.u32(0);
    en.len32(64);
    for _ in 0..4 {
        en.u64(0);
    }
    // sample_id_all is the 19th flag
    en.u64(1 << (63 - 18));
    for _ in 0..2 {
        en.u64(0);
    }
    let mut p = Parser::new(&en.out[..], ParseConfig::<perf_event_data::endian::Big>::default());
    match p.parse::<perf_event_attr>() {
        Ok(a) if a.sample_id_all() == 1 => vec![],
        _ => vec![(
            "attr-flags-of-big-endian-kernel",
            "the flag bits of an attribute struct written by a big-endian kernel (which allocates bitfields from the most significant bit, so sample_id_all is bit 45 of the word) are decoded with little-endian bit positions: sample_id_all() is 0".into(),
        )],
    }
}

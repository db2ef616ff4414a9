//! C20: memory safety.  The deciding observer is the sanitizer (or Miri) the
//! driver builds this binary with; wrong values and panics belong to the other
//! properties and are ignored here.

use super::Prop;
use crate::alloc::Meter;
use crate::exercise;
use crate::genrec;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::{ParseBuf, Parser};
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const C20: Prop = Prop {
    id: "C20",
    case,
    quick: 800_000,
    thorough: 30_000_000,
    rule: "the generators of the other properties (hostile bytes, ownership histories, primitive histories, group views, debug output, \
           split deliveries, faults, attribute structs, errors, branch stacks) drive the library under AddressSanitizer, and a smaller, tiny-sized sample of \
           them under Miri; inputs end exactly at the end of their allocation. Only sanitizer/Miri reports, crashes by signal and \
           leaks count. Non-trivial: the underlying case was.",
};

/// Allocation balance of parsing, using and dropping hostile input.
fn leaks(cx: &mut Cx) -> R {
    let mut c = super::total::wild_cfg(&mut cx.g);
    let e = AnyEndian::pick(&mut cx.g);
    let attr = cx.g.pct(10);
    let data = if attr { super::attr::wild(&mut cx.g, e.big()) } else { super::total::wild_bytes(&mut cx.g, &mut c, e.big()) };
    let plan = Plan::gen(&mut cx.g, data.len());
    let body = cx.g.pct(25);
    let ty = genrec::any_type(&mut cx.g);
    cx.cfg_fp(&c);
    cx.fp(&data);
    cx.say(|| format!("leak check as {e:?} via {plan:?}; {}; bytes {}", describe_cfg(&c), hex(&data)));
    let m = Meter::start();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let buf = Aligned::new(&data, 0);
        with_source!(&plan, buf.get(), None, b => {
            let mut p = Parser::new(b, obs::config(&c, e));
            if attr {
                let _ = p.parse::<perf_event_attr>();
            } else if body {
                use_body(ty, &mut p);
            } else {
                while let Ok(r) = p.parse::<Record>() {
                    let _ = exercise::record(&r, false);
                }
            }
        });
    }));
    let u = m.read();
    if r.is_ok() {
        ensure!(u.live == 0 && u.blocks == 0, "after dropping everything {} bytes in {} blocks remain allocated", u.live, u.blocks);
    }
    cx.nontrivial = data.len() >= 16;
    Ok(())
}

fn use_body<'p, B: ParseBuf<'p>>(ty: u32, p: &mut Parser<B, AnyEndian>) {
    if let Ok(r) = super::zerocopy::typed_record(ty, p) {
        let _ = exercise::record(&r, false);
    }
}

pub fn case(cx: &mut Cx) -> R {
    let k = cx.g.weighted(&[20, 25, 14, 10, 6, 6, 8, 5, 4, 3, 6, 3, 3, 3]);
    let f: super::CaseFn = match k {
        0 => return leaks(cx),
        1 => super::total::case,
        2 => super::ownership::case,
        3 => super::primitives::case,
        4 => super::groups::case,
        5 => super::debug::case,
        6 => super::delivery::case05,
        7 => super::delivery::case18,
        8 => super::attr::C11.case,
        9 => super::errors::case,
        10 => super::bits::case,
        11 => super::visit::case,
        12 => super::zerocopy::case,
        _ => super::sources::case,
    };
    cx.label(["leak check", "hostile bytes", "ownership", "primitives", "groups", "debug", "deliveries", "faults", "attributes", "errors", "bitfields", "visitors", "zero copy", "sources"][k]);
    // only what the sanitizer sees counts
    let _ = catch_unwind(AssertUnwindSafe(|| f(cx)));
    Ok(())
}

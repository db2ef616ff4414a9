//! pedfuzz: the cases of one property (PED_ID) under libFuzzer.
//!
//! The input is read as the choices of the generator, so the search is guided by
//! the coverage of the library, the models and the oracles. A failing input is
//! judged again, without instrumentation, by `pedcheck fuzzcase`.

#![no_main]
#![allow(dead_code)]

#[macro_use]
mod run;
#[macro_use]
mod source;
mod alloc;
mod exec;
mod exercise;
mod gen;
mod genrec;
mod known;
mod model;
mod obs;
mod props;

use std::collections::{BTreeMap, HashSet};
use std::sync::{Mutex, OnceLock};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

struct State {
    case: props::CaseFn,
    rule: &'static str,
    out: String,
    t0: std::time::Instant,
    runs: u64,
    nontrivial: u64,
    choices: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
}

static STATE: OnceLock<Mutex<State>> = OnceLock::new();

#[no_mangle]
pub extern "C" fn LLVMFuzzerInitialize(_argc: *const i32, _argv: *const *const *const u8) -> i32 {
    exec::hook();
    let id = std::env::var("PED_ID").expect("PED_ID");
    let p = props::find(&id);
    let _ = STATE.set(Mutex::new(State {
        case: p.case,
        rule: p.rule,
        out: std::env::var("PED_OUT").expect("PED_OUT"),
        t0: std::time::Instant::now(),
        runs: 0,
        nontrivial: 0,
        choices: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
    }));
    extern "C" {
        fn atexit(f: extern "C" fn()) -> i32;
    }
    extern "C" fn at_end() {
        STATE.get().unwrap().lock().unwrap().write();
    }
    unsafe { atexit(at_end) };
    0
}

impl State {
    fn write(&self) {
        let labels: Vec<_> = self.labels.iter().map(|(k, v)| format!("{}:{v}", exec::json_str(k))).collect();
        let s = format!(
            "{{\"cases\":{},\"nontrivial\":{},\"distinct\":{},\"choices\":{},\"wall\":{:.3},\"rule\":{},\"labels\":{{{}}},\"samples\":[]}}",
            self.runs,
            self.nontrivial,
            self.distinct.len(),
            self.choices,
            self.t0.elapsed().as_secs_f64(),
            exec::json_str(self.rule),
            labels.join(",")
        );
        let _ = std::fs::write(format!("{}/result.json", self.out), s);
    }
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, size: usize) -> i32 {
    let data = if size == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(data, size) } };
    let mut st = STATE.get().unwrap().lock().unwrap();
    let (cx, r) = exec::exec(st.case, gen::G::fuzz(data), false);
    st.runs += 1;
    st.choices += cx.g.used() as u64;
    if cx.nontrivial {
        st.nontrivial += 1;
        if st.distinct.len() < 1_000_000 {
            st.distinct.insert(cx.fp);
        }
    }
    for l in &cx.labels {
        *st.labels.entry(l).or_insert(0) += 1;
    }
    if let Err(m) = r {
        st.write();
        eprintln!("case fails: {m}");
        std::process::abort();
    }
    // an input of which nothing is read is of no use
    if cx.g.used() == 0 {
        return -1;
    }
    0
}

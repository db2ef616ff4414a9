//! pedcheck: generated-input search over the properties of perf-event-data.
//!
//!   pedcheck run ID --seed S --cases N [--threads T] --out DIR
//!   pedcheck replay FILE           exit 1 and the message if it still fails
//!   pedcheck case ID SEED INDEX LOG   run one case, logging its choices
//!   pedcheck crashshrink ID LOG OUT   shrink a case that kills the process
//!   pedcheck corpus ID SEED N DIR    inputs for pedfuzz
//!   pedcheck fuzzcase ID INPUT LOG OUT   judge an input pedfuzz stopped at
//!   pedcheck info ID
//!   pedcheck probe ID              report the known findings that reproduce

#[macro_use]
mod run;
#[macro_use]
mod source;
mod alloc;
mod exec;
mod exercise;
mod gen;
mod genrec;
mod known;
mod model;
mod obs;
mod props;

use exec::{exec, json_str, write_replay, VERBOSE};
use gen::{mix, G};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed ^ gen::fnv(id.as_bytes())).wrapping_add(index))
}

fn read_replay(path: &str) -> (String, Vec<u64>) {
    let s = std::fs::read_to_string(path).expect("cannot read the replay file");
    let mut id = String::new();
    let mut ch = vec![];
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x.to_string()
        }
        if let Some(x) = l.strip_prefix("choices") {
            ch = x.split_whitespace().map(|x| x.parse().unwrap()).collect()
        }
    }
    (id, ch)
}

/// Shrink a failing choice sequence under `fails`.
fn shrink(mut best: Vec<u64>, deadline: Instant, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut improved = true;
    while improved && Instant::now() < deadline {
        improved = false;
        while best.last() == Some(&0) {
            best.pop();
        }
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && Instant::now() < deadline {
                let mut c = best.clone();
                c.drain(i..i + size);
                if fails(&c) {
                    best = c;
                    improved = true;
                } else {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks, then minimise single values
        let mut i = 0;
        while i < best.len() && Instant::now() < deadline {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if fails(&c) {
                    best = c;
                    improved = true;
                } else {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while hi - lo > 1 && Instant::now() < deadline {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if fails(&c) {
                            best = c;
                            hi = mid;
                            improved = true;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    best
}

#[derive(Default)]
struct Stats {
    cases: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    choices: u64,
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

/// Shrink a failure and write its replay file.
fn report(case: props::CaseFn, id: &str, choices: Vec<u64>, msg: String, path: &str, origin: &str) {
    let budget: u64 = std::env::var("PED_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(25);
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(budget + 30));
        println!("shrinking does not end; the replay file has the case as it was found");
        std::process::exit(1);
    });
    let deadline = Instant::now() + Duration::from_secs(budget);
    if props::impure(id) {
        // each candidate in a process of its own
        let tmp = format!("{path}.try");
        let mut fails = |c: &[u64]| {
            write_replay(&tmp, id, c, "", "", "");
            let exe = std::env::current_exe().unwrap();
            let st = std::process::Command::new(exe).args(["replay", &tmp, "20"]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
            st.is_ok_and(|s| s.code() == Some(1))
        };
        let alone = fails(&choices);
        let small = if alone { shrink(choices, deadline, &mut fails) } else { choices };
        let _ = std::fs::remove_file(&tmp);
        let mut cx = gen_only(case, small.clone());
        let m = cx.1.take().unwrap_or(msg);
        let m = if alone { m } else { format!("{m} (not seen again in a process of its own: run the search of the origin line)") };
        println!("minimal: {m}");
        println!("input: {}", cx.0);
        write_replay(path, id, &small, &m, &cx.0, origin);
        return;
    }
    let small = shrink(choices, deadline, |c| exec(case, G::replay(c.to_vec()), false).1.is_err());
    let (cx, r) = exec(case, G::replay(small.clone()), true);
    let m = r.err().unwrap_or(msg);
    println!("minimal: {m}");
    println!("input: {}", cx.sample.clone().unwrap_or_default());
    write_replay(path, id, &small, &m, &cx.sample.unwrap_or_default(), origin);
}

/// The description of a case, and how it fails now if it does.
fn gen_only(case: props::CaseFn, choices: Vec<u64>) -> (String, Option<String>) {
    let (cx, r) = exec(case, G::replay(choices), true);
    (cx.sample.unwrap_or_default(), r.err())
}

fn cmd_run(args: &[String]) -> i32 {
    let id = args[0].clone();
    let p = props::find(&id);
    let seed: u64 = arg(args, "--seed").map_or(1, |s| s.parse().unwrap());
    let start: u64 = arg(args, "--start").map_or(0, |s| s.parse().unwrap());
    let cases: u64 = start + arg(args, "--cases").map_or(p.quick, |s| s.parse().unwrap());
    let threads: usize = arg(args, "--threads").map_or(8, |s| s.parse().unwrap());
    let out = arg(args, "--out").expect("--out");
    std::fs::create_dir_all(&out).unwrap();

    let next = AtomicU64::new(start);
    let fail_at = AtomicU64::new(u64::MAX);
    let failure: Mutex<Option<(u64, Vec<u64>, String, String)>> = Mutex::new(None);
    let total = Mutex::new(Stats::default());
    let samples = Mutex::new(Vec::<(u64, String)>::new());
    // written so that the driver can see what was running if the process dies
    let status = std::fs::File::create(format!("{out}/status")).unwrap();
    let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let t0 = Instant::now();
    let done = AtomicBool::new(false);

    let mut code = 0;
    std::thread::scope(|s| {
        let mut handles = vec![];
        for t in 0..threads {
            let (next, fail_at, failure, total, samples, status, beat, id) =
                (&next, &fail_at, &failure, &total, &samples, &status, &beat, &id);
            handles.push(s.spawn(move || {
                use std::os::unix::fs::FileExt;
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= cases || i > fail_at.load(SeqCst) {
                        break;
                    }
                    let _ = status.write_all_at(&i.wrapping_add(1).to_le_bytes(), 8 * t as u64);
                    beat[t].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                    let want = i % (cases / 64 + 1) == 7 || i < 2;
                    let (cx, r) = exec(p.case, G::random(case_seed(seed, id, i)), want);
                    st.cases += 1;
                    st.choices += cx.g.used() as u64;
                    if cx.nontrivial {
                        st.nontrivial += 1;
                        // beyond this the count is a lower bound
                        if st.distinct.len() < 3_000_000 {
                            st.distinct.insert(cx.fp);
                        }
                    }
                    for l in &cx.labels {
                        *st.labels.entry(l).or_insert(0) += 1;
                    }
                    if let Some(s) = cx.sample.clone() {
                        if cx.nontrivial {
                            samples.lock().unwrap().push((i, s));
                        }
                    }
                    if let Err(m) = r {
                        fail_at.fetch_min(i, SeqCst);
                        let mut f = failure.lock().unwrap();
                        if f.as_ref().is_none_or(|x| i < x.0) {
                            *f = Some((i, cx.g.choices.clone(), m, cx.sample.unwrap_or_default()));
                        }
                    }
                }
                let _ = status.write_all_at(&0u64.to_le_bytes(), 8 * t as u64);
                beat[t].store(0, SeqCst);
                let mut tot = total.lock().unwrap();
                tot.cases += st.cases;
                tot.nontrivial += st.nontrivial;
                tot.choices += st.choices;
                tot.distinct.extend(st.distinct);
                for (k, v) in st.labels {
                    *tot.labels.entry(k).or_insert(0) += v;
                }
            }));
        }
        // watchdog: a case that runs for two minutes is handed to the driver
        let (beat, done) = (&beat, &done);
        s.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for b in beat.iter() {
                    let v = b.load(SeqCst);
                    if v != 0 && now > v + if gen::tiny() { 500_000 } else { 120_000 } {
                        eprintln!("watchdog: a case has been running for two minutes");
                        std::process::exit(77);
                    }
                }
            }
        });
        for h in handles {
            h.join().expect("harness worker panicked");
        }
        done.store(true, SeqCst);
    });

    let st = total.into_inner().unwrap();
    let mut sm = samples.into_inner().unwrap();
    sm.sort();
    let mut j = String::from("{");
    j.push_str(&format!("\"cases\":{},\"nontrivial\":{},\"distinct\":{},\"choices\":{},", st.cases, st.nontrivial, st.distinct.len(), st.choices));
    j.push_str(&format!("\"wall\":{:.3},\"rule\":{},", t0.elapsed().as_secs_f64(), json_str(p.rule)));
    j.push_str("\"labels\":{");
    j.push_str(&st.labels.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","));
    j.push_str("},\"samples\":[");
    let step = (sm.len() / 6).max(1);
    j.push_str(&sm.iter().step_by(step).take(6).map(|(i, s)| json_str(&format!("case {i}: {s}"))).collect::<Vec<_>>().join(","));
    j.push_str("]}");
    std::fs::write(format!("{out}/result.json"), j).unwrap();
    // Written first: shrinking may meet a case that never ends or kills the process.
    let fail = failure.into_inner().unwrap();
    if let Some((i, choices, msg, _)) = fail {
        code = 1;
        println!("case {i}: {msg}");
        let path = format!("{out}/replay.txt");
        let origin = format!("seed {seed} case {i}");
        write_replay(&path, &id, &choices, &msg, "(not shrunk)", &origin);
        report(p.case, &id, choices, msg, &path, &origin);
    }
    code
}

fn main() {
    exec::hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    VERBOSE.store(args.first().is_some_and(|a| a == "case" || a == "replay"), SeqCst);
    if let Ok(path) = std::env::var("PED_LITERALS") {
        gen::load_literals(&path);
    }
    // inputs small enough for Miri
    if std::env::var_os("PED_TINY").is_some() {
        gen::TINY.store(true, SeqCst);
    }
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => cmd_run(&args[1..]),
        Some("replay") => {
            let (id, ch) = read_replay(&args[1]);
            let (mut cx, mut r) = exec(props::find(&id).case, G::replay(ch.clone()), true);
            if props::impure(&id) {
                // what depends on the schedule takes several attempts
                for _ in 0..args.get(2).map_or(400, |n| n.parse().unwrap()) {
                    if r.is_err() {
                        break;
                    }
                    (cx, r) = exec(props::find(&id).case, G::replay(ch.clone()), true);
                }
            }
            println!("property {id}\ninput: {}", cx.sample.unwrap_or_default());
            match r {
                Ok(()) => {
                    println!("the property holds on this input");
                    0
                }
                Err(m) => {
                    println!("FAILS: {m}");
                    1
                }
            }
        }
        Some("case") => {
            let p = props::find(&args[1]);
            let (seed, i): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
            let mut g = G::random(case_seed(seed, &args[1], i));
            g.log_to(&args[4]);
            match exec(p.case, g, false).1 {
                Ok(()) => 0,
                Err(m) => {
                    println!("{m}");
                    1
                }
            }
        }
        Some("crashshrink") => {
            // args: ID LOG OUT how
            let raw = std::fs::read(&args[2]).unwrap();
            let choices: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            // how to run a replay: this binary, or e.g. Miri
            let runner = std::env::var("PED_RUNNER").unwrap_or_else(|_| std::env::current_exe().unwrap().display().to_string());
            let runner: Vec<&str> = runner.split_whitespace().collect();
            let budget: u64 = std::env::var("PED_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
            let tmp = format!("{}.try", args[3]);
            let mut dies = |c: &[u64]| {
                write_replay(&tmp, &args[1], c, "", "", "");
                let st = std::process::Command::new(runner[0])
                    .args(&runner[1..])
                    .args(["replay", &tmp])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .unwrap();
                st.code() != Some(0)
            };
            let ok = dies(&choices);
            let small = if ok { shrink(choices, Instant::now() + Duration::from_secs(budget), &mut dies) } else { choices };
            write_replay(&args[3], &args[1], &small, &format!("the process dies on this input ({})", args[4]), "", "crash");
            let _ = std::fs::remove_file(&tmp);
            if ok { 0 } else { 2 }
        }
        // ID SEED N DIR: inputs to start the coverage-guided search from
        Some("corpus") => {
            let p = props::find(&args[1]);
            let (seed, n): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
            std::fs::create_dir_all(&args[4]).unwrap();
            for i in 0..n {
                let mut g = G::random(case_seed(seed ^ 0xf022, &args[1], i));
                g.encode();
                let (cx, r) = exec(p.case, g, false);
                // (the plain search is there to report it)
                if r.is_ok() && cx.g.encoded().len() <= 8192 {
                    std::fs::write(format!("{}/{i:04}", args[4]), cx.g.encoded()).unwrap();
                }
            }
            0
        }
        // ID INPUT LOG OUT: judge an input of the coverage-guided search
        Some("fuzzcase") => {
            let p = props::find(&args[1]);
            let data = std::fs::read(&args[2]).unwrap();
            let mut g = G::fuzz(&data);
            g.log_to(&args[3]);
            let (cx, r) = exec(p.case, g, false);
            match r {
                Ok(()) => 0,
                Err(msg) => {
                    let choices = cx.g.choices.clone();
                    write_replay(&args[4], &args[1], &choices, &msg, "(not shrunk)", "libFuzzer");
                    report(p.case, &args[1], choices, msg, &args[4], "libFuzzer");
                    1
                }
            }
        }
        Some("info") => {
            let p = props::find(&args[1]);
            println!("{} {}", p.quick, p.thorough);
            0
        }
        Some("probe") => {
            for (key, what) in props::probes(&args[1]) {
                println!("FINDING {key} {what}");
            }
            0
        }
        _ => {
            eprintln!("usage: pedcheck run|replay|case|crashshrink|info|probe ...");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

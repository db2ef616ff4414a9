//! Running one case; replay files.

use crate::gen::G;
use crate::props;
use crate::run::{Cx, R};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Print panics as they happen (single-case commands).
pub static VERBOSE: AtomicBool = AtomicBool::new(false);

/// Run one case; a panic is a failure.
pub fn exec(f: props::CaseFn, g: G, want_sample: bool) -> (Cx, R) {
    let mut cx = Cx::new(g, want_sample);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic without message".into())),
    };
    (cx, r)
}

pub fn write_replay(path: &str, id: &str, choices: &[u64], msg: &str, sample: &str, origin: &str) {
    let mut s = String::new();
    s.push_str(&format!("property {id}\norigin {origin}\n"));
    s.push_str(&format!("message {}\n", msg.replace('\n', " | ")));
    s.push_str(&format!("input {}\n", sample.replace('\n', " | ")));
    s.push_str("choices");
    for c in choices {
        s.push_str(&format!(" {c}"));
    }
    s.push('\n');
    std::fs::write(path, s).expect("cannot write the replay file");
}

/// Keep the message of a panic for `exec`.
pub fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if VERBOSE.load(Relaxed) {
            eprintln!("panic at {at}: {m}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {at}: {m}")));
    }));
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}


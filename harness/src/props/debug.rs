//! C17: Debug output is faithful.

use super::Prop;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::parse::Parser;
use perf_event_data::*;

pub const C17: Prop = Prop {
    id: "C17",
    case,
    quick: 1_800_000,
    thorough: 32_000_000,
    rule: "a valid record of any type, its metadata, sample id and counter values, printed with {:?} and {:#?}; the output is parsed by \
           an independent reader and compared with the model: exact set of field names, every integer, byte string, array, flag set and enumeration; \
           names decode to the exact bytes (names are biased to broken UTF-8, quotes, escapes and control characters) and \
           alphanumeric characters of valid UTF-8 are not escaped. Non-trivial: at least two fields were compared.",
};

// ------------------------------------------------------------------ reader

#[derive(Debug, Clone)]
enum D {
    Struct(Vec<(String, D)>),
    Tuple(Vec<D>),
    List(Vec<D>),
    /// decoded bytes, and which of them came from escapes
    Str(Vec<u8>, Vec<bool>),
    Tok(String),
}

struct Pr<'a> {
    s: &'a [char],
    i: usize,
}

type P<T> = Result<T, String>;

impl Pr<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == ' ' || self.s[self.i] == '\n') {
            self.i += 1
        }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn fail<T>(&self, m: &str) -> P<T> {
        let a = self.i.saturating_sub(30);
        let b = (self.i + 30).min(self.s.len());
        Err(format!("debug output is not readable: {m} near `{}`", self.s[a..b].iter().collect::<String>()))
    }
    fn word(&mut self) -> String {
        let mut w = String::new();
        while let Some(c) = self.peek() {
            let colons = c == ':' && self.s.get(self.i + 1) == Some(&':');
            if colons {
                w.push_str("::");
                self.i += 2;
            } else if c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | '<' | '>' | '!' | '~' | '#') {
                w.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        w
    }
    fn string(&mut self) -> P<D> {
        let (mut out, mut esc) = (vec![], vec![]);
        let mut put = |c: char, e: bool| {
            let mut b = [0; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                out.push(x);
                esc.push(e);
            }
        };
        let mut bytes: Vec<(usize, u8)> = vec![];
        let mut n = 0;
        self.i += 1;
        loop {
            let Some(c) = self.peek() else { return self.fail("unterminated string") };
            self.i += 1;
            match c {
                '"' => break,
                '\\' => {
                    let Some(k) = self.peek() else { return self.fail("unterminated escape") };
                    self.i += 1;
                    match k {
                        'n' => put('\n', true),
                        'r' => put('\r', true),
                        't' => put('\t', true),
                        '0' => put('\0', true),
                        '\\' | '"' | '\'' => put(k, true),
                        'x' => {
                            let h: String = self.s[self.i..(self.i + 2).min(self.s.len())].iter().collect();
                            let Ok(v) = u8::from_str_radix(&h, 16) else { return self.fail("bad \\x escape") };
                            self.i += 2;
                            // placeholder: an ASCII NUL, patched below
                            bytes.push((n, v));
                            put('\0', true);
                        }
                        'u' => {
                            if self.peek() != Some('{') {
                                return self.fail("bad \\u escape");
                            }
                            self.i += 1;
                            let mut h = String::new();
                            while let Some(c) = self.peek() {
                                self.i += 1;
                                if c == '}' {
                                    break;
                                }
                                h.push(c);
                            }
                            let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) else {
                                return self.fail("bad \\u escape");
                            };
                            put(c, true);
                            n += c.len_utf8();
                            continue;
                        }
                        _ => return self.fail("unknown escape"),
                    }
                    n += 1;
                }
                c => {
                    put(c, false);
                    n += c.len_utf8();
                }
            }
        }
        for (i, v) in bytes {
            out[i] = v;
        }
        Ok(D::Str(out, esc))
    }
    fn value(&mut self) -> P<D> {
        self.ws();
        match self.peek() {
            Some('"') => self.string(),
            Some('[') => {
                self.i += 1;
                Ok(D::List(self.items(']')?))
            }
            Some('(') => {
                self.i += 1;
                Ok(D::Tuple(self.items(')')?))
            }
            _ => {
                let mut w = self.word();
                let mark = self.i;
                self.ws();
                match self.peek() {
                    Some('{') => {
                        self.i += 1;
                        let mut f = vec![];
                        loop {
                            self.ws();
                            match self.peek() {
                                Some('}') => {
                                    self.i += 1;
                                    return Ok(D::Struct(f));
                                }
                                Some(',') => self.i += 1,
                                Some('.') => {
                                    while matches!(self.peek(), Some('.')) {
                                        self.i += 1
                                    }
                                }
                                None => return self.fail("unterminated struct"),
                                _ => {
                                    let k = self.word();
                                    if k.is_empty() || self.peek() != Some(':') {
                                        return self.fail("field name expected");
                                    }
                                    self.i += 1;
                                    f.push((k, self.value()?));
                                }
                            }
                        }
                    }
                    Some('(') => {
                        self.i += 1;
                        Ok(D::Tuple(self.items(')')?))
                    }
                    // bitflags: A | B | 0x10
                    Some('|') => {
                        while self.peek() == Some('|') {
                            self.i += 1;
                            self.ws();
                            w.push('|');
                            w.push_str(&self.word());
                            self.ws();
                        }
                        Ok(D::Tok(w))
                    }
                    _ => {
                        self.i = mark;
                        Ok(D::Tok(w))
                    }
                }
            }
        }
    }
    fn items(&mut self, end: char) -> P<Vec<D>> {
        let mut v = vec![];
        loop {
            self.ws();
            match self.peek() {
                Some(c) if c == end => {
                    self.i += 1;
                    return Ok(v);
                }
                Some(',') => self.i += 1,
                None => return self.fail("unterminated list"),
                _ => {
                    let at = self.i;
                    v.push(self.value()?);
                    if self.i == at {
                        return self.fail("unexpected character");
                    }
                }
            }
        }
    }
}

fn read(s: &str) -> P<D> {
    let cs: Vec<char> = s.chars().collect();
    let mut p = Pr { s: &cs, i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != cs.len() {
        return p.fail("text after the value");
    }
    Ok(v)
}

// -------------------------------------------------------------- comparison

fn int(path: &str, d: &D) -> P<u64> {
    let D::Tok(t) = d else { return Err(format!("{path} is not printed as an integer: {d:?}")) };
    let r = match t.strip_prefix("0x").or_else(|| t.strip_prefix("0X")) {
        Some(h) => u64::from_str_radix(h, 16),
        None => t.parse(),
    };
    r.map_err(|_| format!("{path} is not printed as an integer: `{t}`"))
}

type Names = &'static [(&'static str, u64)];

const ABI: Names = &[("NONE", 0), ("ABI_32", 1), ("ABI_64", 2)];
const KSYM: Names = &[("UNKNOWN", 0), ("BPF", 1), ("OOL", 2)];
const KSYM_FLAGS: Names = &[("UNREGISTER", 1)];
const BPF: Names = &[("UNKNOWN", 0), ("PROG_LOAD", 1), ("PROG_UNLOAD", 2)];
const AUX: Names = &[("TRUNCATED", 1), ("OVERWRITE", 2), ("PARTIAL", 4), ("COLLISION", 8), ("PMU_FORMAT_MASK", 0xff00)];
const PMU: Names = &[("CORESIGHT", 0), ("CORESIGHT_RAW", 1)];
const TXN: Names = &[
    ("ELISION", 1), ("TRANSACTION", 2), ("SYNC", 4), ("ASYNC", 8), ("RETRY", 0x10), ("CONFLICT", 0x20), ("CAPACITY_WRITE", 0x40),
    ("CAPACITY_READ", 0x80), ("ABORT_MASK", 0xffff_ffff << 32),
];
const BRANCH: Names = &[
    ("UNKNOWN", 0), ("COND", 1), ("UNCOND", 2), ("IND", 3), ("CALL", 4), ("IND_CALL", 5), ("RET", 6), ("SYSCALL", 7), ("SYSRET", 8),
    ("COND_CALL", 9), ("COND_RET", 10),
];
const READ_FORMAT: Names = &[("TOTAL_TIME_ENABLED", 1), ("TOTAL_TIME_RUNNING", 2), ("ID", 4), ("GROUP", 8), ("LOST", 16)];
const DATA_SRC: &[(&str, Names)] = &[
    ("op", &[("NA", 1), ("LOAD", 2), ("STORE", 4), ("PFETCH", 8), ("EXEC", 16)]),
    (
        "lvl",
        &[
            ("NA", 1), ("HIT", 2), ("MISS", 4), ("L1", 8), ("LFB", 0x10), ("L2", 0x20), ("L3", 0x40), ("LOC_RAM", 0x80), ("REM_RAM1", 0x100),
            ("REM_RAM2", 0x200), ("REM_CCE1", 0x400), ("REM_CCE2", 0x800), ("IO", 0x1000), ("UNC", 0x2000),
        ],
    ),
    (
        "snoop",
        &[
            ("NA", 1 << 19), ("NONE", 2 << 19), ("HIT", 4 << 19), ("MISS", 8 << 19), ("HITM", 16 << 19), ("FWD", 1 << 38), ("PEER", 2 << 38),
        ],
    ),
    ("lock", &[("NA", 1), ("LOCKED", 2)]),
    ("dtlb", &[("NA", 1), ("HIT", 2), ("MISS", 4), ("L1", 8), ("L2", 0x10), ("WK", 0x20), ("OS", 0x40)]),
    (
        "lvl_num",
        &[
            ("L1", 1), ("L2", 2), ("L3", 3), ("L4", 4), ("UNC", 8), ("CXL", 9), ("IO", 10), ("ANY_CACHE", 11), ("LFB", 12), ("RAM", 13),
            ("PMEM", 14), ("NA", 15),
        ],
    ),
    ("remote", &[("false", 0), ("true", 1)]),
    ("blk", &[("NA", 1), ("DATA", 2), ("ADDR", 4)]),
    ("hops", &[]),
];

/// A value printed as names and numbers: together they are exactly the value.
fn symbols(path: &str, names: Names, want: u64, d: &D) -> R {
    let D::Tok(t) = unwrap_tuple(d) else { bail!("{path} is not printed as names or a number: {d:?}") };
    let mut got = 0;
    for w in t.split('|') {
        let w = w.rsplit("::").next().unwrap();
        let v = match w.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok(),
            None => w.parse().ok().or_else(|| names.iter().find(|x| x.0 == w).map(|x| x.1)),
        };
        let Some(v) = v else { bail!("{path} prints `{w}`, which is neither a number nor a name for one of its values") };
        got |= v;
    }
    ensure!(got == want, "{path} prints as `{t}`, which is {got:#x}; the value is {want:#x}");
    Ok(())
}

/// The names of a field's values, if it is printed symbolically.
fn symbolic(ty: &str, k: &str) -> Option<Names> {
    Some(match (ty, k) {
        (_, "ksym_type") => KSYM,
        (_, "transaction") => TXN,
        (_, "abi") => ABI,
        ("KSymbol", "flags") => KSYM_FLAGS,
        ("Aux", "flags") => AUX,
        ("Bpf", "ty") => BPF,
        _ => return None,
    })
}

/// Derived observations that are not fields of their own.
fn derived(k: &str) -> bool {
    k.starts_with("ns_") || matches!(k, "filename_os" | "pmu_format")
}

fn unwrap_tuple(d: &D) -> &D {
    match d {
        D::Tuple(v) if v.len() == 1 => unwrap_tuple(&v[0]),
        d => d,
    }
}

fn find<'d>(d: &'d D, name: &str) -> Option<&'d D> {
    match d {
        D::Struct(f) => f.iter().find(|x| x.0 == name).map(|x| &x.1).or_else(|| f.iter().find_map(|x| find(&x.1, name))),
        D::Tuple(v) => v.iter().find_map(|x| find(x, name)),
        _ => None,
    }
}

fn text(path: &str, want: &[u8], d: &D) -> R {
    let D::Str(got, esc) = d else { bail!("{path} is not printed as one quoted string") };
    ensure!(got == want, "{path} prints as a string that decodes to {} instead of {}", hex(got), hex(want));
    let mut pos = 0;
    for ch in want.utf8_chunks() {
        for c in ch.valid().chars() {
            if c.is_alphanumeric() && c.escape_debug().eq([c]) {
                ensure!(!esc[pos], "{path}: the readable character {c:?} is escaped");
            }
            pos += c.len_utf8();
        }
        pos += ch.invalid().len();
    }
    Ok(())
}

fn cmp(ty: &str, path: &str, want: &V, d: &D, n: &mut u32) -> R {
    match want {
        V::S("Switch", _) => Ok(()),
        V::S(name, fs) => {
            let D::Struct(got) = unwrap_tuple(d) else { bail!("{path} ({name}) does not print its fields: {d:?}") };
            let mut left: Vec<&str> = got.iter().map(|x| x.0.as_str()).collect();
            for (k, v) in fs {
                if derived(k) {
                    continue;
                }
                let p = format!("{path}.{k}");
                let at = left.iter().position(|x| x == k);
                if *v == V::N {
                    ensure!(at.is_none(), "{p} is absent but printed");
                    continue;
                }
                let Some(at) = at else { bail!("{p} is present but not printed") };
                left.remove(at);
                *n += 1;
                let d = &got.iter().find(|x| x.0 == *k).unwrap().1;
                if let (Some(names), V::U(v)) = (symbolic(name, k), v) {
                    symbols(&p, names, *v, d)?;
                    continue;
                }
                if let ("data_src", V::S(_, wf)) = (*k, v) {
                    for ((k, v), (k2, names)) in wf.iter().zip(DATA_SRC) {
                        assert!(k == k2);
                        let V::U(v) = v else { unreachable!() };
                        let k = format!("mem_{k}");
                        let Some(x) = find(d, &k) else { bail!("{p}.{k} is not printed") };
                        symbols(&format!("{p}.{k}"), names, *v, x)?;
                    }
                    continue;
                }
                match (*k, v) {
                    ("filename" | "comm" | "name" | "path", V::B(b)) => text(&p, b, d)?,
                    ("build_id", V::B(b)) => {
                        let t = match d {
                            D::Tok(t) => t.clone(),
                            D::Str(s, _) => String::from_utf8_lossy(s).to_string(),
                            _ => bail!("{p} is not printed as hex digits: {d:?}"),
                        };
                        let want: String = b.iter().map(|x| format!("{x:02x}")).collect();
                        let t2 = t.strip_prefix("0x").unwrap_or(&t).to_lowercase();
                        ensure!(t2 == want, "{p} prints as `{t}`, the bytes are {want}");
                    }
                    ("lbr", V::L(l)) => {
                        let D::List(g) = d else { bail!("{p} is not printed as a list") };
                        ensure!(g.len() == l.len(), "{p} prints {} entries of {}", g.len(), l.len());
                        for (i, (w, x)) in l.iter().zip(g).enumerate() {
                            let V::S(_, wf) = w else { unreachable!() };
                            for (k, v) in wf.iter().take(2) {
                                let V::U(v) = v else { unreachable!() };
                                let Some(dd) = find(x, k) else { bail!("{p}[{i}].{k} is not printed") };
                                ensure!(int(&p, dd)? == *v, "{p}[{i}].{k} prints as {dd:?}, the value is {v}");
                            }
                        }
                    }
                    _ => cmp(name, &p, v, d, n)?,
                }
            }
            ensure!(left.is_empty(), "{path} prints fields it does not have: {left:?}");
            Ok(())
        }
        V::U(v) => {
            let g = int(path, d)?;
            ensure!(g == *v, "{path} prints as {g}, the value is {v}");
            Ok(())
        }
        V::B(b) => {
            let D::List(l) = d else { bail!("{path} is not printed as a list of bytes") };
            ensure!(l.len() == b.len(), "{path} prints {} bytes of {}", l.len(), b.len());
            for (i, (x, y)) in l.iter().zip(b).enumerate() {
                ensure!(int(path, x)? == *y as u64, "{path}[{i}] prints as {x:?}, the byte is {y}");
            }
            Ok(())
        }
        V::W(w) => {
            let D::List(l) = d else { bail!("{path} is not printed as a list") };
            ensure!(l.len() == w.len(), "{path} prints {} values of {}", l.len(), w.len());
            for (i, (x, y)) in l.iter().zip(w).enumerate() {
                ensure!(int(path, x)? == *y, "{path}[{i}] prints as {x:?}, the value is {y}");
            }
            Ok(())
        }
        V::L(l) => {
            let D::List(g) = d else { bail!("{path} is not printed as a list") };
            ensure!(g.len() == l.len(), "{path} prints {} items of {}", g.len(), l.len());
            for (i, (x, y)) in l.iter().zip(g).enumerate() {
                cmp(ty, &format!("{path}[{i}]"), x, y, n)?;
            }
            Ok(())
        }
        V::N => Ok(()),
    }
}

fn check(what: &str, want: &V, printed: String, n: &mut u32) -> R {
    let d = read(&printed).map_err(|m| format!("{what}: {m}"))?;
    cmp("", what, want, &d, n).map_err(|m| {
        let mut s = printed;
        let mut k = s.len().min(400);
        while !s.is_char_boundary(k) {
            k -= 1
        }
        s.truncate(k);
        format!("{m}; printed {s}")
    })
}

pub fn case(cx: &mut Cx) -> R {
    let mut c = genrec::cfg(&mut cx.g);
    const NAMED: &[u32] = &[rt::MMAP, rt::COMM, rt::MMAP2, rt::KSYMBOL, rt::CGROUP];
    let ty = if cx.g.pct(40) { cx.g.pick(NAMED) } else { genrec::any_type(&mut cx.g) };
    let size = if cx.g.pct(93) { Size::Small } else { Size::Any };
    let mut r = genrec::rec(&mut cx.g, ty, &mut c, size);
    if NAMED.contains(&ty) && cx.g.pct(60) {
        let n = cx.g.len(40);
        let mut t = cx.g.tricky_text(n);
        if t.last() == Some(&0) {
            *t.last_mut().unwrap() = b'"';
        }
        match &mut r.body {
            Body::Mmap { name, .. } | Body::Comm { name, .. } | Body::Mmap2 { name, .. } | Body::KSymbol { name, .. } | Body::CGroup { name, .. } => *name = t,
            _ => {}
        }
    }
    let e = AnyEndian::pick(&mut cx.g);
    let enc = r.encode(&c, e.big());
    let plan = if cx.g.pct(25) { Plan::gen_split(&mut cx.g, enc.bytes.len()) } else { Plan::Slice };
    cx.cfg_fp(&c);
    cx.fp(&enc.bytes);
    cx.label(genrec::ty_name(ty));
    let want = r.tree(&c);
    let mw = r.meta_tree(&c);
    let mut n = 0;
    let mut shown = String::new();
    let both = enc.bytes.len() < 2000;
    let pretty_only = cx.g.bool();
    if known::hit(e, || drop(decode_record(&enc.bytes, &c, e.big()))) {
        return masked(cx);
    }
    let res = with_source!(&plan, &enc.bytes[..], None, b => {
        let mut p = Parser::new(b, obs::config(&c, e));
        (|| -> R {
            let rec = match p.parse::<Record>() {
                Ok(r) => r,
                Err(x) => bail!("valid record does not parse: {}", err_text(&x)),
            };
            if both || !pretty_only {
                shown = format!("{rec:?}");
                check("{:?} of the record", &want, shown.clone(), &mut n)?;
            }
            if both || pretty_only {
                check("{:#?} of the record", &want, format!("{rec:#?}"), &mut n)?;
            }
            // the parts on their own
            match &rec {
                Record::Sample(s) => {
                    let id = SampleId::from_sample(s);
                    let f = |k: &str| match &want { V::S(_, fs) => fs.iter().find(|x| x.0 == k).unwrap().1.clone(), _ => V::N };
                    let t = sid_tree(f("pid"), f("tid"), f("time"), f("id"), f("stream_id"), f("cpu"));
                    check("{:?} of the sample id", &t, format!("{id:?}"), &mut n)?;
                    check("{:?} of the sample", &want, format!("{s:?}"), &mut n)?;
                    if let Some(b) = s.lbr().and_then(|l| l.last()) {
                        let f = b.ty();
                        symbols("{:?} of the branch type", BRANCH, f.0 as u64, &read(&format!("{f:?}"))?)?;
                    }
                    if let Some(g) = s.values() {
                        check("{:?} of the counter group", &f("values"), format!("{g:?}"), &mut n)?;
                        if let Some(x) = g.entries().last() {
                            check("{:#?} of a group entry", &obs::entry(&x), format!("{x:#?}"), &mut n)?;
                        }
                        if let Some(x) = g.get(0) {
                            let v = ReadValue::from_group_and_entry(g, &x);
                            check("{:?} of a counter value", &obs::value(&v), format!("{v:?}"), &mut n)?;
                        }
                    }
                }
                Record::Read(x) => {
                    let V::S(_, fs) = &want else { unreachable!() };
                    check("{:?} of the counter value", &fs[2].1, format!("{:?}", x.values), &mut n)?;
                }
                Record::Aux(a) => {
                    let f = a.flags.pmu_format_type();
                    symbols("{:?} of the PMU format", PMU, f.0 as u64, &read(&format!("{f:?}"))?)?;
                }
                Record::Mmap2(m) => {
                    let t = m.to_mmap();
                    check("{:?} of the MMAP equivalent", &obs::mmap(&t), format!("{t:?}"), &mut n)?;
                }
                _ => {}
            }
            Ok(())
        })()
    });
    cx.say(|| format!("{} as {e:?}: {shown}", genrec::ty_name(ty)));
    res?;
    // the flags of the configuration
    let f = SampleFlags::from_bits_retain(c.sample_type);
    symbols("{:?} of the sample flags", st::NAMES, c.sample_type, &read(&format!("{f:?}"))?)?;
    let f = ReadFormat::from_bits_retain(c.read_format);
    symbols("{:?} of the read format", READ_FORMAT, c.read_format, &read(&format!("{f:?}"))?)?;
    // metadata
    let mut p = Parser::new(&enc.bytes[..], obs::config(&c, e));
    match p.parse_metadata() {
        Ok((_, m)) => {
            check("{:?} of the metadata", &mw, format!("{m:?}"), &mut n)?;
            check("{:#?} of the sample id", &obs::sid(m.sample_id()), format!("{:#?}", m.sample_id()), &mut n)?;
        }
        Err(x) => bail!("valid record's metadata does not parse: {}", err_text(&x)),
    }
    cx.nontrivial = n >= 2;
    Ok(())
}

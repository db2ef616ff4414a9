//! Choice-sequence generation engine.
//!
//! A test case is a pure function of a finite sequence of integers
//! ("choices").  In search mode the sequence comes from a PRNG seeded from
//! (VERIF_SEED, property, case index); in replay and shrink mode it comes from
//! a recorded sequence, padded with zeros.  Zero is always the simplest choice,
//! so shrinking works on the sequence (delete, zero, minimise) and every
//! generator shrinks for free.

/// Keep every generated length tiny (for Miri).
pub fn tiny() -> bool {
    TINY.load(std::sync::atomic::Ordering::Relaxed)
}
pub static TINY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub struct G {
    pub choices: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    log: Option<std::fs::File>,
    /// the number drawn last
    last: u64,
    /// coverage-guided: the bytes that choices are read from
    input: Option<(Vec<u8>, usize)>,
    /// the bytes from which `fuzz` would read the choices made
    encoded: Option<Vec<u8>>,
}

/// Numbers that mean something in this context.
const WELL_KNOWN: &[u64] = &[
    // PERF_CONTEXT_*
    -32i64 as u64, -128i64 as u64, -512i64 as u64, -2048i64 as u64, -2176i64 as u64, -2560i64 as u64, -4095i64 as u64, -4096i64 as u64,
    // addresses: vsyscall, the ends of the canonical ranges, kernel text and modules
    0xffff_ffff_ff60_0000, 0x7fff_ffff_ffff, 0x8000_0000_0000, 0xffff_7fff_ffff_ffff, 0xffff_8000_0000_0000, 0xffff_ffff_8000_0000,
    0xffff_ffff_8100_0000, 0xffff_ffff_c000_0000, 0x40_0000, 0x7fff_f7fc_1000, 0x7fff_ffff_f000,
    // page sizes, seconds
    0x1000, 0x4000, 0x1_0000, 0x20_0000, 0x4000_0000, 1_000, 1_000_000, 1_000_000_000,
    // the inodes of the initial namespaces, pid limits
    0xf000_0000, 0xefff_ffff, 0xefff_fffe, 0xefff_fffd, 0xefff_fffc, 0xefff_fffb, 0x7fff, 0x8000, 0x40_0000,
    0xdead_beef, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xff, 0xffff, 0x100,
];

/// How many input bytes a choice in 0..=max takes.
fn width(max: u64) -> usize {
    match max {
        0 => 0,
        1..=0xff => 1,
        0x100..=0xffff => 2,
        0x1_0000..=0xffff_ffff => 4,
        _ => 8,
    }
}

/// Literals of the code under test: numbers and byte strings. Only a bias of
/// the random search; the choices made hold the values themselves.
pub struct Literals {
    nums: Vec<u64>,
    strs: Vec<Vec<u8>>,
}

pub static LITERALS: std::sync::OnceLock<Literals> = std::sync::OnceLock::new();

/// From a file with lines `n NUMBER` and `s HEX`.
pub fn load_literals(path: &str) {
    let (mut nums, mut strs) = (vec![], vec![]);
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(x) = l.strip_prefix("n ").and_then(|x| x.parse().ok()) {
            nums.push(x)
        }
        if let Some(x) = l.strip_prefix("s ") {
            strs.push((0..x.len() / 2).filter_map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect::<Vec<u8>>())
        }
    }
    let _ = LITERALS.set(Literals { nums, strs });
}

impl G {
    /// Write every choice to a file as it is made (for cases that kill the
    /// process).
    pub fn log_to(&mut self, path: &str) {
        self.log = Some(std::fs::File::create(path).expect("cannot create the choice log"));
    }
    pub fn random(seed: u64) -> Self {
        G { choices: Vec::with_capacity(64), pos: 0, rng: Some(Rng::new(seed)), log: None, last: 0, input: None, encoded: None }
    }
    /// Choices are read from these bytes, then zero (coverage-guided search).
    pub fn fuzz(input: &[u8]) -> Self {
        G { choices: Vec::with_capacity(64), pos: 0, rng: None, log: None, last: 0, input: Some((input.to_vec(), 0)), encoded: None }
    }
    pub fn fuzzing(&self) -> bool {
        self.input.is_some()
    }
    /// Also keep the choices as input for `fuzz`.
    pub fn encode(&mut self) {
        self.encoded = Some(vec![]);
    }
    pub fn encoded(&self) -> &[u8] {
        self.encoded.as_deref().unwrap_or(&[])
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        G { choices, pos: 0, rng: None, log: None, last: 0, input: None, encoded: None }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.choices.len())
    }

    fn made(&mut self, v: u64) -> u64 {
        self.choices.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    /// Uniform in 0..=max.
    pub fn upto(&mut self, max: u64) -> u64 {
        self.upto_or(max, None)
    }

    /// Whether choices are being made at random now; then a number to choose with.
    fn dice(&mut self) -> Option<u64> {
        if self.pos < self.choices.len() {
            return None;
        }
        self.rng.as_mut().map(|r| r.next())
    }

    /// A number that stands in the code, if one is wanted here.
    fn literal(&mut self, pct: u64) -> Option<u64> {
        let nums = &LITERALS.get()?.nums;
        let d = self.dice()?;
        if nums.is_empty() || d % 100 >= pct {
            return None;
        }
        let x = nums[(d >> 32) as usize % nums.len()];
        Some(match d >> 8 & 7 {
            // in ranges that begin or end there
            0 => x.wrapping_add(d >> 12 & 0xfff),
            1 => x.wrapping_sub(d >> 12 & 0xff),
            _ => x,
        })
    }

    /// A byte string around one that stands in the code.
    fn literal_str(&mut self) -> Option<Vec<u8>> {
        let strs = &LITERALS.get()?.strs;
        let d = self.dice()?;
        if strs.is_empty() {
            return None;
        }
        let s = &strs[(d >> 32) as usize % strs.len()];
        let n = (d >> 8) as usize % 6;
        let x: Vec<u8> = (0..n).map(|i| b'a' + ((d >> (12 + i)) % 26) as u8).collect();
        Some(match d % 4 {
            0 | 1 => s.clone(),
            2 => [&s[..], &x].concat(),
            _ => [&x, &s[..]].concat(),
        })
    }

    /// As `upto`; a random choice is `want`.
    fn upto_or(&mut self, max: u64, want: Option<u64>) -> u64 {
        let v = if self.pos < self.choices.len() {
            let v = self.choices[self.pos];
            if v > max {
                v % (max + 1)
            } else {
                v
            }
        } else if let Some(rng) = &mut self.rng {
            let v = match want {
                Some(v) => v.min(max),
                None => {
                    let r = rng.next();
                    if max == u64::MAX { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 }
                }
            };
            if let Some(e) = &mut self.encoded {
                e.extend_from_slice(&v.to_le_bytes()[..width(max)]);
            }
            self.made(v)
        } else if let Some((input, at)) = &mut self.input {
            let n = width(max).min(input.len() - *at);
            let mut b = [0; 8];
            b[..n].copy_from_slice(&input[*at..*at + n]);
            *at += n;
            let v = u64::from_le_bytes(b);
            let v = if v > max { v % (max + 1) } else { v };
            self.made(v)
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.upto(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    /// True with probability pct/100; shrinks towards false.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.upto(99) >= 100 - pct
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights; index 0 is the shrink target.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.upto(total - 1);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }

    fn val(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = self.val_of(bits, max);
        self.last = v;
        v
    }

    fn val_of(&mut self, bits: u32, max: u64) -> u64 {
        match self.weighted(&[12, 48, 10, 8, 8, 6, 6, 4, 3]) {
            // the value drawn before, as when a thread is its process
            7 => self.last & max,
            8 => self.pick(WELL_KNOWN) & max,
            0 => self.upto(17),
            1 => {
                let lit = self.literal(6).map(|x| x & max);
                self.upto_or(max, lit)
            }
            // a single bit
            2 => 1u64 << self.upto(bits as u64 - 1),
            // just below / above a power of two
            3 => {
                let b = self.upto(bits as u64 - 1);
                let d = self.upto(2);
                (1u64 << b).wrapping_add(d).wrapping_sub(1) & max
            }
            4 => max - self.upto(3),
            // all bits but one
            5 => max ^ (1u64 << self.upto(bits as u64 - 1)),
            // distinct bytes
            6 => {
                let b = self.upto(247);
                let mut v = 0u64;
                for i in 0..8 {
                    v |= ((b + i) & 0xff) << (8 * i);
                }
                v & max
            }
            _ => unreachable!(),
        }
    }
    pub fn u64(&mut self) -> u64 {
        self.val(64)
    }
    pub fn u32(&mut self) -> u32 {
        self.val(32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        self.val(16) as u16
    }
    pub fn u8(&mut self) -> u8 {
        self.val(8) as u8
    }

    /// A length in 0..=max: often tiny, sometimes close to max.
    pub fn len(&mut self, max: usize) -> usize {
        let max = if TINY.load(std::sync::atomic::Ordering::Relaxed) { max.min(24) } else { max };
        if max == 0 {
            return 0;
        }
        match self.weighted(&[40, 30, 17, 6, 4, 3, 2]) {
            6 => {
                let lit = self.literal(100).map(|x| x % (max as u64 + 1));
                self.upto_or(max as u64, lit) as usize
            }
            0 => self.upto(max.min(8) as u64) as usize,
            1 => self.upto(max.min(40) as u64) as usize,
            2 => self.upto(max.min(300) as u64) as usize,
            // around powers of two
            3 => {
                let b = self.upto(12);
                let d = self.upto(2) as usize;
                ((1usize << b) + d).saturating_sub(1).min(max)
            }
            4 => self.upto(max.min(5000) as u64) as usize,
            // anything up to the maximum
            _ => self.upto(max as u64) as usize,
        }
    }

    /// Bytes of the given length; content style and seed are single choices.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n);
        if n == 0 {
            return out;
        }
        // (short ones may also be spelled out, so that a coverage-guided search
        // can find what the code compares them with)
        match self.weighted(&[30, 50, 10, 10, 10, if n <= 24 { 5 } else { 0 }]) {
            5 => {
                let lit = self.literal_str().unwrap_or_default();
                for i in 0..n {
                    let x = self.upto_or(255, lit.get(i).map(|x| *x as u64));
                    out.push(x as u8)
                }
            }
            // distinct, ascending
            0 => {
                let s = self.upto(255) as usize;
                out.extend((0..n).map(|i| (s + 1 + i * 7) as u8));
            }
            1 => {
                let mut r = Rng::new(self.upto(u64::MAX));
                while out.len() < n {
                    let v = r.next().to_le_bytes();
                    let k = (n - out.len()).min(8);
                    out.extend_from_slice(&v[..k]);
                }
            }
            2 => out.resize(n, 0),
            3 => out.resize(n, 0xff),
            // sparse: zeros with some random bytes
            _ => {
                let mut r = Rng::new(self.upto(u64::MAX));
                out.extend((0..n).map(|_| {
                    let v = r.next();
                    if v & 7 == 0 {
                        (v >> 8) as u8
                    } else {
                        0
                    }
                }));
            }
        }
        out
    }

    pub fn u64s(&mut self, n: usize) -> Vec<u64> {
        if n <= 4 || n <= 24 && self.pct(15) {
            return (0..n).map(|_| self.u64()).collect();
        }
        let b = self.bytes(n * 8);
        b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
    }

    /// A name as it may appear in a record: any bytes, not ending in NUL.
    pub fn name(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        const KNOWN: &[&[u8]] = &[
            b"//anon", b"[vdso]", b"[vsyscall]", b"[heap]", b"[stack]", b"[kernel.kallsyms]_text", b"[anon:x]",
            b"/memfd:x (deleted)", b"/usr/lib/x86_64-linux-gnu/libc.so.6", b"bpf_prog_6deef7357e7b4530", b"/", b"/system.slice",
            b"swapper", b":1234", b"kworker/0:1-events", b"swapper/0", b"/init.scope", b"bpf_trampoline_6442536467", b"bpf_dispatcher_xdp", b"perf-exec", b"/dev/zero", b".", b"..",
        ];
        let mut v = match self.weighted(&[40, 30, 30, 8, 4]) {
            // spelled out
            4 => {
                let lit = self.literal_str();
                let n = self.upto_or(96.min(max) as u64, lit.as_ref().map(|x| x.len() as u64)) as usize;
                (0..n).map(|i| self.upto_or(255, lit.as_ref().and_then(|l| l.get(i)).map(|x| *x as u64)) as u8).collect()
            }
            3 => {
                let mut v = self.pick(KNOWN).to_vec();
                v.truncate(max);
                v
            }
            0 => {
                let s = self.upto(25) as usize;
                (0..n).map(|i| b'a' + ((s + i * 5) % 26) as u8).collect()
            }
            1 => self.bytes(n),
            _ => self.tricky_text(n),
        };
        if let Some(l) = v.last_mut() {
            if *l == 0 {
                *l = b'/';
            }
        }
        v
    }

    /// Byte strings that stress UTF-8 and escaping.
    pub fn tricky_text(&mut self, n: usize) -> Vec<u8> {
        const PARTS: &[&[u8]] = &[
            b"a", b"/lib/x.so", b"[heap]", b"\"", b"'", b"\\", b"\n", b"\t", b"\0", b"\r", b"\x1b", b"\x7f",
            "é".as_bytes(), "日本".as_bytes(), "😀".as_bytes(), "\u{301}".as_bytes(), "\u{200b}".as_bytes(),
            "\u{feff}".as_bytes(), "\u{10ffff}".as_bytes(), b"\x80", b"\xbf", b"\xc3", b"\xe6\x97", b"\xf0\x9f\x98",
            b"\xc0\xaf", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xff", b"\\x41", b"\\u{41}", b"{}", b"%s",
        ];
        let mut v = Vec::new();
        while v.len() < n {
            let p = if n > 64 {
                // keep long texts cheap
                PARTS[(v.len() * 7 + 3) % PARTS.len()]
            } else {
                self.pick(PARTS)
            };
            v.extend_from_slice(p);
        }
        v.truncate(n);
        v
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(b) ^ ((c.len() as u64) << 56));
    }
    h
}
pub fn fnv_u64s(data: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in data {
        h = mix(h ^ c);
    }
    h
}

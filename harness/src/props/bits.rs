//! C16: flag words and bitfields against the kernel's bit layout.

use super::Prop;
use crate::gen::G;
use crate::genrec::{self, Size};
use crate::model::*;
use crate::known;
use crate::obs;
use crate::run::*;
use crate::source::*;
use perf_event_data::endian::{Big, Native};
use perf_event_data::parse::{Parse, ParseConfig, Parser};
use perf_event_data::*;

pub const C16: Prop = Prop {
    id: "C16",
    case,
    quick: 15_000_000,
    thorough: 400_000_000,
    rule: "nine kinds of word (and 8 %: pairs of words, as each type, for equality and hash); half of the cases draw the zero word, a single bit or all bits but one (each such word occurs many times \
           in every byte order), the rest arbitrary words. Each word is parsed in its real position (bare and inside a record) and every accessor, \
           constant and enum value is compared with the kernel's numbering. Non-trivial: the word is not zero.",
};

fn parse<T: for<'p> Parse<'p>>(word: u64, width: usize, e: AnyEndian) -> Result<T, String> {
    let mut en = Enc::new(e.big());
    match width {
        1 => en.u8(word as u8),
        2 => en.u16(word as u16),
        4 => en.u32(word as u32),
        _ => en.u64(word),
    }
    let mut p = Parser::new(&en.out[..], obs::config(&Cfg::default(), e));
    let v = p.parse::<T>().map_err(|x| format!("word {word:#x} does not parse: {}", err_text(&x)))?;
    if p.parse_u8().is_ok() {
        return Err(format!("word {word:#x}: not all bytes consumed"));
    }
    Ok(v)
}

macro_rules! consts {
    ($w:expr, $shift:expr, $bits:expr; $got:expr; $t:ident { $($n:ident = $v:expr),* $(,)? }) => {{
        let got: $t = $got;
        // constants have the kernel's numbers
        $( ensure!($t::$n.bits() == ($v as u64 as _), "{}::{} is {:#x}, the kernel says {:#x}", stringify!($t), stringify!($n), $t::$n.bits(), $v as u64); )*
        // each flag is reported exactly when its bit is set
        $( {
            let want = ($w as u64 >> $shift) & ($bits as u64) & ($v as u64) == ($v as u64);
            ensure!(got.contains($t::$n) == want, "word {:#x}: contains({}::{}) is {}", $w as u64, stringify!($t), stringify!($n), !want);
        } )*
    }};
}

macro_rules! codes {
    ($got:expr, $raw:expr; $t:ident { $($n:ident = $v:expr),* $(,)? }) => {{
        let got: $t = $got;
        ensure!(got.0 as u64 == $raw as u64, "{} decoded as {:#x}, encoded {:#x}", stringify!($t), got.0 as u64, $raw as u64);
        $(
            ensure!($t::$n.0 as u64 == $v as u64, "{}::{} is {:#x}, the kernel says {:#x}", stringify!($t), stringify!($n), $t::$n.0 as u64, $v as u64);
            ensure!((got == $t::$n) == ($raw as u64 == $v as u64), "value {:#x}: comparison with {}::{} is wrong", $raw as u64, stringify!($t), stringify!($n));
            ensure!($t::new($raw as _) == got, "{}::new({:#x}) differs from the parsed value", stringify!($t), $raw as u64);
        )*
    }};
}

fn data_source(w: u64, d: DataSource) -> R {
    same(&format!("data source {w:#x}"), &data_src_tree(w), &obs::data_src(&d))?;
    consts!(w, 0, 0x1f; d.mem_op(); MemOp { NA = 1, LOAD = 2, STORE = 4, PFETCH = 8, EXEC = 16 });
    consts!(w, 5, 0x3fff; d.mem_lvl(); MemLevel {
        NA = 1, HIT = 2, MISS = 4, L1 = 8, LFB = 0x10, L2 = 0x20, L3 = 0x40, LOC_RAM = 0x80, REM_RAM1 = 0x100,
        REM_RAM2 = 0x200, REM_CCE1 = 0x400, REM_CCE2 = 0x800, IO = 0x1000, UNC = 0x2000
    });
    consts!(w, 0, u64::MAX; d.mem_snoop(); MemSnoop {
        NA = 1u64 << 19, NONE = 2u64 << 19, HIT = 4u64 << 19, MISS = 8u64 << 19, HITM = 0x10u64 << 19, FWD = 1u64 << 38, PEER = 2u64 << 38
    });
    consts!(w, 24, 3; d.mem_lock(); MemLock { NA = 1, LOCKED = 2 });
    consts!(w, 26, 0x7f; d.mem_dtlb(); MemDtlb { NA = 1, HIT = 2, MISS = 4, L1 = 8, L2 = 0x10, WK = 0x20, OS = 0x40 });
    consts!(w, 40, 7; d.mem_blk(); MemBlk { NA = 1, DATA = 2, ADDR = 4 });
    codes!(d.mem_lvl_num(), (w >> 33) & 0xf; MemLevelNum {
        L1 = 1, L2 = 2, L3 = 3, L4 = 4, ANY_CACHE = 0xb, LFB = 0xc, RAM = 0xd, PMEM = 0xe, NA = 0xf
    });
    // the combined snoop type built by hand
    let s = MemSnoop::new((w >> 19) & 0x1f, (w >> 38) & 3);
    ensure!(s == d.mem_snoop(), "MemSnoop::new differs from the decoded snoop field for {w:#x}");
    let s = MemSnoop::new(w >> 19, w >> 38);
    ensure!(s == d.mem_snoop(), "MemSnoop::new({:#x}, {:#x}) lets neighbouring bits in", w >> 19, w >> 38);
    consts!(w, 38, 3; MemSnoopX::from_bits_retain((w >> 38) & 3); MemSnoopX { FWD = 1, PEER = 2 });
    Ok(())
}

fn branch(b: &Branch, x: &BranchEntry) -> R {
    same(&format!("branch entry with flags {:#x}", b.2), &branch_tree(b), &obs::branch(x))?;
    codes!(x.ty(), (b.2 >> 20) & 0xf; BranchType {
        UNKNOWN = 0, COND = 1, UNCOND = 2, IND = 3, CALL = 4, IND_CALL = 5, RET = 6, SYSCALL = 7, COND_CALL = 9, COND_RET = 10
    });
    Ok(())
}

fn txn(w: u64, t: Txn) -> R {
    ensure!(t.bits() == w, "transaction word {w:#x} became {:#x}", t.bits());
    ensure!(t.abort() == (w >> 32) as u32, "abort code of {w:#x} is {:#x}", t.abort());
    consts!(w, 0, u64::MAX; t; Txn {
        ELISION = 1, TRANSACTION = 2, SYNC = 4, ASYNC = 8, RETRY = 16, CONFLICT = 32, CAPACITY_WRITE = 64, CAPACITY_READ = 128,
        ABORT_MASK = 0xffff_ffff_0000_0000u64
    });
    Ok(())
}

fn aux(w: u64, f: AuxFlags) -> R {
    ensure!(f.bits() == w, "aux flags {w:#x} became {:#x}", f.bits());
    consts!(w, 0, u64::MAX; f; AuxFlags { TRUNCATED = 1, OVERWRITE = 2, PARTIAL = 4, COLLISION = 8, PMU_FORMAT_MASK = 0xff00 });
    codes!(f.pmu_format_type(), (w >> 8) & 0xff; AuxPmuFormatType { CORESIGHT = 0, CORESIGHT_RAW = 1 });
    Ok(())
}

/// Parse a record body holding the word and hand it to `f`.
fn in_record(g: &mut G, c: &Cfg, e: AnyEndian, body: Body, f: impl FnOnce(&Record) -> R) -> R {
    let r = Rec { misc: 0, body, sid: SidM::default(), surplus: vec![] };
    let enc = r.encode(c, e.big());
    let off = g.below(8);
    let buf = known::place(e, &enc.bytes, off, |b| drop(decode_record(b, c, e.big()))).expect("aligned when placed at an aligned address");
    let mut p = Parser::new(buf.get(), obs::config(c, e));
    let out = match p.parse::<Record>() {
        Ok(r) => f(&r),
        Err(x) => Err(format!("record does not parse: {}", err_text(&x))),
    };
    out
}

const KINDS: usize = 9;
const WIDTHS: [u32; KINDS] = [64, 64, 64, 64, 16, 16, 64, 64, 64];

/// Equal exactly when the words are, and then with equal hashes.
fn compared<T: PartialEq + std::hash::Hash>(name: &str, width: u32, (a, b): (u64, u64), mk: impl Fn(u64) -> T) -> R {
    use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher};
    let mask = u64::MAX >> (64 - width);
    let (a, b) = (a & mask, b & mask);
    let (x, y) = (mk(a), mk(b));
    ensure!((x == y) == (a == b), "{name}: {a:#x} == {b:#x} is {}", x == y);
    ensure!((x != y) == (a != b), "{name}: {a:#x} != {b:#x} is {}", x != y);
    let h = BuildHasherDefault::<DefaultHasher>::default();
    ensure!(a != b || h.hash_one(&x) == h.hash_one(&y), "{name}: {a:#x} has two hashes");
    Ok(())
}

fn compare(cx: &mut Cx) -> R {
    let a = cx.g.u64();
    let b = match cx.g.below(4) {
        0 => a,
        1 => a ^ 1 << cx.g.below(64),
        2 => a ^ 0xff << (8 * cx.g.below(8)),
        _ => cx.g.u64(),
    };
    cx.fpn(a);
    cx.fpn(b);
    cx.nontrivial = a != b;
    cx.label("comparison");
    cx.say(|| format!("comparisons of {a:#x} and {b:#x}"));
    macro_rules! flags { ($($t:ident: $w:literal),*) => { $( compared(stringify!($t), $w, (a, b), |x| $t::from_bits_retain(x as _))?; )* } }
    macro_rules! codes { ($($t:ident: $w:literal),*) => { $( compared(stringify!($t), $w, (a, b), |x| $t::new(x as _))?; )* } }
    flags!(SampleFlags: 64, ReadFormat: 64, AuxFlags: 64, KSymbolFlags: 16, Txn: 64, MemOp: 64, MemLevel: 64, MemSnoop: 64, MemSnoopX: 64, MemLock: 64, MemDtlb: 64, MemBlk: 64);
    codes!(SampleRegsAbi: 64, BranchType: 8, MemLevelNum: 8, AuxPmuFormatType: 8, BpfEventType: 16, KSymbolType: 16);
    let z = cx.g.u64();
    compared("NamespaceEntry with that device", 64, (a, b), |dev| NamespaceEntry { dev, inode: z })?;
    compared("NamespaceEntry with that inode", 64, (a, b), |inode| NamespaceEntry { dev: z, inode })
}

pub fn case(cx: &mut Cx) -> R {
    if cx.g.pct(8) {
        return compare(cx);
    }
    let kind = cx.g.below(KINDS);
    let bits = WIDTHS[kind];
    let max = u64::MAX >> (64 - bits);
    let w = match cx.g.weighted(&[1, 3, 2, 5]) {
        0 => 0,
        1 => 1u64 << cx.g.below(bits as usize),
        2 => max ^ (1u64 << cx.g.below(bits as usize)),
        _ => cx.g.u64() & max,
    };
    let e = AnyEndian::pick(&mut cx.g);
    check(cx, kind, w, e)
}

fn check(cx: &mut Cx, kind: usize, w: u64, e: AnyEndian) -> R {
    cx.nontrivial = w != 0;
    cx.fpn(w);
    cx.fpn(kind as u64);
    cx.fpn(e.big() as u64);
    let name = ["data source", "branch flags", "transaction", "aux flags", "ksymbol", "bpf type", "sample fields", "read format", "register abi"][kind];
    cx.label(name);
    cx.say(|| format!("{name} word {w:#x} as {e:?}"));
    let sampled = |f: u64| Cfg { sample_type: f, ..Cfg::default() };
    match kind {
        0 => {
            data_source(w, parse(w, 8, e)?)?;
            let c = sampled(st::DATA_SRC);
            let m = SampleM { data_src: w, ..Default::default() };
            in_record(&mut cx.g, &c, e, Body::Sample(Box::new(m)), |r| match r {
                Record::Sample(s) => data_source(w, s.data_src().ok_or("data source missing")?),
                _ => Err("not a sample".into()),
            })
        }
        1 => {
            let b: Branch = (cx.g.u64(), cx.g.u64(), w);
            let mut en = Enc::new(e.big());
            en.u64(b.0);
            en.u64(b.1);
            en.u64(b.2);
            let off = cx.g.below(8);
            let buf = Aligned::new(&en.out, off);
            let mut p = Parser::new(buf.get(), obs::config(&Cfg::default(), e));
            match p.parse::<BranchEntry>() {
                Ok(x) => branch(&b, &x)?,
                Err(x) => bail!("branch entry does not parse: {}", err_text(&x)),
            }
            // in a stack: copied and in-place paths
            let mut c = sampled(st::BRANCH_STACK);
            c.hw_index = cx.g.bool();
            let other: Branch = (1, 2, !w);
            let m = SampleM { lbr: vec![other, b, other], ..Default::default() };
            in_record(&mut cx.g, &c, e, Body::Sample(Box::new(m)), |r| match r {
                Record::Sample(s) => {
                    let l = s.lbr().ok_or("branch stack missing")?;
                    ensure!(l.len() == 3, "{} branch entries instead of 3", l.len());
                    branch(&other, &l[0])?;
                    branch(&b, &l[1])?;
                    branch(&other, &l[2])
                }
                _ => Err("not a sample".into()),
            })
        }
        2 => {
            txn(w, parse(w, 8, e)?)?;
            let m = SampleM { txn: w, ..Default::default() };
            in_record(&mut cx.g, &sampled(st::TRANSACTION), e, Body::Sample(Box::new(m)), |r| match r {
                Record::Sample(s) => txn(w, s.transaction().ok_or("transaction missing")?),
                _ => Err("not a sample".into()),
            })
        }
        3 => {
            aux(w, parse(w, 8, e)?)?;
            in_record(&mut cx.g, &Cfg::default(), e, Body::Aux { off: 1, size: 2, flags: w }, |r| match r {
                Record::Aux(a) => aux(w, a.flags),
                _ => Err("not an aux record".into()),
            })
        }
        4 => {
            let w2 = cx.g.u16();
            let check = |t: KSymbolType, f: KSymbolFlags, tw: u16, fw: u16| -> R {
                codes!(t, tw; KSymbolType { UNKNOWN = 0, BPF = 1, OOL = 2 });
                ensure!(f.bits() == fw, "ksymbol flags {fw:#x} became {:#x}", f.bits());
                ensure!(KSymbolFlags::UNREGISTER.bits() == 1, "UNREGISTER is {:#x}", KSymbolFlags::UNREGISTER.bits());
                ensure!(f.contains(KSymbolFlags::UNREGISTER) == (fw & 1 != 0), "ksymbol flags {fw:#x}: UNREGISTER wrong");
                Ok(())
            };
            check(parse(w, 2, e)?, parse(w2 as u64, 2, e)?, w as u16, w2)?;
            check(parse(w2 as u64, 2, e)?, parse(w, 2, e)?, w2, w as u16)?;
            let (t, f) = if cx.g.bool() { (w as u16, w2) } else { (w2, w as u16) };
            in_record(&mut cx.g, &Cfg::default(), e, Body::KSymbol { addr: 1, len: 2, ty: t, flags: f, name: vec![b'a'], pad: 7 }, |r| match r {
                Record::KSymbol(k) => check(k.ksym_type, k.flags, t, f),
                _ => Err("not a ksymbol record".into()),
            })
        }
        5 => {
            let check = |t: BpfEventType| -> R {
                codes!(t, w as u16; BpfEventType { UNKNOWN = 0, PROG_LOAD = 1, PROG_UNLOAD = 2 });
                Ok(())
            };
            check(parse(w, 2, e)?)?;
            let flags = cx.g.u16();
            in_record(&mut cx.g, &Cfg::default(), e, Body::Bpf { ty: w as u16, flags, id: 3, tag: [9; 8] }, |r| match r {
                Record::BpfEvent(b) => {
                    ensure!(b.flags == flags, "bpf flags {flags:#x} became {:#x}", b.flags);
                    check(b.ty)
                }
                _ => Err("not a bpf record".into()),
            })
        }
        6 => {
            macro_rules! flags { ($($n:ident),*) => {
                consts!(w, 0, u64::MAX; SampleFlags::from_bits_retain(w); SampleFlags { $($n = st::$n),* })
            } }
            flags!(IP, TID, TIME, ADDR, READ, CALLCHAIN, ID, CPU, PERIOD, STREAM_ID, RAW, BRANCH_STACK, REGS_USER, STACK_USER, WEIGHT,
                DATA_SRC, IDENTIFIER, TRANSACTION, REGS_INTR, PHYS_ADDR, AUX, CGROUP, DATA_PAGE_SIZE, CODE_PAGE_SIZE, WEIGHT_STRUCT);
            ensure!(SampleFlags::all().bits() == st::ALL, "SampleFlags::all() is {:#x}", SampleFlags::all().bits());
            // through a configuration: every supported bit arrives
            let c = Cfg { sample_type: w, ..Cfg::default() };
            let got = ParseConfig::<Native>::from(obs::attr(&c)).sample_type();
            ensure!(got.bits() & st::ALL == w & st::ALL, "sample_type {w:#x} became {:#x} in the configuration", got.bits());
            // and means the fields the kernel assigns to it
            let mut c = Cfg { sample_type: w & st::ALL, ..Cfg::default() };
            let r = genrec::rec(&mut cx.g, rt::SAMPLE, &mut c, Size::Tiny);
            let want = r.tree(&c);
            in_record(&mut cx.g, &c, e, r.body, |r| same("sample", &want, &obs::record(r)))
        }
        7 => {
            consts!(w, 0, u64::MAX; ReadFormat::from_bits_retain(w); ReadFormat {
                TOTAL_TIME_ENABLED = 1, TOTAL_TIME_RUNNING = 2, ID = 4, GROUP = 8, LOST = 16
            });
            ensure!(ReadFormat::all().bits() == rf::ALL, "ReadFormat::all() is {:#x}", ReadFormat::all().bits());
            let c = Cfg { read_format: w, ..Cfg::default() };
            let got = ParseConfig::<Native>::from(obs::attr(&c)).read_format();
            // bits without a meaning here need not be kept, but must not vanish
            ensure!(got.bits() & rf::ALL == w & rf::ALL && (got.bits() & !rf::ALL != 0) == (w & !rf::ALL != 0), "read_format {w:#x} became {:#x} in the configuration", got.bits());
            Ok(())
        }
        _ => {
            let check = |t: SampleRegsAbi| -> R {
                codes!(t, w; SampleRegsAbi { NONE = 0, ABI_32 = 1, ABI_64 = 2 });
                Ok(())
            };
            check(parse(w, 8, e)?)?;
            let mut c = sampled(st::REGS_USER | st::REGS_INTR);
            c.regs_user = 1;
            c.regs_intr = 1 << 63;
            let m = SampleM { regs_user: RegsM { abi: w, regs: vec![7] }, regs_intr: RegsM { abi: w, regs: vec![8] }, ..Default::default() };
            in_record(&mut cx.g, &c, e, Body::Sample(Box::new(m)), |r| match r {
                Record::Sample(s) => {
                    check(s.regs_user().ok_or("regs_user missing")?.abi)?;
                    check(s.regs_intr().ok_or("regs_intr missing")?.abi)
                }
                _ => Err("not a sample".into()),
            })
        }
    }
}

/// A big-endian kernel allocates the bitfields of perf_branch_entry from the
/// most significant bit; the library always counts from the least.
pub fn probes() -> Vec<(&'static str, String)> {
    let mut en = Enc::new(true);
    en.u64(0x1000);
    en.u64(0x2000);
    // mispred:1 is the first field, hence the top bit on a big-endian kernel
    en.u64(1 << 63);
    let mut p = Parser::new(&en.out[..], ParseConfig::<Native>::default().with_endian(Big));
    match p.parse::<BranchEntry>() {
        Ok(b) if b.mispred() => vec![],
        _ => vec![(
            "branch-flags-of-big-endian-kernel",
            "branch-stack flag bits recorded by a big-endian kernel (which allocates bitfields from the most significant bit, so mispred is bit 63) are decoded with little-endian bit positions: mispred() is false".into(),
        )],
    }
}

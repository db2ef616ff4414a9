//! Observation: library values to value trees through their public accessors.

use crate::model::*;
use crate::source::AnyEndian;
use perf_event_data::endian::{Endian, Native};
use perf_event_data::parse::ParseConfig;
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::os::unix::ffi::OsStrExt;

fn u(x: impl Into<u64>) -> V {
    V::U(x.into())
}
fn o<T: Into<u64>>(x: Option<T>) -> V {
    x.map_or(V::N, |x| V::U(x.into()))
}
fn b(x: &[u8]) -> V {
    V::B(x.to_vec())
}

pub fn sid(s: &SampleId) -> V {
    sid_tree(o(s.pid()), o(s.tid()), o(s.time()), o(s.id()), o(s.stream_id()), o(s.cpu()))
}

pub fn meta(m: &RecordMetadata) -> V {
    V::S("Meta", vec![("ty", u(m.ty())), ("misc", u(m.misc())), ("sample_id", sid(m.sample_id()))])
}

pub fn entry(e: &GroupEntry) -> V {
    V::S("Entry", vec![("value", u(e.value())), ("id", o(e.id())), ("lost", o(e.lost()))])
}

pub fn group(g: &ReadGroup) -> V {
    V::S("Group", vec![
        ("time_enabled", o(g.time_enabled())),
        ("time_running", o(g.time_running())),
        ("entries", V::L(g.entries().map(|e| entry(&e)).collect())),
    ])
}

pub fn value(r: &ReadValue) -> V {
    V::S("Value", vec![
        ("value", u(r.value())),
        ("time_enabled", o(r.time_enabled())),
        ("time_running", o(r.time_running())),
        ("id", o(r.id())),
        ("lost", o(r.lost())),
    ])
}

pub fn branch(x: &BranchEntry) -> V {
    V::S("Branch", vec![
        ("from", u(x.from())),
        ("to", u(x.to())),
        ("mispred", u(x.mispred())),
        ("predicted", u(x.predicted())),
        ("in_tx", u(x.in_tx())),
        ("abort", u(x.abort())),
        ("cycles", u(x.cycles())),
        ("type", u(x.ty().0)),
    ])
}

pub fn data_src(d: &DataSource) -> V {
    V::S("DataSrc", vec![
        ("op", u(d.mem_op().bits())),
        ("lvl", u(d.mem_lvl().bits())),
        ("snoop", u(d.mem_snoop().bits())),
        ("lock", u(d.mem_lock().bits())),
        ("dtlb", u(d.mem_dtlb().bits())),
        ("lvl_num", u(d.mem_lvl_num().0)),
        ("remote", u(d.mem_remote())),
        ("blk", u(d.mem_blk().bits())),
        ("hops", u(d.mem_hops())),
    ])
}

pub fn regs(r: &Registers) -> V {
    V::S("Regs", vec![("abi", u(r.abi.0)), ("mask", u(r.mask)), ("regs", V::W(r.regs.to_vec()))])
}

pub fn sample(s: &Sample) -> V {
    V::S("Sample", vec![
        ("ip", o(s.ip())),
        ("pid", o(s.pid())),
        ("tid", o(s.tid())),
        ("time", o(s.time())),
        ("addr", o(s.addr())),
        ("id", o(s.id())),
        ("stream_id", o(s.stream_id())),
        ("cpu", o(s.cpu())),
        ("period", o(s.period())),
        ("values", s.values().map_or(V::N, group)),
        ("callchain", s.callchain().map_or(V::N, |x| V::W(x.to_vec()))),
        ("raw", s.raw().map_or(V::N, b)),
        ("lbr_hw_index", o(s.lbr_hw_index())),
        ("lbr", s.lbr().map_or(V::N, |x| V::L(x.iter().map(branch).collect()))),
        ("regs_user", s.regs_user().map_or(V::N, regs)),
        ("stack_user", s.stack_user().map_or(V::N, b)),
        ("weight", o(s.weight())),
        ("data_src", s.data_src().map_or(V::N, |d| data_src(&d))),
        ("transaction", o(s.transaction().map(|t| t.bits()))),
        ("regs_intr", s.regs_intr().map_or(V::N, regs)),
        ("phys_addr", o(s.phys_addr())),
        ("aux", s.aux().map_or(V::N, b)),
        ("cgroup", o(s.cgroup())),
        ("data_page_size", o(s.data_page_size())),
        ("code_page_size", o(s.code_page_size())),
    ])
}

pub fn mmap(m: &Mmap) -> V {
    V::S("Mmap", vec![
        ("pid", u(m.pid)),
        ("tid", u(m.tid)),
        ("addr", u(m.addr)),
        ("len", u(m.len)),
        ("pgoff", u(m.pgoff)),
        ("filename_os", b(m.filename_os().as_bytes())),
        ("filename", b(&m.filename)),
    ])
}

pub fn mmap2(m: &Mmap2) -> V {
    V::S("Mmap2", vec![
        ("pid", u(m.pid)),
        ("tid", u(m.tid)),
        ("addr", u(m.addr)),
        ("len", u(m.len)),
        ("pgoff", u(m.pgoff)),
        ("maj", o(m.maj())),
        ("min", o(m.min())),
        ("ino", o(m.ino())),
        ("ino_generation", o(m.ino_generation())),
        ("build_id", m.build_id().map_or(V::N, b)),
        ("prot", u(m.prot)),
        ("flags", u(m.flags)),
        ("filename_os", b(m.filename_os().as_bytes())),
        ("filename", b(&m.filename)),
    ])
}

pub fn lost(x: &Lost) -> V {
    V::S("Lost", vec![("id", u(x.id)), ("lost", u(x.lost))])
}
pub fn comm(x: &Comm) -> V {
    // the OS-string view must show the same bytes
    let os = x.comm_os().as_bytes();
    let name = if os == &x.comm[..] { b(&x.comm) } else { V::L(vec![b(&x.comm), b(os)]) };
    V::S("Comm", vec![("pid", u(x.pid)), ("tid", u(x.tid)), ("comm", name)])
}
pub fn exit(name: &'static str, x: &Exit) -> V {
    V::S(name, vec![("pid", u(x.pid)), ("ppid", u(x.ppid)), ("tid", u(x.tid)), ("ptid", u(x.ptid)), ("time", u(x.time))])
}
pub fn throttle(name: &'static str, x: &Throttle) -> V {
    V::S(name, vec![("time", u(x.time)), ("id", u(x.id)), ("stream_id", u(x.stream_id))])
}
pub fn read(x: &Read) -> V {
    V::S("Read", vec![("pid", u(x.pid)), ("tid", u(x.tid)), ("values", value(&x.values))])
}
pub fn aux(x: &Aux) -> V {
    V::S("Aux", vec![
        ("aux_offset", u(x.aux_offset)),
        ("aux_size", u(x.aux_size)),
        ("flags", u(x.flags.bits())),
        ("pmu_format", u(x.flags.pmu_format_type().0)),
    ])
}
pub fn itrace(x: &ITraceStart) -> V {
    V::S("ITraceStart", vec![("pid", u(x.pid)), ("tid", u(x.tid))])
}
pub fn lost_samples(x: &LostSamples) -> V {
    V::S("LostSamples", vec![("lost", u(x.lost))])
}
pub fn switch_cpu_wide(x: &SwitchCpuWide) -> V {
    let (n, pid, tid) = match *x {
        SwitchCpuWide::In { pid, tid } => ("SwitchIn", pid, tid),
        SwitchCpuWide::Out { pid, tid } => ("SwitchOut", pid, tid),
    };
    let n = if x.pid() == pid && x.tid() == tid { n } else { "SwitchAccessorsDisagree" };
    V::S(n, vec![("pid", u(pid)), ("tid", u(tid))])
}
fn ns(x: Option<&NamespaceEntry>) -> V {
    x.map_or(V::N, |e| V::S("Ns", vec![("dev", u(e.dev)), ("inode", u(e.inode))]))
}
pub fn namespaces(x: &Namespaces) -> V {
    V::S("Namespaces", vec![
        ("pid", u(x.pid)),
        ("tid", u(x.tid)),
        ("namespaces", V::L(x.namespaces.iter().map(|e| ns(Some(e))).collect())),
        ("ns_net", ns(x.network())),
        ("ns_uts", ns(x.uts())),
        ("ns_ipc", ns(x.ipc())),
        ("ns_pid", ns(x.pid())),
        ("ns_user", ns(x.user())),
        ("ns_cgroup", ns(x.cgroup())),
    ])
}
pub fn ksymbol(x: &KSymbol) -> V {
    V::S("KSymbol", vec![
        ("addr", u(x.addr)),
        ("len", u(x.len)),
        ("ksym_type", u(x.ksym_type.0)),
        ("flags", u(x.flags.bits())),
        ("name", b(&x.name)),
    ])
}
pub fn bpf(x: &BpfEvent) -> V {
    V::S("Bpf", vec![("ty", u(x.ty.0)), ("flags", u(x.flags)), ("id", u(x.id)), ("tag", b(&x.tag))])
}
pub fn cgroup(x: &CGroup) -> V {
    let os = x.path_os().as_os_str().as_bytes();
    let path = if os == &x.path[..] { b(&x.path) } else { V::L(vec![b(&x.path), b(os)]) };
    V::S("CGroup", vec![("id", u(x.id)), ("path", path)])
}
pub fn text_poke(x: &TextPoke) -> V {
    V::S("TextPoke", vec![("addr", u(x.addr)), ("old_bytes", b(&x.old_bytes)), ("new_bytes", b(&x.new_bytes))])
}
pub fn hw_id(x: &AuxOutputHwId) -> V {
    V::S("AuxOutputHwId", vec![("hw_id", u(x.hw_id))])
}
pub fn unknown(ty: u32, data: &[u8]) -> V {
    V::S("Unknown", vec![("ty", u(ty)), ("data", b(data))])
}

pub fn record(r: &Record) -> V {
    match r {
        Record::Mmap(x) => mmap(x),
        Record::Lost(x) => lost(x),
        Record::Comm(x) => comm(x),
        Record::Exit(x) => exit("Exit", x),
        Record::Throttle(x) => throttle("Throttle", x),
        Record::Unthrottle(x) => throttle("Unthrottle", x),
        Record::Fork(x) => exit("Fork", x),
        Record::Read(x) => read(x),
        Record::Sample(x) => sample(x),
        Record::Mmap2(x) => mmap2(x),
        Record::Aux(x) => aux(x),
        Record::ITraceStart(x) => itrace(x),
        Record::LostSamples(x) => lost_samples(x),
        Record::Switch => V::S("Switch", vec![]),
        Record::SwitchCpuWide(x) => switch_cpu_wide(x),
        Record::Namespaces(x) => namespaces(x),
        Record::KSymbol(x) => ksymbol(x),
        Record::BpfEvent(x) => bpf(x),
        Record::CGroup(x) => cgroup(x),
        Record::TextPoke(x) => text_poke(x),
        Record::AuxOutputHwId(x) => hw_id(x),
        Record::Unknown { ty, data } => unknown(*ty, data),
        _ => V::S("UnexpectedVariant", vec![]),
    }
}

/// Attribute struct for a model configuration; fields that must not matter are
/// filled with noise.
pub fn attr(c: &Cfg) -> perf_event_attr {
    let mut r = crate::gen::Rng::new(c.noise);
    let mut n = || if c.noise == 0 { 0 } else { r.next() };
    let mut a = perf_event_attr::default();
    a.type_ = n() as u32;
    a.size = n() as u32;
    a.config = n();
    a.__bindgen_anon_1.sample_period = n();
    let flags = n();
    a._bitfield_1 = perf_event_open_sys::bindings::__BindgenBitfieldUnit::new(flags.to_ne_bytes());
    a.set_sample_id_all(c.sample_id_all as u64);
    a.__bindgen_anon_2.wakeup_events = n() as u32;
    a.bp_type = n() as u32;
    a.__bindgen_anon_3.config1 = n();
    a.__bindgen_anon_4.config2 = n();
    // bit 17: HW_INDEX; bit 19 (COUNTERS) changes the layout and is not
    // supported by the library
    a.branch_sample_type = (n() & !(1 << 17) & !(1 << 19)) | ((c.hw_index as u64) << 17);
    a.sample_stack_user = n() as u32;
    a.clockid = n() as i32;
    a.aux_watermark = n() as u32;
    a.sample_max_stack = n() as u16;
    a.aux_sample_size = n() as u32;
    a.sig_data = n();
    a.config3 = n();
    a.sample_type = c.sample_type;
    a.read_format = c.read_format;
    a.sample_regs_user = c.regs_user;
    a.sample_regs_intr = c.regs_intr;
    a
}

pub fn config(c: &Cfg, e: AnyEndian) -> ParseConfig<AnyEndian> {
    ParseConfig::<Native>::from(attr(c)).with_endian(e)
}

pub fn config_as<E: Endian>(c: &Cfg, e: E) -> ParseConfig<E> {
    ParseConfig::<Native>::from(attr(c)).with_endian(e)
}

//! Data sources: the ways the same bytes can reach the parser.
//!
//! `Slice` and `Reader` use the library's own `ParseBuf` impls for `&[u8]` and
//! `BufReader`; `Chunks` is a source that hands out the data in arbitrary
//! pieces, each either borrowed (External) or temporary.  Temporary pieces live
//! in a scratch buffer that is overwritten as soon as the parser advances.

use crate::gen::G;
use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::{ParseBuf, ParseBufChunk, ParseError, ParseResult};
use std::fmt;
use std::io::{self, BufReader, Read};

// ------------------------------------------------------------------ endian

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AnyEndian {
    Little,
    Big,
    Native,
    DynLittle,
    DynBig,
    /// a user's own byte order, which does not say whether it is the host's
    OwnLittle,
    OwnBig,
}

/// The required methods only.
#[derive(Clone, Copy, Debug)]
pub struct Own(pub bool);

unsafe impl Endian for Own {
    fn convert_u16(&self, mut b: [u8; 2]) -> u16 {
        if self.0 {
            b.reverse()
        }
        u16::from_le_bytes(b)
    }
    fn convert_u32(&self, mut b: [u8; 4]) -> u32 {
        if self.0 {
            b.reverse()
        }
        u32::from_le_bytes(b)
    }
    fn convert_u64(&self, mut b: [u8; 8]) -> u64 {
        if self.0 {
            b.reverse()
        }
        u64::from_le_bytes(b)
    }
}

macro_rules! each {
    ($s:expr, $e:ident => $x:expr) => {
        match $s {
            AnyEndian::Little => { let $e = Little; $x }
            AnyEndian::Big => { let $e = Big; $x }
            AnyEndian::Native => { let $e = Native; $x }
            AnyEndian::DynLittle => { let $e = Dynamic::Little; $x }
            AnyEndian::DynBig => { let $e = Dynamic::Big; $x }
            AnyEndian::OwnLittle => { let $e = Own(false); $x }
            AnyEndian::OwnBig => { let $e = Own(true); $x }
        }
    };
}

unsafe impl Endian for AnyEndian {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        each!(self, e => e.convert_u16(b))
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        each!(self, e => e.convert_u32(b))
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        each!(self, e => e.convert_u64(b))
    }
    fn is_native(&self) -> bool {
        each!(self, e => e.is_native())
    }
}

pub const HOST_BIG: bool = cfg!(target_endian = "big");

impl AnyEndian {
    pub fn big(self) -> bool {
        match self {
            AnyEndian::Little | AnyEndian::DynLittle | AnyEndian::OwnLittle => false,
            AnyEndian::Big | AnyEndian::DynBig | AnyEndian::OwnBig => true,
            AnyEndian::Native => HOST_BIG,
        }
    }
    /// Known to be the host's byte order.
    pub fn host(self) -> bool {
        self.big() == HOST_BIG && !matches!(self, AnyEndian::OwnLittle | AnyEndian::OwnBig)
    }
    pub const ALL: [AnyEndian; 7] = {
        use AnyEndian::*;
        [Native, Little, Big, DynBig, DynLittle, OwnLittle, OwnBig]
    };
    pub fn pick(g: &mut G) -> Self {
        let i = g.weighted(&[4, 4, 4, 4, 4, 1, 1]);
        Self::ALL[i]
    }
    /// All members with the given byte order.
    pub fn of(big: bool) -> Vec<AnyEndian> {
        Self::ALL.into_iter().filter(|e| e.big() == big).collect()
    }
}

// ------------------------------------------------------------------ faults

/// Error payload that can be recognised in the resulting ParseError.
#[derive(Debug)]
pub struct Marker(pub u64);
impl fmt::Display for Marker {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected fault #{}", self.0)
    }
}
impl std::error::Error for Marker {}

/// Every stable kind but UnexpectedEof (the normal end) and Interrupted (which
/// callers may retry).
pub const IO_KINDS: &[io::ErrorKind] = {
    use io::ErrorKind::*;
    &[
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable,
        ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock,
        NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput,
        InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, FileTooLarge, ResourceBusy, ExecutableFileBusy,
        Deadlock, TooManyLinks, ArgumentListTooLong, Unsupported, OutOfMemory, Other,
    ]
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    /// ParseError::new(Marker) or io::Error::other(Marker)
    Other,
    /// io error with some other kind
    Io(io::ErrorKind),
    /// io error made from an OS error code, which is also its id
    Os,
    /// io::ErrorKind::UnexpectedEof
    IoEof,
    /// ParseError::eof()
    Eof,
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub at: usize,
    pub kind: FaultKind,
    pub id: u64,
    /// fail only once: a caller that asks again gets the data
    pub once: bool,
}

impl Fault {
    fn io(&self) -> io::Error {
        let k = match self.kind {
            FaultKind::Os => return io::Error::from_raw_os_error(self.id as i32),
            FaultKind::Other => io::ErrorKind::Other,
            FaultKind::Io(k) => k,
            FaultKind::IoEof | FaultKind::Eof => io::ErrorKind::UnexpectedEof,
        };
        io::Error::new(k, Marker(self.id))
    }
    fn parse_error(&self) -> ParseError {
        match self.kind {
            FaultKind::Other => ParseError::new(Marker(self.id)),
            FaultKind::Os | FaultKind::Io(_) | FaultKind::IoEof => ParseError::from(self.io()),
            FaultKind::Eof => ParseError::eof(),
        }
    }
}

/// Does this error carry the injected marker?
pub fn marker_of(e: &ParseError) -> Option<u64> {
    let mut s = std::error::Error::source(e);
    while let Some(x) = s {
        if let Some(m) = x.downcast_ref::<Marker>() {
            return Some(m.0);
        }
        if let Some(i) = x.downcast_ref::<io::Error>() {
            if let Some(c) = i.raw_os_error() {
                return Some(c as u64);
            }
            if let Some(m) = i.get_ref().and_then(|r| r.downcast_ref::<Marker>()) {
                return Some(m.0);
            }
        }
        s = x.source();
    }
    None
}

/// Is a cause of this type, for which the test holds, among the sources of this error?
pub fn has_cause<T: std::error::Error + 'static>(e: &ParseError, test: impl Fn(&T) -> bool) -> bool {
    let mut s = std::error::Error::source(e);
    while let Some(x) = s {
        if x.downcast_ref::<T>().is_some_and(&test) {
            return true;
        }
        s = x.source();
    }
    false
}

// ------------------------------------------------------------------- plans

#[derive(Clone, Debug)]
pub enum Plan {
    Slice,
    Chunks {
        /// piece lengths, cycled
        cuts: Vec<usize>,
        /// borrowed or temporary, cycled
        ext: Vec<bool>,
        hint: bool,
    },
    Reader {
        cap: usize,
        /// sizes of reads, cycled
        reads: Vec<usize>,
    },
}

impl Plan {
    pub fn label(&self) -> &'static str {
        match self {
            Plan::Slice => "slice",
            Plan::Chunks { hint: true, .. } => "chunks+hint",
            Plan::Chunks { .. } => "chunks",
            Plan::Reader { .. } => "reader",
        }
    }
    pub fn pieces(&self, len: usize) -> usize {
        match self {
            Plan::Slice => 1,
            Plan::Chunks { cuts, .. } => {
                let mut n = 0;
                let mut pos = 0;
                while pos < len {
                    pos += cuts[n % cuts.len()];
                    n += 1;
                }
                n
            }
            Plan::Reader { cap, reads } => {
                let m = reads.iter().map(|r| (*r).min(*cap)).min().unwrap();
                len.div_ceil(m.max(1))
            }
        }
    }
    /// Is the byte at `pos` delivered borrowed, and how many bytes follow it in
    /// its piece (itself included)?
    pub fn piece_at(&self, pos: usize, len: usize) -> (bool, usize) {
        match self {
            Plan::Slice => (true, len - pos),
            Plan::Chunks { cuts, ext, .. } => {
                let (mut i, mut end) = (0, 0);
                while end <= pos {
                    end += cuts[i % cuts.len()].max(1);
                    i += 1;
                }
                (ext[(i - 1) % ext.len()], end.min(len) - pos)
            }
            Plan::Reader { .. } => (false, 0),
        }
    }
    pub fn gen(g: &mut G, len: usize) -> Plan {
        match g.weighted(&[20, 50, 30]) {
            0 => Plan::Slice,
            1 => Plan::gen_chunks(g, len),
            _ => Plan::gen_reader(g, len),
        }
    }
    pub fn gen_split(g: &mut G, len: usize) -> Plan {
        if g.pct(30) {
            Plan::gen_reader(g, len)
        } else {
            Plan::gen_chunks(g, len)
        }
    }
    pub fn gen_chunks(g: &mut G, len: usize) -> Plan {
        let big = len > 4096;
        let cuts = match g.weighted(&[3, 3, 2, 2, 1]) {
            // one piece
            0 => vec![len.max(1)],
            // a cut anywhere
            1 => {
                let at = g.range(1, len.max(1));
                vec![at, len.max(1)]
            }
            // uniform pieces
            2 => vec![if big { g.range(32, 512) } else { g.range(1, 24) }],
            // irregular pieces
            3 => {
                let n = g.range(1, 6);
                (0..n).map(|_| if big { g.range(1, 2000) } else { g.range(1, 40) }).collect()
            }
            // around a cut
            _ => {
                let at = g.range(1, len.max(1));
                vec![at, g.range(1, 9), len.max(1)]
            }
        };
        let ext = match g.weighted(&[3, 3, 4]) {
            0 => vec![true],
            1 => vec![false],
            _ => (0..g.range(2, 5)).map(|_| g.bool()).collect(),
        };
        Plan::Chunks { cuts, ext, hint: g.bool() }
    }
    pub fn gen_reader(g: &mut G, len: usize) -> Plan {
        let cap = match g.weighted(&[3, 3, 1]) {
            0 => g.range(1, 32),
            1 => g.range(8, 300),
            _ => 8192,
        };
        let cap = if len > 4096 { cap.max(64) } else { cap };
        let reads = (0..g.range(1, 4))
            .map(|_| match g.weighted(&[2, 3, 2]) {
                0 => usize::MAX,
                1 => g.range(1, 9),
                _ => g.range(1, 100),
            })
            .map(|r| if len > 4096 { r.max(48) } else { r })
            .collect();
        Plan::Reader { cap, reads }
    }
}

// ----------------------------------------------------------------- sources

pub struct Chunked<'p> {
    data: &'p [u8],
    pos: usize,
    cuts: Vec<usize>,
    ext: Vec<bool>,
    hint: bool,
    fault: Option<Fault>,
    idx: usize,
    /// bytes of the current piece not yet consumed
    left: usize,
    scratch: Vec<u8>,
    fuel: u64,
    /// calls to chunk(), for the evidence
    pub calls: u64,
}

impl<'p> Chunked<'p> {
    pub fn new(data: &'p [u8], cuts: Vec<usize>, ext: Vec<bool>, hint: bool, fault: Option<Fault>) -> Self {
        let fuel = 64 * data.len() as u64 + 100_000;
        Chunked { data, pos: 0, cuts, ext, hint, fault, idx: 0, left: 0, scratch: Vec::with_capacity(data.len()), fuel, calls: 0 }
    }
    fn avail(&self) -> usize {
        self.fault.map_or(self.data.len(), |f| f.at.min(self.data.len()))
    }
}

unsafe impl<'p> ParseBuf<'p> for Chunked<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        self.calls += 1;
        self.fuel = self.fuel.checked_sub(1).expect("fuel exhausted: the parser does not terminate");
        let avail = self.avail();
        if self.pos >= avail {
            return Err(match self.fault {
                Some(f) if f.at <= self.data.len() && self.pos >= f.at => {
                    if f.once {
                        self.fault = None
                    }
                    f.parse_error()
                }
                _ => ParseError::eof(),
            });
        }
        if self.left == 0 {
            self.left = self.cuts[self.idx % self.cuts.len()].max(1).min(avail - self.pos);
            self.idx += 1;
        }
        let piece = &self.data[self.pos..self.pos + self.left];
        if self.ext[(self.idx - 1) % self.ext.len()] {
            Ok(ParseBufChunk::External(piece))
        } else {
            self.scratch.clear();
            self.scratch.extend_from_slice(piece);
            Ok(ParseBufChunk::Temporary(&self.scratch))
        }
    }
    fn advance(&mut self, mut count: usize) {
        assert!(count <= self.avail() - self.pos, "the parser advanced past the end of the source");
        // poison what was handed out
        for b in self.scratch.iter_mut() {
            *b = 0xA5;
        }
        while count > 0 {
            if self.left == 0 {
                self.left = self.cuts[self.idx % self.cuts.len()].max(1).min(self.avail() - self.pos);
                self.idx += 1;
            }
            let n = count.min(self.left);
            self.left -= n;
            self.pos += n;
            count -= n;
        }
    }
    fn remaining_hint(&self) -> Option<usize> {
        // a failure cannot be foreseen, an early end can
        let end = match self.fault {
            Some(Fault { kind: FaultKind::Other | FaultKind::Io(_), .. }) => self.data.len(),
            _ => self.avail(),
        };
        self.hint.then(|| end - self.pos)
    }
}

pub struct ShortReader<'p> {
    data: &'p [u8],
    pos: usize,
    reads: Vec<usize>,
    idx: usize,
    fault: Option<Fault>,
    fuel: u64,
}

impl<'p> ShortReader<'p> {
    pub fn new(data: &'p [u8], reads: Vec<usize>, fault: Option<Fault>) -> Self {
        ShortReader { data, pos: 0, reads, idx: 0, fault, fuel: 64 * data.len() as u64 + 100_000 }
    }
}

impl Read for ShortReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.fuel = self.fuel.checked_sub(1).expect("fuel exhausted: the parser does not terminate");
        let avail = self.fault.map_or(self.data.len(), |f| f.at.min(self.data.len()));
        if self.pos >= avail {
            return match self.fault {
                Some(f) if f.at <= self.data.len() && self.pos >= f.at => {
                    if f.once {
                        self.fault = None
                    }
                    Err(f.io())
                }
                _ => Ok(0),
            };
        }
        let n = self.reads[self.idx % self.reads.len()].max(1).min(buf.len()).min(avail - self.pos);
        self.idx += 1;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn reader<'p>(data: &'p [u8], cap: usize, reads: &[usize], fault: Option<Fault>) -> BufReader<ShortReader<'p>> {
    BufReader::with_capacity(cap, ShortReader::new(data, reads.to_vec(), fault))
}

/// Run `$body` with `$b` bound to the source for `$plan` over `$data`.
#[macro_export]
macro_rules! with_source {
    ($plan:expr, $data:expr, $fault:expr, $b:ident => $body:expr) => {{
        let __data = $data;
        match $plan {
            $crate::source::Plan::Slice => {
                let $b = __data;
                $body
            }
            $crate::source::Plan::Chunks { cuts, ext, hint } => {
                let $b = $crate::source::Chunked::new(__data, cuts.clone(), ext.clone(), *hint, $fault);
                $body
            }
            $crate::source::Plan::Reader { cap, reads } => {
                let $b = $crate::source::reader(__data, *cap, reads, $fault);
                $body
            }
        }
    }};
}

// --------------------------------------------------------- aligned buffers

/// A buffer whose data starts at a chosen offset from an 8-byte boundary and
/// ends exactly where the allocation ends, so that a sanitizer sees any access
/// past it.
pub struct Aligned {
    ptr: *mut u8,
    layout: std::alloc::Layout,
    off: usize,
}

impl Aligned {
    pub fn new(data: &[u8], off: usize) -> Self {
        let layout = std::alloc::Layout::from_size_align((off + data.len()).max(1), 8).unwrap();
        // SAFETY: the layout has a non-zero size; off + data.len() fits
        unsafe {
            let ptr = std::alloc::alloc(layout);
            assert!(!ptr.is_null());
            std::ptr::write_bytes(ptr, 0xC7, layout.size());
            std::ptr::copy_nonoverlapping(data.as_ptr(), ptr.add(off), data.len());
            Aligned { ptr, layout, off: if data.is_empty() { layout.size() } else { off } }
        }
    }
    pub fn get(&self) -> &[u8] {
        // SAFETY: initialised above
        unsafe { std::slice::from_raw_parts(self.ptr.add(self.off), self.layout.size() - self.off) }
    }
    /// Offset of the data from an 8-byte boundary.
    pub fn offset(&self) -> usize {
        self.get().as_ptr() as usize % 8
    }
    /// Overwrite the contents.
    pub fn scribble(&mut self) {
        // SAFETY: exclusive access to our own allocation
        unsafe { std::ptr::write_bytes(self.ptr, 0x5A, self.layout.size()) }
    }
}

impl Drop for Aligned {
    fn drop(&mut self) {
        // SAFETY: allocated in `new` with this layout
        unsafe { std::alloc::dealloc(self.ptr, self.layout) }
    }
}

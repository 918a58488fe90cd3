//! Monitored data sources.

use crate::util::*;
use perf_event_data::parse::{ParseBuf, ParseBufChunk, ParseError, ParseResult};
use std::cell::Cell;
use std::io::Read;
use std::rc::Rc;

/// The error a faulty source reports; `id` identifies the injection.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SourceError(pub u64);
impl std::fmt::Display for SourceError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected source failure {}", self.0)
    }
}
impl std::error::Error for SourceError {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// ParseError::new(SourceError)
    Custom,
    /// io::Error::new(Other, SourceError) through From<io::Error>
    IoOther,
    /// io::Error::new(UnexpectedEof, SourceError) through From<io::Error>
    IoEof,
    /// io::Error::new(WouldBlock, ..)
    IoBlock,
    /// Box<dyn Error> through From
    Boxed,
    /// io::Error::new(IO_KINDS[i], SourceError)
    Io(u8),
    /// io::Error::from(IO_KINDS[i]), without any payload
    IoBare(u8),
    /// io::Error::from_raw_os_error
    Os(i32),
    /// io::Error::from(UnexpectedEof)
    IoEofBare,
    /// io::Error::new(Other, ParseError::eof() carrying nothing)
    NestedEof,
}
pub const FAULTS: [FaultKind; 5] = [FaultKind::Custom, FaultKind::IoOther, FaultKind::IoEof, FaultKind::IoBlock, FaultKind::Boxed];

use std::io::ErrorKind as IoK;
/// Every kind an I/O error can have, other than the one that means end of input.
pub const IO_KINDS: [IoK; 21] = [
    IoK::NotFound,
    IoK::PermissionDenied,
    IoK::ConnectionRefused,
    IoK::ConnectionReset,
    IoK::ConnectionAborted,
    IoK::NotConnected,
    IoK::AddrInUse,
    IoK::AddrNotAvailable,
    IoK::BrokenPipe,
    IoK::AlreadyExists,
    IoK::WouldBlock,
    IoK::InvalidInput,
    IoK::InvalidData,
    IoK::TimedOut,
    IoK::WriteZero,
    IoK::Interrupted,
    IoK::Other,
    IoK::Unsupported,
    IoK::OutOfMemory,
    IoK::StorageFull,
    IoK::HostUnreachable,
];
pub const OS_CODES: [i32; 12] = [1, 4, 5, 9, 11, 12, 14, 22, 28, 32, 61, 104];

pub fn any_fault(r: &mut Rng) -> FaultKind {
    match r.below(10) {
        0 | 1 | 2 => FaultKind::Io(r.below(IO_KINDS.len()) as u8),
        3 => FaultKind::IoBare(r.below(IO_KINDS.len()) as u8),
        4 => FaultKind::Os(r.pick(&OS_CODES)),
        5 => FaultKind::IoEofBare,
        6 => FaultKind::NestedEof,
        _ => r.pick(&FAULTS),
    }
}

impl FaultKind {
    /// Does the failure stand for the end of the input?
    pub fn is_eof(self) -> bool {
        matches!(self, FaultKind::IoEof | FaultKind::IoEofBare)
    }
    /// What `find_fault` has to find for an injection numbered `id`.
    pub fn mark(self, id: u64) -> u64 {
        match self {
            FaultKind::IoBare(i) => bare_mark(IO_KINDS[i as usize]),
            FaultKind::IoEofBare => bare_mark(IoK::UnexpectedEof),
            FaultKind::Os(c) => (1 << 62) | c as u64,
            FaultKind::NestedEof => 1 << 61,
            _ => id,
        }
    }
    pub fn label(self) -> String {
        match self {
            FaultKind::Io(i) => format!("Io:{:?}", IO_KINDS[i as usize]),
            FaultKind::IoBare(_) => "IoBare".into(),
            FaultKind::Os(_) => "Os".into(),
            o => format!("{o:?}"),
        }
    }
}
fn bare_mark(k: IoK) -> u64 {
    (1 << 63) | (fnv(format!("{k:?}").as_bytes()) >> 8)
}

pub fn make_io_fault(k: FaultKind, id: u64) -> std::io::Error {
    let kind = match k {
        FaultKind::IoEof => IoK::UnexpectedEof,
        FaultKind::IoBlock => IoK::WouldBlock,
        FaultKind::Io(i) => IO_KINDS[i as usize],
        FaultKind::IoBare(i) => return std::io::Error::from(IO_KINDS[i as usize]),
        FaultKind::IoEofBare => return std::io::Error::from(IoK::UnexpectedEof),
        FaultKind::Os(c) => return std::io::Error::from_raw_os_error(c),
        FaultKind::NestedEof => return std::io::Error::new(IoK::Other, ParseError::eof()),
        _ => IoK::Other,
    };
    std::io::Error::new(kind, SourceError(id))
}

pub fn make_fault(k: FaultKind, id: u64) -> ParseError {
    match k {
        FaultKind::Custom => ParseError::new(SourceError(id)),
        FaultKind::Boxed => {
            let b: Box<dyn std::error::Error + Send + Sync> = Box::new(SourceError(id));
            ParseError::from(b)
        }
        _ => ParseError::from(make_io_fault(k, id)),
    }
}

/// Find the injected error in the source chain.
pub fn find_fault(e: &ParseError) -> Option<u64> {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    let mut hops = 0;
    while let Some(s) = cur {
        if let Some(f) = s.downcast_ref::<SourceError>() {
            return Some(f.0);
        }
        if let Some(io) = s.downcast_ref::<std::io::Error>() {
            if let Some(f) = io.get_ref().and_then(|i| i.downcast_ref::<SourceError>()) {
                return Some(f.0);
            }
            if let Some(c) = io.raw_os_error() {
                return Some((1 << 62) | c as u64);
            }
            match io.get_ref() {
                None => return Some(bare_mark(io.kind())),
                Some(i) if i.is::<ParseError>() => return Some(1 << 61),
                Some(_) => (),
            }
        }
        if let Some(pe) = s.downcast_ref::<ParseError>() {
            // wrapped once more by the source itself
            if let Some(f) = find_fault(pe) {
                return Some(f);
            }
        }
        cur = s.source();
        hops += 1;
        if hops > 16 {
            break;
        }
    }
    None
}

#[derive(Default, Debug)]
pub struct Stats {
    pub chunk_calls: Cell<u64>,
    pub advance_calls: Cell<u64>,
    pub hint_calls: Cell<u64>,
    pub consumed: Cell<usize>,
    /// chunk() requests made at or beyond `limit`
    pub asked_past: Cell<u64>,
    /// advance() by more than was shown
    pub over_advance: Cell<u64>,
    /// step budget exhausted
    pub runaway: Cell<bool>,
    pub faulted: Cell<bool>,
    /// hash over the sequence of requests: distinguishes interleavings
    pub trace: Cell<u64>,
    pub temps: Cell<u64>,
    /// chunk() requests at or beyond this position count as `asked_past` (0: no limit)
    pub limit: Cell<usize>,
    /// chunk() requests since the last advance that moved
    pub idle: Cell<u64>,
}

pub struct MonBuf<'p> {
    data: &'p [u8],
    /// each chunk in an allocation of its own (so that sanitizers see reads across chunks)
    parts: Option<&'p [AlignedBuf]>,
    /// sorted chunk ends, last one is data.len()
    cuts: Rc<Vec<usize>>,
    /// bit i (mod 64) set: chunk i is temporary
    temp_mask: u64,
    pos: usize,
    ci: usize,
    shown: usize,
    tmp: Option<Box<[u8]>>,
    hint: bool,
    pub budget: u64,
    pub fault_at: u64,
    pub fault: FaultKind,
    pub stats: Rc<Stats>,
}

impl<'p> MonBuf<'p> {
    pub fn new(data: &'p [u8], cuts: Rc<Vec<usize>>, temp_mask: u64, hint: bool) -> Self {
        MonBuf {
            data,
            parts: None,
            cuts,
            temp_mask,
            pos: 0,
            ci: 0,
            shown: 0,
            tmp: None,
            hint,
            budget: u64::MAX,
            fault_at: u64::MAX,
            fault: FaultKind::Custom,
            stats: Rc::new(Stats::default()),
        }
    }
    pub fn split(data: &'p [u8], parts: &'p [AlignedBuf], cuts: Rc<Vec<usize>>, temp_mask: u64, hint: bool) -> Self {
        let mut m = Self::new(data, cuts, temp_mask, hint);
        m.parts = Some(parts);
        m
    }
    fn drop_tmp(&mut self) {
        let _p = crate::alloc::pause();
        if let Some(mut t) = self.tmp.take() {
            t.fill(0xDB);
            std::hint::black_box(&t);
        }
    }
}

impl Drop for MonBuf<'_> {
    fn drop(&mut self) {
        self.drop_tmp();
    }
}

unsafe impl<'p> ParseBuf<'p> for MonBuf<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        let s = &*self.stats;
        s.chunk_calls.set(s.chunk_calls.get() + 1);
        s.trace.set(hash2(s.trace.get(), 1));
        if s.limit.get() != 0 && self.pos >= s.limit.get() {
            s.asked_past.set(s.asked_past.get() + 1);
        }
        if s.chunk_calls.get() > self.budget {
            s.runaway.set(true);
            return Err(ParseError::new("step budget exhausted"));
        }
        if s.chunk_calls.get() == self.fault_at {
            s.faulted.set(true);
            return Err(make_fault(self.fault, self.fault_at));
        }
        if self.pos >= self.data.len() {
            return Err(ParseError::eof());
        }
        while self.cuts[self.ci] <= self.pos {
            self.ci += 1;
        }
        let end = self.cuts[self.ci];
        self.shown = end - self.pos;
        if self.temp_mask >> (self.ci % 64) & 1 == 1 {
            if self.tmp.is_none() {
                let _p = crate::alloc::pause();
                s.temps.set(s.temps.get() + 1);
                self.tmp = Some(self.data[self.pos..end].to_vec().into_boxed_slice());
            }
            Ok(ParseBufChunk::Temporary(self.tmp.as_deref().unwrap()))
        } else if let Some(parts) = self.parts {
            let part = parts[self.ci].get();
            Ok(ParseBufChunk::External(&part[part.len() - self.shown..]))
        } else {
            Ok(ParseBufChunk::External(&self.data[self.pos..end]))
        }
    }

    fn advance(&mut self, count: usize) {
        {
            let s = &*self.stats;
            s.advance_calls.set(s.advance_calls.get() + 1);
            s.trace.set(hash2(s.trace.get(), 2 + count as u64));
            if count > self.shown {
                s.over_advance.set(s.over_advance.get() + 1);
            }
        }
        if count > 0 {
            self.drop_tmp();
        }
        let n = count.min(self.data.len() - self.pos);
        self.pos += n;
        self.shown = self.shown.saturating_sub(n);
        self.stats.consumed.set(self.pos);
    }

    fn remaining_hint(&self) -> Option<usize> {
        self.stats.hint_calls.set(self.stats.hint_calls.get() + 1);
        self.hint.then(|| self.data.len() - self.pos)
    }
}

/// Chunk ends for `n` bytes.
pub fn gen_cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    if n == 0 {
        return v;
    }
    match r.below(7) {
        0 => (),
        1 => {
            // every byte its own chunk (bounded)
            if n <= 4096 || (!crate::util::small() && r.one_in(4)) {
                v.extend(1..n);
            } else {
                v.extend((1..n).step_by(37));
            }
        }
        2 => {
            if n > 1 {
                v.push(1 + r.below(n - 1));
            }
        }
        3 => {
            let step = 1 + r.below(32);
            let off = 1 + r.below(step);
            v.extend((off..n).step_by(step));
        }
        4 => {
            // header apart, 8 byte words
            v.extend((8..n).step_by(8));
        }
        _ => {
            let most = if r.one_in(8) { 200 } else { 24 };
            let k = r.below(n.min(most)) + 1;
            for _ in 0..k {
                if n > 1 {
                    v.push(1 + r.below(n - 1));
                }
            }
        }
    }
    v.push(n);
    v.sort_unstable();
    v.dedup();
    v
}

/// The chunks of `data` as separate allocations that end exactly with the chunk.  The byte at
/// stream offset `o` lies at an address congruent to `o + skew` modulo 8.
pub fn split_parts(data: &[u8], cuts: &[usize], skew: usize) -> Vec<AlignedBuf> {
    let mut at = 0;
    cuts.iter()
        .map(|&c| {
            let b = AlignedBuf::new(&data[at..c], (at + skew) % 8);
            at = c;
            b
        })
        .collect()
}

/// A reader with short reads and an optional failure.
pub struct ShortReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub i: usize,
    pub reads: Rc<Cell<u64>>,
    /// fail the read number n (1-based)
    pub fail: Option<(u64, FaultKind)>,
}

impl<'a> ShortReader<'a> {
    pub fn new(data: &'a [u8], sizes: Vec<usize>) -> Self {
        ShortReader { data, pos: 0, sizes, i: 0, reads: Rc::new(Cell::new(0)), fail: None }
    }
}

impl Read for ShortReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads.set(self.reads.get() + 1);
        if let Some((n, k)) = self.fail {
            if self.reads.get() >= n {
                return Err(make_io_fault(k, n));
            }
        }
        let want = if self.sizes.is_empty() { buf.len() } else { self.sizes[self.i % self.sizes.len()] };
        self.i += 1;
        let n = want.max(1).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Bytes at a chosen distance from an 8-byte boundary, in an allocation that ends exactly with
/// the last byte.
pub struct AlignedBuf {
    ptr: *mut u8,
    off: usize,
    len: usize,
}

impl AlignedBuf {
    fn layout(&self) -> std::alloc::Layout {
        std::alloc::Layout::from_size_align((self.off + self.len).max(1), 8).unwrap()
    }
    pub fn new(data: &[u8], off: usize) -> Self {
        let mut a = AlignedBuf { ptr: std::ptr::null_mut(), off, len: data.len() };
        unsafe {
            a.ptr = std::alloc::alloc_zeroed(a.layout());
            assert!(!a.ptr.is_null());
            std::ptr::copy_nonoverlapping(data.as_ptr(), a.ptr.add(off), data.len());
        }
        a
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr.add(self.off), self.len) }
    }
    /// Distance from the 8-byte boundary.
    pub fn off(&self) -> usize {
        self.off
    }
    /// Overwrite the beginning.
    pub fn fill(&mut self, data: &[u8]) {
        assert!(data.len() <= self.len);
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), self.ptr.add(self.off), data.len()) };
    }
    pub fn scribble(&mut self, b: u8) {
        unsafe { std::ptr::write_bytes(self.ptr, b, (self.off + self.len).max(1)) };
    }
}

impl Drop for AlignedBuf {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.ptr, self.layout()) }
    }
}

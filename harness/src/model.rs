//! Independent model of the perf_event ABI: configurations, wire programs, generators of
//! well-formed records together with the values they must decode to.
//!
//! Nothing in here uses constants or code of the crate under test.

use crate::util::*;
use perf_event_open_sys::bindings::perf_event_attr;

// perf_event.h: enum perf_event_sample_format
pub const S_IP: u64 = 1 << 0;
pub const S_TID: u64 = 1 << 1;
pub const S_TIME: u64 = 1 << 2;
pub const S_ADDR: u64 = 1 << 3;
pub const S_READ: u64 = 1 << 4;
pub const S_CALLCHAIN: u64 = 1 << 5;
pub const S_ID: u64 = 1 << 6;
pub const S_CPU: u64 = 1 << 7;
pub const S_PERIOD: u64 = 1 << 8;
pub const S_STREAM_ID: u64 = 1 << 9;
pub const S_RAW: u64 = 1 << 10;
pub const S_BRANCH: u64 = 1 << 11;
pub const S_REGS_USER: u64 = 1 << 12;
pub const S_STACK_USER: u64 = 1 << 13;
pub const S_WEIGHT: u64 = 1 << 14;
pub const S_DATA_SRC: u64 = 1 << 15;
pub const S_IDENTIFIER: u64 = 1 << 16;
pub const S_TRANSACTION: u64 = 1 << 17;
pub const S_REGS_INTR: u64 = 1 << 18;
pub const S_PHYS_ADDR: u64 = 1 << 19;
pub const S_AUX: u64 = 1 << 20;
pub const S_CGROUP: u64 = 1 << 21;
pub const S_DATA_PAGE: u64 = 1 << 22;
pub const S_CODE_PAGE: u64 = 1 << 23;
pub const S_WEIGHT_STRUCT: u64 = 1 << 24;
pub const S_ALL: u64 = (1 << 25) - 1;
pub const S_ID_FLAGS: u64 = S_TID | S_TIME | S_ID | S_STREAM_ID | S_CPU | S_IDENTIFIER;

// enum perf_event_read_format
pub const F_ENABLED: u64 = 1;
pub const F_RUNNING: u64 = 2;
pub const F_ID: u64 = 4;
pub const F_GROUP: u64 = 8;
pub const F_LOST: u64 = 16;
pub const F_ALL: u64 = 31;

pub const MISC_BUILD_ID: u16 = 1 << 14;
pub const MISC_SWITCH_OUT: u16 = 1 << 13;
pub const BRANCH_HW_INDEX: u64 = 1 << 17;
pub const BRANCH_COUNTERS: u64 = 1 << 19;

// enum perf_event_type
pub const T_MMAP: u32 = 1;
pub const T_LOST: u32 = 2;
pub const T_COMM: u32 = 3;
pub const T_EXIT: u32 = 4;
pub const T_THROTTLE: u32 = 5;
pub const T_UNTHROTTLE: u32 = 6;
pub const T_FORK: u32 = 7;
pub const T_READ: u32 = 8;
pub const T_SAMPLE: u32 = 9;
pub const T_MMAP2: u32 = 10;
pub const T_AUX: u32 = 11;
pub const T_ITRACE: u32 = 12;
pub const T_LOST_SAMPLES: u32 = 13;
pub const T_SWITCH: u32 = 14;
pub const T_SWITCH_CPU: u32 = 15;
pub const T_NAMESPACES: u32 = 16;
pub const T_KSYMBOL: u32 = 17;
pub const T_BPF: u32 = 18;
pub const T_CGROUP: u32 = 19;
pub const T_TEXT_POKE: u32 = 20;
pub const T_AUX_HW: u32 = 21;

pub const KNOWN: [u32; 21] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21];

pub fn kind_name(ty: u32) -> &'static str {
    match ty {
        T_MMAP => "mmap",
        T_LOST => "lost",
        T_COMM => "comm",
        T_EXIT => "exit",
        T_THROTTLE => "throttle",
        T_UNTHROTTLE => "unthrottle",
        T_FORK => "fork",
        T_READ => "read",
        T_SAMPLE => "sample",
        T_MMAP2 => "mmap2",
        T_AUX => "aux",
        T_ITRACE => "itrace_start",
        T_LOST_SAMPLES => "lost_samples",
        T_SWITCH => "switch",
        T_SWITCH_CPU => "switch_cpu_wide",
        T_NAMESPACES => "namespaces",
        T_KSYMBOL => "ksymbol",
        T_BPF => "bpf_event",
        T_CGROUP => "cgroup",
        T_TEXT_POKE => "text_poke",
        T_AUX_HW => "aux_output_hw_id",
        _ => "unknown",
    }
}

/// The part of a perf_event_attr that decides how records are laid out.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Cfg {
    pub st: u64,
    pub rf: u64,
    pub sia: bool,
    pub hw: bool,
    /// event counts follow the branch entries
    pub bc: bool,
    pub ru: u64,
    pub ri: u64,
}

impl Cfg {
    pub fn attr(&self) -> perf_event_attr {
        let mut a = perf_event_attr::default();
        a.sample_type = self.st;
        a.read_format = self.rf;
        a.set_sample_id_all(self.sia as u64);
        if self.hw {
            a.branch_sample_type |= BRANCH_HW_INDEX;
        }
        if self.bc {
            a.branch_sample_type |= BRANCH_COUNTERS;
        }
        a.sample_regs_user = self.ru;
        a.sample_regs_intr = self.ri;
        a
    }
    pub fn has(&self, f: u64) -> bool {
        self.st & f != 0
    }
    pub fn sid_len(&self) -> usize {
        if self.sia {
            (self.st & S_ID_FLAGS).count_ones() as usize * 8
        } else {
            0
        }
    }
    pub fn text(&self) -> String {
        format!(
            "sample_type={:#x} read_format={:#x} sample_id_all={} hw_index={} branch_counters={} regs_user={:#x} regs_intr={:#x}",
            self.st, self.rf, self.sia, self.hw, self.bc, self.ru, self.ri
        )
    }
    pub fn sig(&self) -> u64 {
        let mut h = mix(self.st);
        for v in [self.rf, self.sia as u64, self.hw as u64 | (self.bc as u64) << 1, self.ru.count_ones() as u64, self.ri.count_ones() as u64] {
            h = hash2(h, v);
        }
        h
    }
}

/// A random valid configuration.  Covers sparse, dense and single-flag sample types.
pub fn gen_cfg(r: &mut Rng) -> Cfg {
    let mut st = match r.below(8) {
        0 => 0,
        1 => 1 << r.below(25),
        2 => (1 << r.below(25)) | (1 << r.below(25)),
        3 => S_ALL & !(1 << r.below(25)),
        4 => S_ALL,
        5 => r.u64() & r.u64() & S_ALL,
        _ => r.u64() & S_ALL,
    };
    if st & S_WEIGHT != 0 && st & S_WEIGHT_STRUCT != 0 {
        // mutually exclusive in the kernel
        st &= if r.bool() { !S_WEIGHT } else { !S_WEIGHT_STRUCT };
    }
    let mask = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => 1 << r.below(64),
        2 => u64::MAX,
        3 => 0xff_0fff,
        4 => r.u64() & r.u64() & r.u64(),
        _ => r.u64(),
    };
    Cfg {
        st,
        rf: match r.below(3) {
            0 => r.u64() & F_ALL & !F_GROUP,
            1 => (r.u64() & F_ALL) | F_GROUP,
            _ => r.u64() & F_ALL,
        },
        sia: r.bool(),
        hw: r.bool(),
        bc: r.one_in(3),
        ru: mask(r),
        ri: mask(r),
    }
}

// ---------------------------------------------------------------- wire programs

#[derive(Clone, Debug)]
pub enum W {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    /// bytes, independent of byte order
    Bytes(Vec<u8>),
    /// an embedded count or size field: width in bytes, value, bytes per counted item
    N(u8, u64, u32),
}

#[derive(Clone, Copy, Debug)]
pub struct CountPos {
    pub off: usize,
    pub width: u8,
    pub val: u64,
    pub unit: u32,
}

pub fn wlen(ws: &[W]) -> usize {
    ws.iter()
        .map(|w| match w {
            W::U8(_) => 1,
            W::U16(_) => 2,
            W::U32(_) => 4,
            W::U64(_) => 8,
            W::Bytes(b) => b.len(),
            W::N(w, _, _) => *w as usize,
        })
        .sum()
}

pub fn put(out: &mut Vec<u8>, width: u8, v: u64, be: bool) {
    let le = v.to_le_bytes();
    let s = &le[..width as usize];
    if be {
        out.extend(s.iter().rev());
    } else {
        out.extend_from_slice(s);
    }
}

pub fn encode(ws: &[W], be: bool) -> Vec<u8> {
    encode_pos(ws, be).0
}

pub fn encode_pos(ws: &[W], be: bool) -> (Vec<u8>, Vec<CountPos>) {
    let mut out = Vec::with_capacity(wlen(ws));
    let mut pos = vec![];
    for w in ws {
        match w {
            W::U8(v) => out.push(*v),
            W::U16(v) => put(&mut out, 2, *v as u64, be),
            W::U32(v) => put(&mut out, 4, *v as u64, be),
            W::U64(v) => put(&mut out, 8, *v, be),
            W::Bytes(b) => out.extend_from_slice(b),
            W::N(width, v, unit) => {
                pos.push(CountPos { off: out.len(), width: *width, val: *v, unit: *unit });
                put(&mut out, *width, *v, be)
            }
        }
    }
    (out, pos)
}

// ---------------------------------------------------------------- canonical values

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    U(u64),
    B(Vec<u8>),
    L(Vec<Vec<u64>>),
    No,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub kind: &'static str,
    pub f: Vec<(&'static str, Val)>,
}

impl Rec {
    pub fn new(kind: &'static str) -> Rec {
        Rec { kind, f: vec![] }
    }
    pub fn u(mut self, k: &'static str, v: impl Into<u64>) -> Rec {
        self.f.push((k, Val::U(v.into())));
        self
    }
    pub fn o(mut self, k: &'static str, v: Option<u64>) -> Rec {
        self.f.push((k, v.map(Val::U).unwrap_or(Val::No)));
        self
    }
    pub fn b(mut self, k: &'static str, v: &[u8]) -> Rec {
        self.f.push((k, Val::B(v.to_vec())));
        self
    }
    pub fn ob(mut self, k: &'static str, v: Option<&[u8]>) -> Rec {
        self.f.push((k, v.map(|b| Val::B(b.to_vec())).unwrap_or(Val::No)));
        self
    }
    pub fn l(mut self, k: &'static str, v: Vec<Vec<u64>>) -> Rec {
        self.f.push((k, Val::L(v)));
        self
    }
    pub fn ol(mut self, k: &'static str, v: Option<Vec<Vec<u64>>>) -> Rec {
        self.f.push((k, v.map(Val::L).unwrap_or(Val::No)));
        self
    }
    pub fn get(&self, k: &str) -> Option<&Val> {
        self.f.iter().find(|(n, _)| *n == k).map(|(_, v)| v)
    }
    pub fn hash(&self) -> u64 {
        let mut h = hstr(self.kind);
        for (k, v) in &self.f {
            h = hash2(h, hstr(k));
            match v {
                Val::U(u) => h = hash2(h ^ 1, *u),
                Val::B(b) => h = hash2(h ^ 2, fnv(b) ^ b.len() as u64),
                Val::L(l) => {
                    h = hash2(h ^ 3, l.len() as u64);
                    for row in l {
                        for x in row {
                            h = hash2(h, *x);
                        }
                    }
                }
                Val::No => h = hash2(h ^ 4, 0),
            }
        }
        h
    }
    /// First difference, as text.
    pub fn diff(&self, want: &Rec) -> Option<String> {
        if self.kind != want.kind {
            return Some(format!("kind: got {} want {}", self.kind, want.kind));
        }
        for (a, b) in self.f.iter().zip(&want.f) {
            if a != b {
                return Some(format!("field {}: got {} want {}", b.0, vtext(&a.1), vtext(&b.1)));
            }
        }
        if self.f.len() != want.f.len() {
            return Some(format!("field count: got {} want {}", self.f.len(), want.f.len()));
        }
        None
    }
}

pub fn vtext(v: &Val) -> String {
    match v {
        Val::U(u) => format!("{u:#x}"),
        Val::B(b) => format!("bytes[{}]={}", b.len(), hex_short(&b[..b.len().min(64)])),
        Val::L(l) => {
            let mut s = format!("list[{}]={:x?}", l.len(), &l[..l.len().min(4)]);
            s.truncate(400);
            s
        }
        Val::No => "absent".into(),
    }
}

// ---------------------------------------------------------------- generated records

#[derive(Clone, Debug)]
pub struct Built {
    pub ty: u32,
    pub misc: u16,
    pub cfg: Cfg,
    pub body: Vec<W>,
    pub trailer: Vec<W>,
    pub rec: Rec,
    pub sid: Rec,
}

impl Built {
    pub fn program(&self) -> Vec<W> {
        let n = 8 + wlen(&self.body) + wlen(&self.trailer);
        assert!(n <= 65535, "model produced an oversized record");
        let mut v = vec![W::U32(self.ty), W::U16(self.misc), W::U16(n as u16)];
        v.extend(self.body.iter().cloned());
        v.extend(self.trailer.iter().cloned());
        v
    }
    pub fn bytes(&self, be: bool) -> Vec<u8> {
        encode(&self.program(), be)
    }
    pub fn size(&self) -> usize {
        8 + wlen(&self.body) + wlen(&self.trailer)
    }
    /// Shape signature: type, config, field lengths; not the values.
    pub fn shape(&self) -> u64 {
        let mut h = hash2(self.ty as u64, self.cfg.sig());
        h = hash2(h, (self.misc & (MISC_BUILD_ID | MISC_SWITCH_OUT)) as u64);
        for (_, v) in &self.rec.f {
            h = hash2(
                h,
                match v {
                    Val::B(b) => b.len() as u64,
                    Val::L(l) => 0x1000 + l.len() as u64,
                    Val::U(_) => 1,
                    Val::No => 2,
                },
            );
        }
        hash2(h, self.size() as u64)
    }
}

pub fn sid_rec(pid: Option<u64>, tid: Option<u64>, time: Option<u64>, id: Option<u64>, stream: Option<u64>, cpu: Option<u64>) -> Rec {
    Rec::new("sample_id").o("pid", pid).o("tid", tid).o("time", time).o("id", id).o("stream_id", stream).o("cpu", cpu)
}

pub fn empty_sid() -> Rec {
    sid_rec(None, None, None, None, None, None)
}

pub fn gen_sid(r: &mut Rng, c: &Cfg) -> (Vec<W>, Rec) {
    let mut w = vec![];
    if !c.sia {
        return (w, empty_sid());
    }
    let (mut pid, mut tid, mut time, mut id, mut stream, mut cpu) = (None, None, None, None, None, None);
    if c.has(S_TID) {
        let (p, t) = (r.v32(), r.v32());
        w.push(W::U32(p));
        w.push(W::U32(t));
        pid = Some(p as u64);
        tid = Some(t as u64);
    }
    if c.has(S_TIME) {
        let v = r.v64();
        w.push(W::U64(v));
        time = Some(v);
    }
    if c.has(S_ID) {
        let v = r.v64();
        w.push(W::U64(v));
        id = Some(v);
    }
    if c.has(S_STREAM_ID) {
        let v = r.v64();
        w.push(W::U64(v));
        stream = Some(v);
    }
    if c.has(S_CPU) {
        let v = r.v32();
        w.push(W::U32(v));
        w.push(W::U32(r.v32()));
        cpu = Some(v as u64);
    }
    if c.has(S_IDENTIFIER) {
        // the kernel writes the same id twice; the record must stay decodable anyway
        let v = match id {
            Some(v) if r.bool() => v,
            _ => r.v64(),
        };
        w.push(W::U64(v));
        id = id.or(Some(v));
    }
    (w, sid_rec(pid, tid, time, id, stream, cpu))
}

/// A byte string that does not end in NUL, plus NUL padding.
fn gen_str(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>) {
    let n = r.len(max);
    let mut s = match r.below(5) {
        0 => r.bytes(n),
        1 => {
            let mut t: Vec<u8> = vec![];
            while t.len() < n {
                if r.one_in(3) {
                    let c = char::from_u32(r.pick(&[0xfffdu32, 0x301, 0x200d, 0xfeff, 0x85, 0xad, 0x2028, 0xe000])).unwrap();
                    let c = if r.bool() { c } else { char::from_u32(r.u32() % 0x110000).unwrap_or(c) };
                    t.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                    continue;
                }
                t.extend_from_slice(r.pick(&["é", "漢", "\u{1F600}", "a\"b", "\\x", "\n\t\r", "'", "\u{7f}", "\u{200b}", "{, }"]).as_bytes());
            }
            t
        }
        2 => (0..n).map(|_| r.pick(&[0u8, b'a', 0xff, 0xc3, 0xa9, 0xe6, b'"', b'\\', 0x80])).collect(),
        _ => (0..n).map(|_| 0x20 + r.below(95) as u8).collect(),
    };
    s.truncate(max);
    while s.last() == Some(&0) {
        s.pop();
    }
    let pad = match r.below(8) {
        0 => 0,
        1 => 1 + r.below(24),
        2 if !crate::util::small() && r.one_in(4) => 24 + r.below(300),
        3 if !crate::util::small() && r.one_in(48) => r.len(9000),
        _ => 8 - s.len() % 8,
    };
    let mut w = s.clone();
    w.resize(s.len() + pad, 0);
    (s, w)
}

pub fn ns_rec(pid: u32, tid: u32, e: &[(u64, u64)]) -> Rec {
    let rows = e.iter().map(|&(a, b)| vec![a, b]).collect();
    let mut rec = Rec::new("namespaces").u("pid", pid).u("tid", tid).l("namespaces", rows);
    // proc_ns.h / perf_event.h: NET 0, UTS 1, IPC 2, PID 3, USER 4, MNT 5, CGROUP 6
    for (name, i) in [("network", 0usize), ("uts", 1), ("ipc", 2), ("pid_ns", 3), ("user", 4), ("cgroup", 6)] {
        rec = rec.ol(name, e.get(i).map(|&(a, b)| vec![vec![a, b]]));
    }
    rec
}

pub fn read_rec(value: u64, en: Option<u64>, ru: Option<u64>, id: Option<u64>, lost: Option<u64>) -> Rec {
    Rec::new("read_value").u("value", value).o("time_enabled", en).o("time_running", ru).o("id", id).o("lost", lost)
}

fn nest(mut outer: Rec, inner: Rec) -> Rec {
    outer.f.extend(inner.f);
    outer
}

pub fn opt_row(o: Option<u64>) -> [u64; 2] {
    match o {
        Some(v) => [1, v],
        None => [0, 0],
    }
}

pub fn entry_row(value: u64, id: Option<u64>, lost: Option<u64>) -> Vec<u64> {
    let (i, l) = (opt_row(id), opt_row(lost));
    vec![value, i[0], i[1], l[0], l[1]]
}

/// perf_branch_entry: from, to, flag word (mispred:1 predicted:1 in_tx:1 abort:1 cycles:16 type:4 ...)
pub fn branch_row(from: u64, to: u64, w: u64) -> Vec<u64> {
    vec![from, to, w & 1, (w >> 1) & 1, (w >> 2) & 1, (w >> 3) & 1, (w >> 4) & 0xffff, (w >> 20) & 0xf]
}

/// union perf_mem_data_src, little-endian bit layout
pub fn datasrc_row(w: u64) -> Vec<u64> {
    let f = |sh: u32, n: u32| (w >> sh) & ((1 << n) - 1);
    vec![
        f(0, 5),                              // mem_op
        f(5, 14),                             // mem_lvl
        (f(19, 5) << 19) | (f(38, 2) << 38),  // mem_snoop and mem_snoopx, in place
        f(24, 2),                             // mem_lock
        f(26, 7),                             // mem_dtlb
        f(33, 4),                             // mem_lvl_num
        f(37, 1),                             // mem_remote
        f(40, 3),                             // mem_blk
        f(43, 3),                             // mem_hops
    ]
}

/// How large variable parts may get.
#[derive(Clone, Copy)]
pub struct Lim {
    pub s: usize,
    pub n: usize,
}
pub const SMALL: Lim = Lim { s: 300, n: 24 };
pub const BIG: Lim = Lim { s: 20_000, n: 1200 };

pub fn pick_lim(r: &mut Rng) -> Lim {
    if r.one_in(16) {
        BIG
    } else {
        SMALL
    }
}

pub fn gen_type(r: &mut Rng) -> u32 {
    match r.below(12) {
        0 => gen_unknown_type(r),
        _ => r.pick(&KNOWN),
    }
}

pub fn gen_unknown_type(r: &mut Rng) -> u32 {
    loop {
        let t = match r.below(8) {
            0 => 0,
            1 => 22 + r.below(4) as u32,
            2 => 64 + r.below(20) as u32,
            3 => 1 << (5 + r.below(27)),
            // a known type but for some of its upper bits
            4 => r.pick(&KNOWN) | 1 << (5 + r.below(27)),
            5 => r.pick(&KNOWN) | u32::MAX << (5 + r.below(27)),
            6 => r.v32(),
            _ => r.u32(),
        };
        if !KNOWN.contains(&t) {
            return t;
        }
    }
}

/// Make the READ record decodable under this configuration (GROUP is not supported there).
pub fn fix_cfg(ty: u32, c: &mut Cfg) {
    if ty == T_READ {
        c.rf &= !F_GROUP;
    }
}

/// Every workload sees a few large records, whatever its usual size.
fn boost(r: &mut Rng, lim: Lim) -> Lim {
    if crate::util::small() || !r.one_in(32) {
        return lim;
    }
    let to = match r.below(8) {
        0 => Lim { s: 60_000, n: 7000 },
        1 | 2 => BIG,
        _ => Lim { s: 2500, n: 300 },
    };
    Lim { s: lim.s.max(to.s), n: lim.n.max(to.n) }
}

pub fn gen_record(r: &mut Rng, ty: u32, c0: &Cfg, lim: Lim) -> Built {
    let lim = boost(r, lim);
    let b = gen_record_once(r, ty, c0, lim);
    if b.size() > 65535 {
        return gen_record_once(r, ty, c0, SMALL);
    }
    b
}

fn gen_record_once(r: &mut Rng, ty: u32, c0: &Cfg, lim: Lim) -> Built {
    let mut c = *c0;
    fix_cfg(ty, &mut c);
    let c = &c;
    let mut misc = match r.below(4) {
        0 => 0,
        1 => r.u16(),
        2 => 1 << r.below(16),
        _ => 1 + r.below(7) as u16,
    };
    if ty == T_MMAP2 || ty == T_SWITCH_CPU {
        if r.bool() {
            misc ^= if ty == T_MMAP2 { MISC_BUILD_ID } else { MISC_SWITCH_OUT };
        }
    }
    let mut w: Vec<W> = vec![];
    let kind = kind_name(ty);
    let mut rec = Rec::new(kind);
    macro_rules! u32f { ($name:expr) => {{ let v = r.v32(); w.push(W::U32(v)); rec = rec.u($name, v); v }} }
    macro_rules! u64f { ($name:expr) => {{ let v = r.v64(); w.push(W::U64(v)); rec = rec.u($name, v); v }} }
    macro_rules! u16f { ($name:expr) => {{ let v = r.v16(); w.push(W::U16(v)); rec = rec.u($name, v); v }} }
    macro_rules! strf { ($name:expr) => {{ let (s, p) = gen_str(r, lim.s); w.push(W::Bytes(p)); rec = rec.b($name, &s); }} }
    match ty {
        T_MMAP => {
            u32f!("pid");
            u32f!("tid");
            u64f!("addr");
            u64f!("len");
            u64f!("pgoff");
            strf!("filename");
        }
        T_LOST => {
            u64f!("id");
            u64f!("lost");
        }
        T_COMM => {
            u32f!("pid");
            u32f!("tid");
            strf!("comm");
        }
        T_EXIT | T_FORK => {
            u32f!("pid");
            u32f!("ppid");
            u32f!("tid");
            u32f!("ptid");
            u64f!("time");
        }
        T_THROTTLE | T_UNTHROTTLE => {
            u64f!("time");
            u64f!("id");
            u64f!("stream_id");
        }
        T_READ => {
            u32f!("pid");
            u32f!("tid");
            let (ws, rr) = gen_read(r, c);
            w.extend(ws);
            rec = nest(rec, rr);
        }
        T_MMAP2 => {
            u32f!("pid");
            u32f!("tid");
            u64f!("addr");
            u64f!("len");
            u64f!("pgoff");
            if misc & MISC_BUILD_ID != 0 {
                let n = if r.bool() { 20 } else { r.below(21) };
                let id = r.bytes(20);
                w.push(W::N(1, n as u64, 0));
                w.push(W::U8(r.u8()));
                w.push(W::U16(r.u16()));
                w.push(W::Bytes(id.clone()));
                rec = rec.o("maj", None).o("min", None).o("ino", None).o("ino_generation", None).ob("build_id", Some(&id[..n]));
            } else {
                u32f!("maj");
                u32f!("min");
                u64f!("ino");
                u64f!("ino_generation");
                rec = rec.ob("build_id", None);
            }
            u32f!("prot");
            u32f!("flags");
            strf!("filename");
        }
        T_AUX => {
            u64f!("aux_offset");
            u64f!("aux_size");
            let v = u64f!("flags");
            rec = rec.u("pmu_format", (v >> 8) & 0xff);
        }
        T_ITRACE => {
            u32f!("pid");
            u32f!("tid");
        }
        T_LOST_SAMPLES => {
            u64f!("lost");
        }
        T_SWITCH => {}
        T_SWITCH_CPU => {
            u32f!("pid");
            u32f!("tid");
            rec = rec.u("out", (misc & MISC_SWITCH_OUT != 0) as u64);
        }
        T_NAMESPACES => {
            let (p, t) = (r.v32(), r.v32());
            let n = match r.below(4) {
                0 => 7,
                _ => r.len(lim.n),
            };
            let e: Vec<(u64, u64)> = (0..n).map(|_| (r.v64(), r.v64())).collect();
            w.push(W::U32(p));
            w.push(W::U32(t));
            w.push(W::N(8, n as u64, 16));
            for &(a, b) in &e {
                w.push(W::U64(a));
                w.push(W::U64(b));
            }
            rec = ns_rec(p, t, &e);
        }
        T_KSYMBOL => {
            u64f!("addr");
            u32f!("len");
            u16f!("ksym_type");
            u16f!("flags");
            strf!("name");
        }
        T_BPF => {
            u16f!("ty");
            u16f!("flags");
            u32f!("id");
            let t = r.bytes(8);
            w.push(W::Bytes(t.clone()));
            rec = rec.b("tag", &t);
        }
        T_CGROUP => {
            u64f!("id");
            strf!("path");
        }
        T_TEXT_POKE => {
            u64f!("addr");
            let (a, b) = (r.len(lim.s), r.len(lim.s));
            let (old, new) = (r.bytes(a), r.bytes(b));
            w.push(W::N(2, a as u64, 1));
            w.push(W::N(2, b as u64, 1));
            w.push(W::Bytes(old.clone()));
            w.push(W::Bytes(new.clone()));
            // padded so that the record stays a multiple of 8 (12 bytes precede the arrays)
            let total = 12 + a + b;
            w.push(W::Bytes(vec![if r.bool() { 0 } else { 0xA5 }; (8 - total % 8) % 8]));
            rec = rec.b("old_bytes", &old).b("new_bytes", &new);
        }
        T_AUX_HW => {
            u64f!("hw_id");
        }
        T_SAMPLE => {
            let (ws, rr) = gen_sample(r, c, lim);
            w = ws;
            rec = rr;
        }
        _ => {
            let n = if r.one_in(5) { r.below(lim.s + 1) } else { r.len(lim.s) };
            let d = if r.one_in(4) { vec![0; n] } else { r.bytes(n) };
            w.push(W::Bytes(d.clone()));
            rec = rec.b("data", &d);
        }
    }
    let (trailer, sid) = if ty == T_MMAP || ty == T_SAMPLE { (vec![], empty_sid()) } else { gen_sid(r, c) };
    Built { ty, misc, cfg: *c, body: w, trailer, rec, sid }
}

/// `struct read_format` without GROUP.
pub fn gen_read(r: &mut Rng, c: &Cfg) -> (Vec<W>, Rec) {
    let mut w = vec![];
    let value = r.v64();
    w.push(W::U64(value));
    let mut opt = |f: u64, r: &mut Rng| {
        (c.rf & f != 0).then(|| {
            let v = r.v64();
            w.push(W::U64(v));
            v
        })
    };
    let en = opt(F_ENABLED, r);
    let ru = opt(F_RUNNING, r);
    let id = opt(F_ID, r);
    let lost = opt(F_LOST, r);
    (w, read_rec(value, en, ru, id, lost))
}

/// `struct read_format` with GROUP: (program, time_enabled, time_running, rows)
pub fn gen_group(r: &mut Rng, c: &Cfg, max: usize) -> (Vec<W>, Option<u64>, Option<u64>, Vec<Vec<u64>>) {
    let n = r.len(max);
    let unit = 8 * (1 + (c.rf & F_ID != 0) as u32 + (c.rf & F_LOST != 0) as u32);
    let mut w = vec![W::N(8, n as u64, unit)];
    let opt = |w: &mut Vec<W>, f: u64, r: &mut Rng| {
        (c.rf & f != 0).then(|| {
            // few distinct ids, so that lookups meet duplicates
            let v = if f == F_ID && r.bool() { r.below(6) as u64 } else { r.v64() };
            w.push(W::U64(v));
            v
        })
    };
    let en = opt(&mut w, F_ENABLED, r);
    let ru = opt(&mut w, F_RUNNING, r);
    let mut rows = vec![];
    for _ in 0..n {
        let v = r.v64();
        w.push(W::U64(v));
        let id = opt(&mut w, F_ID, r);
        let lost = opt(&mut w, F_LOST, r);
        rows.push(entry_row(v, id, lost));
    }
    (w, en, ru, rows)
}

pub fn gen_sample(r: &mut Rng, c: &Cfg, lim: Lim) -> (Vec<W>, Rec) {
    let mut w: Vec<W> = vec![];
    let mut id = None;
    macro_rules! f64o { ($flag:expr) => { c.has($flag).then(|| { let v = r.v64(); w.push(W::U64(v)); v }) } }
    let ident = f64o!(S_IDENTIFIER);
    let ip = f64o!(S_IP);
    let pt = c.has(S_TID).then(|| {
        let (p, t) = (r.v32(), r.v32());
        w.push(W::U32(p));
        w.push(W::U32(t));
        (p as u64, t as u64)
    });
    let time = f64o!(S_TIME);
    let addr = f64o!(S_ADDR);
    if c.has(S_ID) {
        let v = match ident {
            Some(v) if r.bool() => v,
            _ => r.v64(),
        };
        w.push(W::U64(v));
        id = Some(v);
    }
    let id = id.or(ident);
    let stream = f64o!(S_STREAM_ID);
    let cpu = c.has(S_CPU).then(|| {
        let v = r.v32();
        w.push(W::U32(v));
        w.push(W::U32(r.v32()));
        v as u64
    });
    let period = f64o!(S_PERIOD);
    let (mut v_en, mut v_ru, mut v_rows) = (None, None, None);
    if c.has(S_READ) {
        if c.rf & F_GROUP != 0 {
            let (ws, en, ru, rows) = gen_group(r, c, lim.n);
            w.extend(ws);
            v_en = en;
            v_ru = ru;
            v_rows = Some(rows);
        } else {
            let (ws, rr) = gen_read(r, c);
            w.extend(ws);
            let g = |k: &str| match rr.get(k) {
                Some(Val::U(v)) => Some(*v),
                _ => None,
            };
            v_en = g("time_enabled");
            v_ru = g("time_running");
            v_rows = Some(vec![entry_row(g("value").unwrap(), g("id"), g("lost"))]);
        }
    }
    let chain = c.has(S_CALLCHAIN).then(|| {
        let n = r.len(lim.n);
        w.push(W::N(8, n as u64, 8));
        (0..n)
            .map(|_| {
                let v = r.v64();
                w.push(W::U64(v));
                vec![v]
            })
            .collect::<Vec<_>>()
    });
    let raw = c.has(S_RAW).then(|| {
        let n = if r.bool() { 4 + 8 * r.len(lim.s / 8) } else { r.len(lim.s) };
        let n = n.min(lim.s);
        let d = r.bytes(n);
        w.push(W::N(4, n as u64, 1));
        w.push(W::Bytes(d.clone()));
        w.push(W::Bytes(vec![if r.bool() { 0 } else { 0x5A }; (8 - (4 + n) % 8) % 8]));
        d
    });
    let mut hw_idx = None;
    let lbr = c.has(S_BRANCH).then(|| {
        let n = r.len(lim.n.min(400));
        w.push(W::N(8, n as u64, 24));
        if c.hw {
            let v = r.v64();
            w.push(W::U64(v));
            hw_idx = Some(v);
        }
        let rows = (0..n)
            .map(|_| {
                let (a, b, f) = (r.v64(), r.v64(), r.v64());
                w.push(W::U64(a));
                w.push(W::U64(b));
                w.push(W::U64(f));
                branch_row(a, b, f)
            })
            .collect::<Vec<_>>();
        if c.bc {
            for _ in 0..n {
                w.push(W::U64(r.v64()));
            }
        }
        rows
    });
    let regs = |w: &mut Vec<W>, r: &mut Rng, on: bool, mask: u64| {
        on.then(|| {
            let abi = match r.below(5) {
                0 => 0,
                1 => 1,
                2 => r.v64().max(1),
                _ => 2,
            };
            w.push(W::U64(abi));
            let mut vals = vec![];
            if abi != 0 {
                for _ in 0..mask.count_ones() {
                    let v = r.v64();
                    w.push(W::U64(v));
                    vals.push(vec![v]);
                }
            }
            (abi, vals)
        })
    };
    let ru = regs(&mut w, r, c.has(S_REGS_USER), c.ru);
    let stack = c.has(S_STACK_USER).then(|| {
        let n = r.len(lim.s / 8) * 8;
        let d = r.bytes(n);
        w.push(W::N(8, n as u64, 1));
        if n == 0 {
            return vec![];
        }
        w.push(W::Bytes(d.clone()));
        let dynsz = match r.below(4) {
            0 => n,
            1 => 0,
            _ => r.below(n + 1),
        };
        w.push(W::U64(dynsz as u64));
        d[..dynsz].to_vec()
    });
    let weight = (c.has(S_WEIGHT) || c.has(S_WEIGHT_STRUCT)).then(|| {
        let v = r.v64();
        w.push(W::U64(v));
        v
    });
    macro_rules! f64p { ($flag:expr) => { c.has($flag).then(|| { let v = r.v64(); w.push(W::U64(v)); v }) } }
    let dsrc = f64p!(S_DATA_SRC);
    let txn = f64p!(S_TRANSACTION);
    let ri = regs(&mut w, r, c.has(S_REGS_INTR), c.ri);
    let phys = f64p!(S_PHYS_ADDR);
    let cgroup = f64p!(S_CGROUP);
    let dps = f64p!(S_DATA_PAGE);
    let cps = f64p!(S_CODE_PAGE);
    let aux = c.has(S_AUX).then(|| {
        let n = r.len(lim.s / 8) * 8;
        let d = r.bytes(n);
        w.push(W::N(8, n as u64, 1));
        w.push(W::Bytes(d.clone()));
        d
    });
    let rec = sample_rec(SampleVals {
        id,
        ip,
        pid: pt.map(|p| p.0),
        tid: pt.map(|p| p.1),
        time,
        addr,
        stream,
        cpu,
        period,
        values: v_rows.map(|rows| (v_en, v_ru, rows)),
        chain,
        raw,
        hw_idx,
        lbr,
        ru: ru.map(|(a, v)| (a, c.ru, v)),
        stack,
        weight,
        dsrc: dsrc.map(datasrc_row),
        txn,
        ri: ri.map(|(a, v)| (a, c.ri, v)),
        phys,
        aux,
        cgroup,
        dps,
        cps,
    });
    (w, rec)
}

#[derive(Default)]
pub struct SampleVals {
    pub id: Option<u64>,
    pub ip: Option<u64>,
    pub pid: Option<u64>,
    pub tid: Option<u64>,
    pub time: Option<u64>,
    pub addr: Option<u64>,
    pub stream: Option<u64>,
    pub cpu: Option<u64>,
    pub period: Option<u64>,
    pub values: Option<(Option<u64>, Option<u64>, Vec<Vec<u64>>)>,
    pub chain: Option<Vec<Vec<u64>>>,
    pub raw: Option<Vec<u8>>,
    pub hw_idx: Option<u64>,
    pub lbr: Option<Vec<Vec<u64>>>,
    pub ru: Option<(u64, u64, Vec<Vec<u64>>)>,
    pub stack: Option<Vec<u8>>,
    pub weight: Option<u64>,
    pub dsrc: Option<Vec<u64>>,
    pub txn: Option<u64>,
    pub ri: Option<(u64, u64, Vec<Vec<u64>>)>,
    pub phys: Option<u64>,
    pub aux: Option<Vec<u8>>,
    pub cgroup: Option<u64>,
    pub dps: Option<u64>,
    pub cps: Option<u64>,
}

pub fn sample_rec(s: SampleVals) -> Rec {
    let (vp, ve, vr, vl) = match s.values {
        Some((e, r, l)) => (Some(1), e, r, Some(l)),
        None => (None, None, None, None),
    };
    let (ua, um, uv) = split3(s.ru);
    let (ia, im, iv) = split3(s.ri);
    Rec::new("sample")
        .o("id", s.id)
        .o("ip", s.ip)
        .o("pid", s.pid)
        .o("tid", s.tid)
        .o("time", s.time)
        .o("addr", s.addr)
        .o("stream_id", s.stream)
        .o("cpu", s.cpu)
        .o("period", s.period)
        .o("values", vp)
        .o("values.time_enabled", ve)
        .o("values.time_running", vr)
        .ol("values.entries", vl)
        .ol("callchain", s.chain)
        .ob("raw", s.raw.as_deref())
        .o("lbr_hw_index", s.hw_idx)
        .ol("lbr", s.lbr)
        .o("regs_user.abi", ua)
        .o("regs_user.mask", um)
        .ol("regs_user.regs", uv)
        .ob("stack_user", s.stack.as_deref())
        .o("weight", s.weight)
        .ol("data_src", s.dsrc.map(|r| vec![r]))
        .o("transaction", s.txn)
        .o("regs_intr.abi", ia)
        .o("regs_intr.mask", im)
        .ol("regs_intr.regs", iv)
        .o("phys_addr", s.phys)
        .ob("aux", s.aux.as_deref())
        .o("cgroup", s.cgroup)
        .o("data_page_size", s.dps)
        .o("code_page_size", s.cps)
}

fn split3(v: Option<(u64, u64, Vec<Vec<u64>>)>) -> (Option<u64>, Option<u64>, Option<Vec<Vec<u64>>>) {
    match v {
        Some((a, m, l)) => (Some(a), Some(m), Some(l)),
        None => (None, None, None),
    }
}

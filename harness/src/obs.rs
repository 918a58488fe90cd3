//! Observation of the crate under test: converts every returned object into canonical records
//! through its public accessors, and drives the parsing entry points.

use crate::model::*;
use perf_event_data::endian::{Big, Dynamic, Endian, Little, Native};
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_header;
use std::borrow::Cow;

fn o32(v: Option<u32>) -> Option<u64> {
    v.map(|v| v as u64)
}

pub fn r_sid(s: &SampleId) -> Rec {
    sid_rec(o32(s.pid()), o32(s.tid()), s.time(), s.id(), s.stream_id(), o32(s.cpu()))
}
/// The field and its OS-string accessor must agree; if not, the difference becomes visible.
fn with_os(field: &[u8], os: &std::ffi::OsStr) -> Vec<u8> {
    use std::os::unix::ffi::OsStrExt;
    if field == os.as_bytes() {
        field.to_vec()
    } else {
        [b"<accessor returns> ", os.as_bytes(), b" <field is> ", field].concat()
    }
}
pub fn r_mmap(m: &Mmap) -> Rec {
    Rec::new("mmap")
        .u("pid", m.pid)
        .u("tid", m.tid)
        .u("addr", m.addr)
        .u("len", m.len)
        .u("pgoff", m.pgoff)
        .b("filename", &with_os(&m.filename, m.filename_os()))
}
pub fn r_lost(m: &Lost) -> Rec {
    Rec::new("lost").u("id", m.id).u("lost", m.lost)
}
pub fn r_comm(m: &Comm) -> Rec {
    Rec::new("comm").u("pid", m.pid).u("tid", m.tid).b("comm", &with_os(&m.comm, m.comm_os()))
}
pub fn r_exit(k: &'static str, m: &Exit) -> Rec {
    Rec::new(k).u("pid", m.pid).u("ppid", m.ppid).u("tid", m.tid).u("ptid", m.ptid).u("time", m.time)
}
pub fn r_throttle(k: &'static str, m: &Throttle) -> Rec {
    Rec::new(k).u("time", m.time).u("id", m.id).u("stream_id", m.stream_id)
}
pub fn r_readvalue(v: &ReadValue) -> Rec {
    read_rec(v.value(), v.time_enabled(), v.time_running(), v.id(), v.lost())
}
pub fn r_read(m: &perf_event_data::Read) -> Rec {
    let mut r = Rec::new("read").u("pid", m.pid).u("tid", m.tid);
    r.f.extend(r_readvalue(&m.values).f);
    r
}
pub fn r_mmap2(m: &Mmap2) -> Rec {
    let r = Rec::new("mmap2").u("pid", m.pid).u("tid", m.tid).u("addr", m.addr).u("len", m.len).u("pgoff", m.pgoff);
    let r = r.o("maj", o32(m.maj())).o("min", o32(m.min())).o("ino", m.ino()).o("ino_generation", m.ino_generation());
    r.ob("build_id", m.build_id()).u("prot", m.prot).u("flags", m.flags).b("filename", &with_os(&m.filename, m.filename_os()))
}
pub fn r_aux(m: &Aux) -> Rec {
    Rec::new("aux")
        .u("aux_offset", m.aux_offset)
        .u("aux_size", m.aux_size)
        .u("flags", m.flags.bits())
        .u("pmu_format", m.flags.pmu_format_type().0 as u64)
}
pub fn r_itrace(m: &ITraceStart) -> Rec {
    Rec::new("itrace_start").u("pid", m.pid).u("tid", m.tid)
}
pub fn r_lost_samples(m: &LostSamples) -> Rec {
    Rec::new("lost_samples").u("lost", m.lost)
}
pub fn r_switch_cpu(m: &SwitchCpuWide) -> Rec {
    Rec::new("switch_cpu_wide").u("pid", m.pid()).u("tid", m.tid()).u("out", matches!(m, SwitchCpuWide::Out { .. }) as u64)
}
pub fn r_namespaces(m: &Namespaces) -> Rec {
    let row = |e: &NamespaceEntry| vec![e.dev, e.inode];
    let mut r = Rec::new("namespaces").u("pid", m.pid).u("tid", m.tid).l("namespaces", m.namespaces.iter().map(row).collect());
    for (n, v) in [
        ("network", m.network()),
        ("uts", m.uts()),
        ("ipc", m.ipc()),
        ("pid_ns", m.pid()),
        ("user", m.user()),
        ("cgroup", m.cgroup()),
    ] {
        r = r.ol(n, v.map(|e| vec![row(e)]));
    }
    r
}
pub fn r_ksymbol(m: &KSymbol) -> Rec {
    Rec::new("ksymbol")
        .u("addr", m.addr)
        .u("len", m.len)
        .u("ksym_type", m.ksym_type.0 as u64)
        .u("flags", m.flags.bits() as u64)
        .b("name", &m.name)
}
pub fn r_bpf(m: &BpfEvent) -> Rec {
    Rec::new("bpf_event").u("ty", m.ty.0 as u64).u("flags", m.flags).u("id", m.id).b("tag", &m.tag)
}
pub fn r_cgroup(m: &CGroup) -> Rec {
    Rec::new("cgroup").u("id", m.id).b("path", &with_os(&m.path, m.path_os().as_os_str()))
}
pub fn r_text_poke(m: &TextPoke) -> Rec {
    Rec::new("text_poke").u("addr", m.addr).b("old_bytes", &m.old_bytes).b("new_bytes", &m.new_bytes)
}
pub fn r_aux_hw(m: &AuxOutputHwId) -> Rec {
    Rec::new("aux_output_hw_id").u("hw_id", m.hw_id)
}
pub fn r_unknown(d: &[u8]) -> Rec {
    Rec::new("unknown").b("data", d)
}
pub fn group_rows(g: &ReadGroup) -> Vec<Vec<u64>> {
    g.entries().map(|e| entry_row(e.value(), e.id(), e.lost())).collect()
}
pub fn lbr_row(b: &BranchEntry) -> Vec<u64> {
    vec![
        b.from(),
        b.to(),
        b.mispred() as u64,
        b.predicted() as u64,
        b.in_tx() as u64,
        b.abort() as u64,
        b.cycles() as u64,
        b.ty().0 as u64,
    ]
}
pub fn ds_row(d: &DataSource) -> Vec<u64> {
    vec![
        d.mem_op().bits(),
        d.mem_lvl().bits(),
        d.mem_snoop().bits(),
        d.mem_lock().bits(),
        d.mem_dtlb().bits(),
        d.mem_lvl_num().0 as u64,
        d.mem_remote() as u64,
        d.mem_blk().bits(),
        d.mem_hops() as u64,
    ]
}
pub fn r_sample(m: &Sample) -> Rec {
    let words = |s: &[u64]| s.iter().map(|&v| vec![v]).collect::<Vec<_>>();
    let regs = |r: &Registers| (r.abi.0, r.mask, words(&r.regs));
    sample_rec(SampleVals {
        id: m.id(),
        ip: m.ip(),
        pid: o32(m.pid()),
        tid: o32(m.tid()),
        time: m.time(),
        addr: m.addr(),
        stream: m.stream_id(),
        cpu: o32(m.cpu()),
        period: m.period(),
        values: m.values().map(|g| (g.time_enabled(), g.time_running(), group_rows(g))),
        chain: m.callchain().map(words),
        raw: m.raw().map(|b| b.to_vec()),
        hw_idx: m.lbr_hw_index(),
        lbr: m.lbr().map(|l| l.iter().map(lbr_row).collect()),
        ru: m.regs_user().map(regs),
        stack: m.stack_user().map(|b| b.to_vec()),
        weight: m.weight(),
        dsrc: m.data_src().map(|d| ds_row(&d)),
        txn: m.transaction().map(|t| t.bits()),
        ri: m.regs_intr().map(regs),
        phys: m.phys_addr(),
        aux: m.aux().map(|b| b.to_vec()),
        cgroup: m.cgroup(),
        dps: m.data_page_size(),
        cps: m.code_page_size(),
    })
}

/// Canonical form of a `Record`.
pub fn r_record(r: &Record) -> Rec {
    match r {
        Record::Mmap(m) => r_mmap(m),
        Record::Lost(m) => r_lost(m),
        Record::Comm(m) => r_comm(m),
        Record::Exit(m) => r_exit("exit", m),
        Record::Throttle(m) => r_throttle("throttle", m),
        Record::Unthrottle(m) => r_throttle("unthrottle", m),
        Record::Fork(m) => r_exit("fork", m),
        Record::Read(m) => r_read(m),
        Record::Sample(m) => r_sample(m),
        Record::Mmap2(m) => r_mmap2(m),
        Record::Aux(m) => r_aux(m),
        Record::ITraceStart(m) => r_itrace(m),
        Record::LostSamples(m) => r_lost_samples(m),
        Record::Switch => Rec::new("switch"),
        Record::SwitchCpuWide(m) => r_switch_cpu(m),
        Record::Namespaces(m) => r_namespaces(m),
        Record::KSymbol(m) => r_ksymbol(m),
        Record::BpfEvent(m) => r_bpf(m),
        Record::CGroup(m) => r_cgroup(m),
        Record::TextPoke(m) => r_text_poke(m),
        Record::AuxOutputHwId(m) => r_aux_hw(m),
        Record::Unknown { data, .. } => r_unknown(data),
        _ => Rec::new("unlisted"),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub method: &'static str,
    /// header type and misc as reported by the metadata (absent where the entry point has none)
    pub meta: Option<(u32, u16)>,
    pub sid: Option<Rec>,
    pub rec: Rec,
}

pub struct ObsVisitor;

fn ob(method: &'static str, md: RecordMetadata, rec: Rec) -> Obs {
    Obs { method, meta: Some((md.ty(), md.misc())), sid: Some(r_sid(md.sample_id())), rec }
}

impl<'a> Visitor<'a> for ObsVisitor {
    type Output = Obs;
    fn visit_unimplemented(self, m: RecordMetadata) -> Obs {
        ob("unimplemented", m, Rec::new("none"))
    }
    fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> Obs {
        ob("mmap", m, r_mmap(&r))
    }
    fn visit_lost(self, r: Lost, m: RecordMetadata) -> Obs {
        ob("lost", m, r_lost(&r))
    }
    fn visit_comm(self, r: Comm<'a>, m: RecordMetadata) -> Obs {
        ob("comm", m, r_comm(&r))
    }
    fn visit_exit(self, r: Exit, m: RecordMetadata) -> Obs {
        ob("exit", m, r_exit("exit", &r))
    }
    fn visit_throttle(self, r: Throttle, m: RecordMetadata) -> Obs {
        ob("throttle", m, r_throttle("throttle", &r))
    }
    fn visit_unthrottle(self, r: Throttle, m: RecordMetadata) -> Obs {
        ob("unthrottle", m, r_throttle("unthrottle", &r))
    }
    fn visit_fork(self, r: Fork, m: RecordMetadata) -> Obs {
        ob("fork", m, r_exit("fork", &r))
    }
    fn visit_read(self, r: perf_event_data::Read, m: RecordMetadata) -> Obs {
        ob("read", m, r_read(&r))
    }
    fn visit_sample(self, r: Sample<'a>, m: RecordMetadata) -> Obs {
        ob("sample", m, r_sample(&r))
    }
    fn visit_mmap2(self, r: Mmap2<'a>, m: RecordMetadata) -> Obs {
        ob("mmap2", m, r_mmap2(&r))
    }
    fn visit_aux(self, r: Aux, m: RecordMetadata) -> Obs {
        ob("aux", m, r_aux(&r))
    }
    fn visit_itrace_start(self, r: ITraceStart, m: RecordMetadata) -> Obs {
        ob("itrace_start", m, r_itrace(&r))
    }
    fn visit_lost_samples(self, r: LostSamples, m: RecordMetadata) -> Obs {
        ob("lost_samples", m, r_lost_samples(&r))
    }
    fn visit_switch(self, m: RecordMetadata) -> Obs {
        ob("switch", m, Rec::new("switch"))
    }
    fn visit_switch_cpu_wide(self, r: SwitchCpuWide, m: RecordMetadata) -> Obs {
        ob("switch_cpu_wide", m, r_switch_cpu(&r))
    }
    fn visit_namespaces(self, r: Namespaces<'a>, m: RecordMetadata) -> Obs {
        ob("namespaces", m, r_namespaces(&r))
    }
    fn visit_ksymbol(self, r: KSymbol<'a>, m: RecordMetadata) -> Obs {
        ob("ksymbol", m, r_ksymbol(&r))
    }
    fn visit_bpf_event(self, r: BpfEvent, m: RecordMetadata) -> Obs {
        ob("bpf_event", m, r_bpf(&r))
    }
    fn visit_cgroup(self, r: CGroup<'a>, m: RecordMetadata) -> Obs {
        ob("cgroup", m, r_cgroup(&r))
    }
    fn visit_text_poke(self, r: TextPoke<'a>, m: RecordMetadata) -> Obs {
        ob("text_poke", m, r_text_poke(&r))
    }
    fn visit_aux_output_hw_id(self, r: AuxOutputHwId, m: RecordMetadata) -> Obs {
        ob("aux_output_hw_id", m, r_aux_hw(&r))
    }
    fn visit_unknown(self, d: Cow<'a, [u8]>, m: RecordMetadata) -> Obs {
        ob("unknown", m, r_unknown(&d))
    }
}

/// A visitor that keeps the whole record together with its metadata.
pub struct KeepVisitor;
macro_rules! keep { ($($f:ident($t:ty) $v:ident;)*) => { $(
    fn $f(self, r: $t, m: RecordMetadata) -> Self::Output { (Record::$v(r), m) }
)* } }
impl<'a> Visitor<'a> for KeepVisitor {
    type Output = (Record<'a>, RecordMetadata);
    fn visit_unimplemented(self, m: RecordMetadata) -> Self::Output {
        (Record::Unknown { ty: m.ty(), data: Cow::Borrowed(b"<unimplemented>") }, m)
    }
    keep! {
        visit_mmap(Mmap<'a>) Mmap;
        visit_lost(Lost) Lost;
        visit_comm(Comm<'a>) Comm;
        visit_exit(Exit) Exit;
        visit_throttle(Throttle) Throttle;
        visit_unthrottle(Throttle) Unthrottle;
        visit_fork(Fork) Fork;
        visit_read(perf_event_data::Read) Read;
        visit_mmap2(Mmap2<'a>) Mmap2;
        visit_aux(Aux) Aux;
        visit_itrace_start(ITraceStart) ITraceStart;
        visit_lost_samples(LostSamples) LostSamples;
        visit_switch_cpu_wide(SwitchCpuWide) SwitchCpuWide;
        visit_namespaces(Namespaces<'a>) Namespaces;
        visit_ksymbol(KSymbol<'a>) KSymbol;
        visit_bpf_event(BpfEvent) BpfEvent;
        visit_cgroup(CGroup<'a>) CGroup;
        visit_text_poke(TextPoke<'a>) TextPoke;
        visit_aux_output_hw_id(AuxOutputHwId) AuxOutputHwId;
    }
    fn visit_sample(self, r: Sample<'a>, m: RecordMetadata) -> Self::Output {
        (Record::Sample(Box::new(r)), m)
    }
    fn visit_switch(self, m: RecordMetadata) -> Self::Output {
        (Record::Switch, m)
    }
    fn visit_unknown(self, data: Cow<'a, [u8]>, m: RecordMetadata) -> Self::Output {
        (Record::Unknown { ty: m.ty(), data }, m)
    }
}

// ---------------------------------------------------------------- outcomes and entry points

#[derive(Clone, Debug)]
pub enum Out<T> {
    Ok(T),
    Err(ErrorKind),
    Panic(String),
}

impl<T> Out<T> {
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(ErrorKind::Eof) => "err:eof",
            Out::Err(ErrorKind::InvalidRecord) => "err:invalid",
            Out::Err(ErrorKind::UnsupportedConfig) => "err:config",
            Out::Err(ErrorKind::UnsupportedData) => "err:data",
            Out::Err(ErrorKind::External) => "err:external",
            Out::Err(_) => "err:other",
            Out::Panic(_) => "panic",
        }
    }
}

pub fn out_text(o: &Out<Obs>) -> String {
    match o {
        Out::Ok(x) => {
            let mut s = format!("Ok via {} meta={:?}", x.method, x.meta);
            for (k, v) in x.rec.f.iter().take(40) {
                s.push_str(&format!(" {k}={}", vtext(v)));
                if s.len() > 900 {
                    s.push_str(" ...");
                    break;
                }
            }
            s
        }
        Out::Err(k) => format!("Err({k:?})"),
        Out::Panic(m) => format!("panic: {m}"),
    }
}

/// Compare two outcomes: same success, same values, same metadata (error kinds may differ).
pub fn out_diff(a: &Out<Obs>, b: &Out<Obs>) -> Option<String> {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => {
            if let Some(d) = x.rec.diff(&y.rec) {
                return Some(d);
            }
            if x.method != y.method {
                return Some(format!("callback {} vs {}", x.method, y.method));
            }
            if let (Some(m), Some(n)) = (x.meta, y.meta) {
                if m != n {
                    return Some(format!("metadata {m:?} vs {n:?}"));
                }
            }
            if let (Some(m), Some(n)) = (&x.sid, &y.sid) {
                if let Some(d) = m.diff(n) {
                    return Some(format!("sample id: {d}"));
                }
            }
            None
        }
        (Out::Err(_), Out::Err(_)) => None,
        (Out::Panic(_), Out::Panic(_)) => None,
        _ => Some(format!("{} vs {}", a.tag(), b.tag())),
    }
}

pub fn guarded<T>(f: impl FnOnce() -> ParseResult<T>) -> Out<T> {
    match crate::crash::guard(f) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e.kind()),
        Err(m) => Out::Panic(m),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry {
    Visit,
    VisitHdr,
    Enum,
    EnumHdr,
    Meta,
    MetaHdr,
}
pub const ENTRIES: [Entry; 6] = [Entry::Visit, Entry::VisitHdr, Entry::Enum, Entry::EnumHdr, Entry::Meta, Entry::MetaHdr];

/// Parse the body of a record whose metadata was split off, by naming its type.
pub fn parse_body<'p, B: ParseBuf<'p>, E: Endian>(ty: u32, p: &mut Parser<B, E>) -> ParseResult<Rec> {
    Ok(match ty {
        T_MMAP => r_mmap(&p.parse()?),
        T_LOST => r_lost(&p.parse()?),
        T_COMM => r_comm(&p.parse()?),
        T_EXIT => r_exit("exit", &p.parse()?),
        T_THROTTLE => r_throttle("throttle", &p.parse()?),
        T_UNTHROTTLE => r_throttle("unthrottle", &p.parse()?),
        T_FORK => r_exit("fork", &p.parse()?),
        T_READ => r_read(&p.parse()?),
        T_SAMPLE => r_sample(&p.parse()?),
        T_MMAP2 => r_mmap2(&p.parse()?),
        T_AUX => r_aux(&p.parse()?),
        T_ITRACE => r_itrace(&p.parse()?),
        T_LOST_SAMPLES => r_lost_samples(&p.parse()?),
        T_SWITCH => Rec::new("switch"),
        T_SWITCH_CPU => r_switch_cpu(&p.parse()?),
        T_NAMESPACES => r_namespaces(&p.parse()?),
        T_KSYMBOL => r_ksymbol(&p.parse()?),
        T_BPF => r_bpf(&p.parse()?),
        T_CGROUP => r_cgroup(&p.parse()?),
        T_TEXT_POKE => r_text_poke(&p.parse()?),
        T_AUX_HW => r_aux_hw(&p.parse()?),
        _ => r_unknown(&p.parse_rest()?),
    })
}

/// Drive one entry point (not guarded).
pub fn enter<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, e: Entry) -> ParseResult<Obs> {
    match e {
        Entry::Visit => p.parse_record(ObsVisitor),
        Entry::VisitHdr => {
            let h: perf_event_header = p.parse()?;
            p.parse_record_with_header(ObsVisitor, h)
        }
        Entry::Enum => {
            let r: Record = p.parse()?;
            Ok(enum_obs(&r))
        }
        Entry::EnumHdr => {
            let h: perf_event_header = p.parse()?;
            let r = Record::parse_with_header(p, h)?;
            Ok(enum_obs(&r))
        }
        Entry::Meta => {
            let (mut q, m) = p.parse_metadata()?;
            let rec = parse_body(m.ty(), &mut q)?;
            Ok(ob(rec.kind, m, rec))
        }
        Entry::MetaHdr => {
            let h: perf_event_header = p.parse()?;
            let (mut q, m) = p.parse_metadata_with_header(h)?;
            let rec = parse_body(m.ty(), &mut q)?;
            Ok(ob(rec.kind, m, rec))
        }
    }
}

pub fn enum_obs(r: &Record) -> Obs {
    let rec = r_record(r);
    let meta = match r {
        // the enum carries the type of unknown records only
        Record::Unknown { .. } => None,
        _ => None,
    };
    Obs { method: rec.kind, meta, sid: None, rec }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Native,
    Little,
    Big,
    DynLittle,
    DynBig,
    /// an implementation of `Endian` the library does not know, which keeps its defaults
    UserLittle,
    UserBig,
}
pub const HOST_BE: bool = cfg!(target_endian = "big");
impl End {
    /// Is this declared to be the byte order of the host (so that data may be used in place)?
    pub fn host(self) -> bool {
        self.be() == HOST_BE && !matches!(self, End::UserLittle | End::UserBig)
    }
    pub fn be(self) -> bool {
        match self {
            End::Native => HOST_BE,
            End::Little | End::DynLittle | End::UserLittle => false,
            End::Big | End::DynBig | End::UserBig => true,
        }
    }
}

/// A byte order supplied by the user, who never claims that it is the host's.  The flag is kept on
/// the heap: the library has to clone and drop the value like any other.
#[derive(Clone, Debug)]
pub struct UserOrder(std::sync::Arc<bool>);
impl UserOrder {
    pub fn new(be: bool) -> Self {
        UserOrder(std::sync::Arc::new(be))
    }
}
unsafe impl perf_event_data::endian::Endian for UserOrder {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        if *self.0 { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) }
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        if *self.0 { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        if *self.0 { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) }
    }
}
pub const LES: [End; 3] = [End::Native, End::Little, End::DynLittle];
pub const BES: [End; 2] = [End::Big, End::DynBig];

/// Call `$body` with `$c` bound to the ParseConfig of the chosen byte order.
#[macro_export]
macro_rules! with_end {
    ($end:expr, $attr:expr, |$c:ident| $body:expr) => {{
        use perf_event_data::endian::{Big, Dynamic, Little, Native};
        use perf_event_data::parse::ParseConfig;
        let __n: ParseConfig<Native> = ParseConfig::from($attr);
        match $end {
            $crate::obs::End::Native => {
                let $c = __n;
                $body
            }
            $crate::obs::End::Little => {
                let $c = __n.with_endian(Little);
                $body
            }
            $crate::obs::End::Big => {
                let $c = __n.with_endian(Big);
                $body
            }
            $crate::obs::End::DynLittle => {
                let $c = __n.with_endian(Dynamic::Little);
                $body
            }
            $crate::obs::End::DynBig => {
                let $c = __n.with_endian(Dynamic::Big);
                $body
            }
            $crate::obs::End::UserLittle | $crate::obs::End::UserBig => {
                let $c = __n.with_endian($crate::obs::UserOrder::new($end == $crate::obs::End::UserBig));
                $body
            }
        }
    }};
}

/// Parse one record from a slice.
pub fn parse_slice_obs(data: &[u8], cfg: &Cfg, end: End, entry: Entry) -> Out<Obs> {
    with_end!(end, cfg.attr(), |c| guarded(|| enter(&mut Parser::new(data, c), entry)))
}

/// Parse one record from any source.
pub fn parse_buf_obs<'p, B: ParseBuf<'p>>(buf: B, cfg: &Cfg, end: End, entry: Entry) -> Out<Obs> {
    with_end!(end, cfg.attr(), |c| guarded(|| enter(&mut Parser::new(buf, c), entry)))
}

#[allow(dead_code)]
fn _unused(_: (Big, Dynamic, Little, Native)) {}

use super::decode::case_text;
use super::delivery::{damage, r_attr, AttrVals, ATTR_SIZES};
use crate::bufs::*;
use crate::gens::*;
use crate::kf::{self, Geo};
use crate::model::*;
use crate::obs::*;
use crate::run::*;
use crate::util::*;
use crate::{with_delivery, with_end};
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{__BindgenBitfieldUnit, perf_event_attr};
use std::borrow::Cow;
use std::cell::Cell;
use std::rc::Rc;

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, PartialEq)]
struct Call {
    method: &'static str,
    ty: u32,
    misc: u16,
    sid: Rec,
    rec: Option<Rec>,
}

fn call(n: &Cell<u32>, method: &'static str, m: RecordMetadata, rec: Option<Rec>) -> Call {
    n.set(n.get() + 1);
    Call { method, ty: m.ty(), misc: m.misc(), sid: r_sid(m.sample_id()), rec }
}

struct Full<'c>(&'c Cell<u32>);
macro_rules! full { ($($f:ident($t:ty) $n:literal $conv:expr;)*) => { $(
    fn $f(self, r: $t, m: RecordMetadata) -> Call { call(self.0, $n, m, Some($conv(&r))) }
)* } }
impl<'a> Visitor<'a> for Full<'_> {
    type Output = Call;
    fn visit_unimplemented(self, m: RecordMetadata) -> Call {
        call(self.0, "unimplemented", m, None)
    }
    full! {
        visit_mmap(Mmap<'a>) "mmap" r_mmap;
        visit_lost(Lost) "lost" r_lost;
        visit_comm(Comm<'a>) "comm" r_comm;
        visit_exit(Exit) "exit" |x: &Exit| r_exit("exit", x);
        visit_throttle(Throttle) "throttle" |x: &Throttle| r_throttle("throttle", x);
        visit_unthrottle(Throttle) "unthrottle" |x: &Throttle| r_throttle("unthrottle", x);
        visit_fork(Fork) "fork" |x: &Fork| r_exit("fork", x);
        visit_read(perf_event_data::Read) "read" r_read;
        visit_sample(Sample<'a>) "sample" r_sample;
        visit_mmap2(Mmap2<'a>) "mmap2" r_mmap2;
        visit_aux(Aux) "aux" r_aux;
        visit_itrace_start(ITraceStart) "itrace_start" r_itrace;
        visit_lost_samples(LostSamples) "lost_samples" r_lost_samples;
        visit_switch_cpu_wide(SwitchCpuWide) "switch_cpu_wide" r_switch_cpu;
        visit_namespaces(Namespaces<'a>) "namespaces" r_namespaces;
        visit_ksymbol(KSymbol<'a>) "ksymbol" r_ksymbol;
        visit_bpf_event(BpfEvent) "bpf_event" r_bpf;
        visit_cgroup(CGroup<'a>) "cgroup" r_cgroup;
        visit_text_poke(TextPoke<'a>) "text_poke" r_text_poke;
        visit_aux_output_hw_id(AuxOutputHwId) "aux_output_hw_id" r_aux_hw;
        visit_unknown(Cow<'a, [u8]>) "unknown" |x: &Cow<'a, [u8]>| r_unknown(x);
    }
    fn visit_switch(self, m: RecordMetadata) -> Call {
        call(self.0, "switch", m, Some(Rec::new("switch")))
    }
}

/// Visitors that implement the catch-all and one callback each.
macro_rules! partial { ($($s:ident { $($body:tt)* })*) => { $(
    struct $s<'c>(&'c Cell<u32>);
    impl<'a> Visitor<'a> for $s<'_> {
        type Output = Call;
        fn visit_unimplemented(self, m: RecordMetadata) -> Call { call(self.0, "unimplemented", m, None) }
        $($body)*
    }
)* } }
partial! {
    Bare {}
    OMmap { fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> Call { call(self.0, "mmap", m, Some(r_mmap(&r))) } }
    OLost { fn visit_lost(self, r: Lost, m: RecordMetadata) -> Call { call(self.0, "lost", m, Some(r_lost(&r))) } }
    OComm { fn visit_comm(self, r: Comm<'a>, m: RecordMetadata) -> Call { call(self.0, "comm", m, Some(r_comm(&r))) } }
    OExit { fn visit_exit(self, r: Exit, m: RecordMetadata) -> Call { call(self.0, "exit", m, Some(r_exit("exit", &r))) } }
    OThrottle { fn visit_throttle(self, r: Throttle, m: RecordMetadata) -> Call { call(self.0, "throttle", m, Some(r_throttle("throttle", &r))) } }
    OUnthrottle { fn visit_unthrottle(self, r: Throttle, m: RecordMetadata) -> Call { call(self.0, "unthrottle", m, Some(r_throttle("unthrottle", &r))) } }
    OFork { fn visit_fork(self, r: Fork, m: RecordMetadata) -> Call { call(self.0, "fork", m, Some(r_exit("fork", &r))) } }
    ORead { fn visit_read(self, r: perf_event_data::Read, m: RecordMetadata) -> Call { call(self.0, "read", m, Some(r_read(&r))) } }
    OSample { fn visit_sample(self, r: Sample<'a>, m: RecordMetadata) -> Call { call(self.0, "sample", m, Some(r_sample(&r))) } }
    OMmap2 { fn visit_mmap2(self, r: Mmap2<'a>, m: RecordMetadata) -> Call { call(self.0, "mmap2", m, Some(r_mmap2(&r))) } }
    OAux { fn visit_aux(self, r: Aux, m: RecordMetadata) -> Call { call(self.0, "aux", m, Some(r_aux(&r))) } }
    OItrace { fn visit_itrace_start(self, r: ITraceStart, m: RecordMetadata) -> Call { call(self.0, "itrace_start", m, Some(r_itrace(&r))) } }
    OLostSamples { fn visit_lost_samples(self, r: LostSamples, m: RecordMetadata) -> Call { call(self.0, "lost_samples", m, Some(r_lost_samples(&r))) } }
    OSwitch { fn visit_switch(self, m: RecordMetadata) -> Call { call(self.0, "switch", m, Some(Rec::new("switch"))) } }
    OSwitchCpu { fn visit_switch_cpu_wide(self, r: SwitchCpuWide, m: RecordMetadata) -> Call { call(self.0, "switch_cpu_wide", m, Some(r_switch_cpu(&r))) } }
    ONamespaces { fn visit_namespaces(self, r: Namespaces<'a>, m: RecordMetadata) -> Call { call(self.0, "namespaces", m, Some(r_namespaces(&r))) } }
    OKsymbol { fn visit_ksymbol(self, r: KSymbol<'a>, m: RecordMetadata) -> Call { call(self.0, "ksymbol", m, Some(r_ksymbol(&r))) } }
    OBpf { fn visit_bpf_event(self, r: BpfEvent, m: RecordMetadata) -> Call { call(self.0, "bpf_event", m, Some(r_bpf(&r))) } }
    OCgroup { fn visit_cgroup(self, r: CGroup<'a>, m: RecordMetadata) -> Call { call(self.0, "cgroup", m, Some(r_cgroup(&r))) } }
    OTextPoke { fn visit_text_poke(self, r: TextPoke<'a>, m: RecordMetadata) -> Call { call(self.0, "text_poke", m, Some(r_text_poke(&r))) } }
    OAuxHw { fn visit_aux_output_hw_id(self, r: AuxOutputHwId, m: RecordMetadata) -> Call { call(self.0, "aux_output_hw_id", m, Some(r_aux_hw(&r))) } }
    OUnknown { fn visit_unknown(self, d: Cow<'a, [u8]>, m: RecordMetadata) -> Call { call(self.0, "unknown", m, Some(r_unknown(&d))) } }
}
const PARTIAL: [&str; 23] = [
    "none", "mmap", "lost", "comm", "exit", "throttle", "unthrottle", "fork", "read", "sample", "mmap2", "aux", "itrace_start", "lost_samples",
    "switch", "switch_cpu_wide", "namespaces", "ksymbol", "bpf_event", "cgroup", "text_poke", "aux_output_hw_id", "unknown",
];

fn visit_with<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, which: usize, n: &Cell<u32>) -> ParseResult<Call> {
    match which {
        0 => p.parse_record(Bare(n)),
        1 => p.parse_record(OMmap(n)),
        2 => p.parse_record(OLost(n)),
        3 => p.parse_record(OComm(n)),
        4 => p.parse_record(OExit(n)),
        5 => p.parse_record(OThrottle(n)),
        6 => p.parse_record(OUnthrottle(n)),
        7 => p.parse_record(OFork(n)),
        8 => p.parse_record(ORead(n)),
        9 => p.parse_record(OSample(n)),
        10 => p.parse_record(OMmap2(n)),
        11 => p.parse_record(OAux(n)),
        12 => p.parse_record(OItrace(n)),
        13 => p.parse_record(OLostSamples(n)),
        14 => p.parse_record(OSwitch(n)),
        15 => p.parse_record(OSwitchCpu(n)),
        16 => p.parse_record(ONamespaces(n)),
        17 => p.parse_record(OKsymbol(n)),
        18 => p.parse_record(OBpf(n)),
        19 => p.parse_record(OCgroup(n)),
        20 => p.parse_record(OTextPoke(n)),
        21 => p.parse_record(OAuxHw(n)),
        22 => p.parse_record(OUnknown(n)),
        _ => p.parse_record(Full(n)),
    }
}

pub fn c11(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 11, n);
    let k = n % 24;
    let ty = if k < 21 { KNOWN[k as usize] } else { gen_unknown_type(&mut r) };
    let cfg = gen_cfg(&mut r);
    let b = gen_record(&mut r, ty, &cfg, Lim { s: 60, n: 6 });
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynBig]);
    let be = end.be();
    let valid = r.below(3) != 0;
    let mut bytes = if valid { b.bytes(be) } else { damage(&mut r, &b, be) };
    if !valid && r.bool() {
        let l = r.below(bytes.len() + 1);
        bytes.truncate(l);
    }
    let d = gen_delivery(&mut r, bytes.len()).calm(end);
    let txt = |w: &str| format!("visitor={w} delivery={} {}", d.text(), case_text(&b, &bytes, end));
    let kind = kind_name(ty);
    let mut base: Option<bool> = None;
    let mut which = vec![99usize, 0];
    if r.one_in(4) {
        which.extend(1..23);
    } else {
        which.extend([1 + r.below(22), 1 + r.below(22), 1]);
        if let Some(i) = PARTIAL.iter().position(|p| *p == kind) {
            which.push(i);
        }
    }
    for w in which {
        let calls = Cell::new(0);
        let out = with_delivery!(&d, &bytes, |buf| with_end!(end, b.cfg.attr(), |c| guarded(|| visit_with(&mut Parser::new(buf, c), w, &calls))));
        let name = if w == 99 { "all" } else { PARTIAL[w] };
        ctx.eval();
        let ok = matches!(out, Out::Ok(_));
        if *base.get_or_insert(ok) != ok {
            return viol(format!("whether a {kind} record parses depends on the visitor: {}", out.tag()), txt(name));
        }
        match out {
            Out::Ok(c) => {
                if calls.get() != 1 {
                    return viol(format!("{} callbacks for one {kind} record", calls.get()), txt(name));
                }
                let want = match w {
                    99 => kind,
                    0 => "unimplemented",
                    _ if PARTIAL[w] == kind => kind,
                    1 if kind == "mmap2" => "mmap",
                    _ => "unimplemented",
                };
                if c.method != want {
                    return viol(format!("{kind} record (type {ty}) reached visit_{} instead of visit_{want}", c.method), txt(name));
                }
                if c.ty != ty || c.misc != b.misc {
                    return viol(format!("metadata type {} misc {:#x}, header has type {ty} misc {:#x}", c.ty, c.misc, b.misc), txt(name));
                }
                if valid {
                    if let Some(x) = c.sid.diff(&b.sid) {
                        return viol(format!("{kind}: metadata sample id: {x}"), txt(name));
                    }
                    if let Some(rec) = &c.rec {
                        let mut want = b.rec.clone();
                        if rec.kind == "mmap" && kind == "mmap2" {
                            want.kind = "mmap";
                            want.f.retain(|f| ["pid", "tid", "addr", "len", "pgoff", "filename"].contains(&f.0));
                        }
                        if let Some(x) = rec.diff(&want) {
                            return viol(format!("{kind} via visit_{}: {x}", c.method), txt(name));
                        }
                    }
                }
                ctx.n(&format!("visit_{}", c.method));
                ctx.sig(hash2(hash2(ty as u64, w as u64), hash2(b.misc as u64, hstr(d.name()))));
            }
            Out::Err(_) => {
                if calls.get() != 0 {
                    return viol(format!("{} callbacks although the parse of a {kind} record failed", calls.get()), txt(name));
                }
                if valid {
                    return viol(format!("well-formed {kind} record refused: {}", out.tag()), txt(name));
                }
                ctx.n("failed_without_callback");
                ctx.sig(hash2(hash2(ty as u64, w as u64 + 1000), bytes.len() as u64));
            }
            Out::Panic(m) => return viol(format!("panic: {m}"), txt(name)),
        }
    }
    // the enum
    let out = with_delivery!(&d, &bytes, |buf| with_end!(end, b.cfg.attr(), |c| guarded(|| {
        let rec: Record = Parser::new(buf, c).parse()?;
        let t = match &rec {
            Record::Unknown { ty, .. } => Some(*ty),
            _ => None,
        };
        Ok((r_record(&rec).kind, t))
    })));
    ctx.eval();
    match out {
        Out::Ok((k, t)) => {
            if base != Some(true) || k != kind || t != (kind == "unknown").then_some(ty) {
                return viol(format!("type {ty} parsed into the {k} variant (type {t:?})"), txt("Record"));
            }
            ctx.n("enum_variant");
        }
        Out::Err(_) if base == Some(false) => (),
        o => return viol(format!("record enum: {o:?}"), txt("Record")),
    }
    if n % 43 == 0 {
        ctx.sample(|| txt("all"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

pub fn c12(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 12, n);
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynLittle, End::DynBig, End::UserLittle, End::UserBig]);
    let be = end.be();
    #[derive(Debug, PartialEq, Clone, Copy)]
    enum Want {
        Ok,
        Data,
        Err,
        Eof,
    }
    let mode = n % 6;
    let size: u32 = match mode {
        0 | 1 | 5 => ATTR_SIZES[(n / 6 % 9) as usize],
        2 | 3 => {
            let m = if r.one_in(20) { 70_000 } else { 300 };
            137 + r.below(m) as u32
        }
        _ => loop {
            // not a published size
            let s = match r.below(4) {
                0 => r.below(64) as u32,
                1 => 64 + r.below(72) as u32,
                2 => r.pick(&ATTR_SIZES) - 1 - r.below(7) as u32,
                _ => r.below(136) as u32,
            };
            if s < 136 && !ATTR_SIZES.contains(&s) {
                break s;
            }
        },
    };
    let enc = if mode == 4 { 136 } else { size };
    let mut a = AttrVals::gen(&mut r, enc);
    let mut want = Want::Ok;
    if mode == 4 {
        want = Want::Err;
    }
    if size > 136 && r.bool() {
        let i = match r.below(4) {
            0 => 0,
            1 => a.tail.len() - 1,
            _ => r.below(a.tail.len()),
        };
        let v = if r.bool() { 1 << r.below(8) } else { 1 + r.below(255) as u8 };
        a.tail[i] = v;
        // a second one that cancels the first in a sum or a parity
        if r.one_in(3) {
            let j = r.below(a.tail.len());
            if j != i {
                a.tail[j] = if r.bool() { v } else { v.wrapping_neg() };
            }
        }
        want = Want::Data;
    }
    let mut bytes = encode(&a.program(), be);
    if mode == 4 {
        let mut t = vec![];
        put(&mut t, 4, size as u64, be);
        bytes[4..8].copy_from_slice(&t);
    }
    let need = if mode == 4 { 8 } else { size as usize };
    if mode == 3 && r.one_in(8) {
        // a size that the input cannot have
        let s = 100_000 + r.v32() / 2 * 2 % 4_000_000_000;
        let mut t = vec![];
        put(&mut t, 4, s as u64, be);
        bytes[4..8].copy_from_slice(&t);
        want = Want::Eof;
    } else if mode == 5 || (mode == 3 && r.one_in(4)) {
        let k = if r.bool() { need - 1 - r.below(8.min(need)) } else { r.below(need) };
        bytes.truncate(k);
        want = Want::Eof;
    } else if r.bool() {
        // neighbours must not matter
        let k = 1 + r.below(40);
        let x = if r.bool() { vec![0xff; k] } else { r.bytes(k) };
        bytes.extend(x);
    }
    let cuts = if r.one_in(3) { vec![bytes.len()].into_iter().filter(|n| *n > 0).collect() } else { gen_cuts(&mut r, bytes.len()) };
    let (mask, hint) = (gen_mask(&mut r), r.bool());
    let skew = r.below(8);
    let d = Delivery::Mon { cuts: Rc::new(cuts.clone()), mask, hint, skew };
    let txt = || format!("size={size} order={end:?} delivery={} bytes={}", d.text(), hex_short(&bytes));
    let parts = split_parts(&bytes, &cuts, skew);
    let mb = MonBuf::split(&bytes, &parts, Rc::new(cuts), mask, hint);
    let st = mb.stats.clone();
    let mut at = 0;
    let mut next = None;
    let tail_ok = want == Want::Ok && bytes.len() > need;
    let out = with_end!(end, Cfg::default().attr(), |c| guarded(|| {
        let mut p = Parser::new(mb, c);
        let x: perf_event_attr = p.parse()?;
        at = st.consumed.get();
        if tail_ok {
            next = Some(p.parse_u8()?);
        }
        Ok((r_attr(&x), x.__reserved_2 as u64, x.__reserved_3 as u64))
    }));
    ctx.eval();
    match (&out, want) {
        (Out::Ok((got, r2, r3)), Want::Ok) => {
            if let Some(x) = got.diff(&a.rec()) {
                return viol(format!("attr of size {size}: {x}"), txt());
            }
            // not stored, or stored as they are
            if ![0, a.reserved.0 as u64].contains(r2) || ![0, a.reserved.1 as u64].contains(r3) {
                return viol("reserved attr fields not as encoded", txt());
            }
            if at != need {
                return viol(format!("attr of size {size} consumed {at} bytes"), txt());
            }
            if tail_ok && next != Some(bytes[need]) {
                return viol("the byte after the attr was not the next one read", txt());
            }
        }
        (Out::Err(ErrorKind::UnsupportedData), Want::Data) => (),
        (Out::Err(_), Want::Err) => (),
        (Out::Err(_), Want::Eof) => (),
        _ => {
            let o = match &out {
                Out::Ok(_) => "accepted".to_string(),
                Out::Err(k) => format!("refused with {k:?}"),
                Out::Panic(m) => format!("panicked: {m}"),
            };
            return viol(format!("attr of size {size} ({want:?} expected, {} bytes supplied) was {o}", bytes.len()), txt());
        }
    }
    // the plain slice agrees
    let flat = with_end!(end, Cfg::default().attr(), |c| guarded(|| {
        let mut s = &bytes[..];
        let x: perf_event_attr = Parser::new(std::mem::take(&mut s), c).parse()?;
        Ok(r_attr(&x))
    }));
    ctx.eval();
    match (&flat, want) {
        (Out::Ok(got), Want::Ok) if got.diff(&a.rec()).is_none() => (),
        (Out::Err(_), Want::Data | Want::Err | Want::Eof) => (),
        _ => return viol(format!("attr of size {size} from a plain slice: {} ({want:?} expected)", flat.tag()), txt()),
    }
    ctx.n(&format!("{want:?}:{}", if size > 136 { "larger".into() } else if mode == 4 { "odd".to_string() } else { size.to_string() }));
    ctx.sig(hash2(hash2(size as u64, bytes.len() as u64), d.sig()));
    if n % 61 == 0 {
        ctx.sample(txt);
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub fn fill_attr(a: &AttrVals) -> perf_event_attr {
    let mut x = perf_event_attr::default();
    x.type_ = a.ty;
    x.size = a.size;
    x.config = a.config;
    x.__bindgen_anon_1.sample_period = a.period;
    x.sample_type = a.st;
    x.read_format = a.rf;
    x._bitfield_1 = __BindgenBitfieldUnit::new(a.bits.to_ne_bytes());
    x.__bindgen_anon_2.wakeup_events = a.wakeup;
    x.bp_type = a.bp_type;
    x.__bindgen_anon_3.config1 = a.config1;
    x.__bindgen_anon_4.config2 = a.config2;
    x.branch_sample_type = a.branch;
    x.sample_regs_user = a.regs_user;
    x.sample_stack_user = a.stack_user;
    x.clockid = a.clockid as _;
    x.sample_regs_intr = a.regs_intr;
    x.aux_watermark = a.aux_watermark;
    x.sample_max_stack = a.max_stack;
    x.aux_sample_size = a.aux_sample_size;
    x.sig_data = a.sig_data;
    x.config3 = a.config3;
    x
}

fn check_cfg<E: Endian>(c: &ParseConfig<E>, a: &AttrVals, sia: bool, when: &str) -> Result<(), String> {
    let st = c.sample_type().bits();
    if st & S_ALL != a.st & S_ALL {
        return Err(format!("{when}: sample_type {st:#x}, attr has {:#x}", a.st));
    }
    let rf = c.read_format().bits();
    if rf & F_ALL != a.rf & F_ALL {
        return Err(format!("{when}: read_format {rf:#x}, attr has {:#x}", a.rf));
    }
    if (rf & !F_ALL != 0) != (a.rf & !F_ALL != 0) {
        return Err(format!("{when}: read_format {rf:#x}, attr has unsupported bits {:#x}", a.rf & !F_ALL));
    }
    if c.regs_user() != a.regs_user || c.regs_intr() != a.regs_intr {
        return Err(format!("{when}: register masks {:#x}/{:#x}, attr has {:#x}/{:#x}", c.regs_user(), c.regs_intr(), a.regs_user, a.regs_intr));
    }
    let len = if sia { (a.st & S_ID_FLAGS).count_ones() as usize * 8 } else { 0 };
    if SampleId::estimate_len(c) != len {
        return Err(format!("{when}: trailer length {}, attr calls for {len}", SampleId::estimate_len(c)));
    }
    Ok(())
}

pub fn c13(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 13, n);
    let mut a = AttrVals::gen(&mut r, 136);
    // bias towards supported settings, keep everything else random
    match r.below(4) {
        0 => a.st = 1u64.wrapping_shl(r.below(64) as u32),
        1 => a.st = u64::MAX ^ 1u64.wrapping_shl(r.below(64) as u32),
        _ => a.st &= S_ALL,
    }
    match r.below(4) {
        0 => a.rf = 1u64.wrapping_shl(r.below(64) as u32),
        1 => a.rf = (a.rf & F_ALL) | 1u64.wrapping_shl(r.below(64) as u32),
        2 => (),
        _ => a.rf &= F_ALL,
    }
    let sia = r.bool();
    let hw = r.bool();
    a.bits = if r.bool() { r.u64() } else { r.pick(&[0, u64::MAX]) };
    if sia {
        a.bits |= 1 << 18;
    } else {
        a.bits &= !(1 << 18);
    }
    a.branch = if r.bool() { r.u64() } else { r.pick(&[0, u64::MAX]) };
    if hw {
        a.branch |= BRANCH_HW_INDEX;
    } else {
        a.branch &= !BRANCH_HW_INDEX;
    }
    let txt = |x: &str| format!("{x} sample_type={:#x} read_format={:#x} flags={:#x} branch_sample_type={:#x} regs={:#x}/{:#x}", a.st, a.rf, a.bits, a.branch, a.regs_user, a.regs_intr);
    let fail = |m: String| Viol { what: m, detail: txt("") };
    let attr = if r.bool() {
        fill_attr(&a)
    } else {
        let v = encode(&a.program(), HOST_BE);
        match guarded(|| Parser::new(&v[..], ParseConfig::<Native>::default()).parse::<perf_event_attr>()) {
            Out::Ok(x) => x,
            o => return viol(format!("attr not decoded: {}", o.tag()), txt("")),
        }
    };
    let base: ParseConfig<Native> = ParseConfig::from(attr);
    check_cfg(&base, &a, sia, "built").map_err(fail)?;
    check_cfg(&ParseConfig::<Little>::from(attr), &a, sia, "built little").map_err(fail)?;
    check_cfg(&base.clone().with_endian(Big), &a, sia, "with_endian").map_err(fail)?;
    check_cfg(&base.clone().with_endian(Dynamic::Big).with_endian(Dynamic::Little).clone(), &a, sia, "with_endian twice").map_err(fail)?;
    let de = base.clone().with_endian(Dynamic::Big);
    if *de.endian() != Dynamic::Big || *de.with_endian(Dynamic::Little).endian() != Dynamic::Little {
        return viol("with_endian does not set the byte order", txt(""));
    }
    for _ in 0..5 {
        ctx.eval();
    }
    if r.below(3) == 0 {
        // nothing set: the default configuration
        let z = AttrVals { st: 0, rf: 0, regs_user: 0, regs_intr: 0, ..a.clone() };
        check_cfg(&ParseConfig::<Native>::default(), &z, false, "default").map_err(fail)?;
        ctx.eval();
    }

    // history: parse several records through one parser, judged by the model for this attr
    let unsupported = a.rf & !F_ALL != 0;
    let model = Cfg { st: a.st & S_ALL, rf: a.rf, sia, hw, bc: a.branch & BRANCH_COUNTERS != 0, ru: a.regs_user, ri: a.regs_intr };
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynBig, End::UserLittle, End::UserBig]);
    let mut stream = vec![];
    let mut starts = vec![];
    let mut wants: Vec<Option<Built>> = vec![];
    let k = 1 + r.below(5);
    // with both weight forms in st the kernel refuses the attr: do not judge samples then
    let odd_weight = a.st & S_WEIGHT != 0 && a.st & S_WEIGHT_STRUCT != 0;
    // sample type bits the crate does not know: a sample would carry unknown fields
    let odd_st = a.st & !S_ALL != 0;
    for _ in 0..k {
        let ty = match r.below(4) {
            0 => T_SAMPLE,
            1 => T_READ,
            _ => gen_type(&mut r),
        };
        let mut safe = model;
        safe.rf &= F_ALL;
        let b = gen_record(&mut r, ty, &safe, Lim { s: 24, n: 4 });
        let judged = !(ty == T_SAMPLE && (odd_weight || odd_st));
        let refuse = (ty == T_READ && (a.rf & F_GROUP != 0 || unsupported)) || (ty == T_SAMPLE && a.st & S_READ != 0 && unsupported);
        starts.push(stream.len());
        stream.extend(b.bytes(end.be()));
        wants.push(if !judged {
            None
        } else if refuse {
            let mut b = b;
            b.rec = Rec::new("refused");
            Some(b)
        } else {
            Some(b)
        });
    }
    let res: Result<(), String> = with_end!(end, attr, |c| {
        let mut p = Parser::new(&stream[..], c);
        let mut e = Ok(());
        for (i, w) in wants.iter().enumerate() {
            let o = match r.below(3) {
                0 => guarded(|| enter(&mut p, Entry::Visit)),
                1 => guarded(|| enter(&mut p, Entry::Enum)),
                _ => {
                    let o = guarded(|| {
                        let (mut q, m) = p.parse_metadata()?;
                        let rec = if check_cfg(q.config(), &a, sia, "sub-parser").is_err() { Ok(Rec::new("bad sub-parser configuration")) } else { parse_body(m.ty(), &mut q) };
                        let rec = rec?;
                        Ok(Obs { method: rec.kind, meta: None, sid: None, rec })
                    });
                    o
                }
            };
            ctx.eval();
            if let Some(b) = w {
                match &o {
                    Out::Ok(x) => {
                        if b.rec.kind == "refused" {
                            e = Err(format!("record {i} (type {}) accepted although the read format is unsupported", b.ty));
                        } else if let Some(d) = x.rec.diff(&b.rec) {
                            e = Err(format!("record {i} (type {}): {d}", b.ty));
                        } else if let Some(s) = &x.sid {
                            if let Some(d) = s.diff(&b.sid) {
                                e = Err(format!("record {i} (type {}) sample id: {d}", b.ty));
                            }
                        }
                    }
                    Out::Err(kind) => {
                        if b.rec.kind != "refused" {
                            e = Err(format!("record {i} (type {}) refused: {kind:?}", b.ty));
                        } else if *kind != ErrorKind::UnsupportedConfig {
                            e = Err(format!("record {i} (type {}) refused as {kind:?} instead of an unsupported configuration", b.ty));
                        } else {
                            ctx.n("refused_unsupported_read_format");
                        }
                    }
                    Out::Panic(m) => e = Err(format!("panic: {m}")),
                }
                if e.is_err() && kf::verdict(&stream, starts[i], &model, end, &Geo::of(&stream), &o) == kf::Verdict::Known {
                    ctx.known();
                    e = Ok(());
                }
                ctx.n(&format!("judged:{}", o.tag()));
            } else {
                ctx.n("not_judged");
            }
            if e.is_err() {
                break;
            }
            if let Err(x) = check_cfg(p.config(), &a, sia, &format!("after record {i}")) {
                e = Err(x);
                break;
            }
            ctx.eval();
        }
        if e.is_ok() {
            e = check_cfg(&p.clone().config().clone(), &a, sia, "parser clone");
        }
        e
    });
    if let Err(m) = res {
        return viol(m, format!("{} order={end:?} stream={}", txt(""), hex_short(&stream)));
    }
    ctx.n(if unsupported { "rf_unsupported" } else { "rf_supported" });
    ctx.sig(hash2(hash2(a.st, a.rf), hash2(sia as u64 * 2 + hw as u64, a.regs_user ^ a.regs_intr.rotate_left(7))));
    if n % 47 == 0 {
        ctx.sample(|| txt(""));
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

struct Pass<'a> {
    data: &'a [u8],
    pos: usize,
    be: bool,
}

impl Pass<'_> {
    fn left(&self) -> usize {
        self.data.len() - self.pos
    }
    fn take(&mut self, n: usize) -> Vec<u8> {
        let v = self.data[self.pos..self.pos + n].to_vec();
        self.pos += n;
        v
    }
    fn ints(&mut self, n: usize, width: usize) -> Vec<u64> {
        let be = self.be;
        (0..n)
            .map(|_| {
                let mut b = self.take(width);
                if be {
                    b.reverse();
                }
                b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
            })
            .collect()
    }
}

#[derive(Debug, PartialEq)]
enum Got {
    Ints(Vec<u64>),
    Bytes(Vec<u8>),
    Declined,
}

/// Items of the user's own making: one larger in memory than in the input, one that takes no memory
/// at all, one that owns memory.
struct Wide(u16, #[allow(dead_code)] [u64; 9]);
struct Tick;
struct Boxed(Box<[u8]>);
impl<'p> Parse<'p> for Wide {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        Ok(Wide(p.parse_u16()?, [1; 9]))
    }
}
impl<'p> Parse<'p> for Tick {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        p.parse_u8().map(|_| Tick)
    }
}
impl<'p> Parse<'p> for Boxed {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        Ok(Boxed(p.parse_bytes(5)?.into()))
    }
}

/// One primitive operation: `(name, item width, items)`, performed on the parser.
fn prim<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, op: usize, len: usize) -> ParseResult<Got> {
    fn w<T: Copy + Into<u64>>(s: &[T]) -> Got {
        Got::Ints(s.iter().map(|x| (*x).into()).collect())
    }
    macro_rules! direct { ($t:ty) => { match unsafe { p.parse_slice_direct::<$t>(len)? } { Some(s) => w(s), None => Got::Declined } } }
    Ok(match op {
        0 => w(&[p.parse_u8()?]),
        1 => w(&[p.parse_u16()?]),
        2 => w(&[p.parse_u32()?]),
        3 => w(&[p.parse_u64()?]),
        4 => Got::Bytes(p.parse::<[u8; 1]>()?.to_vec()),
        5 => Got::Bytes(p.parse::<[u8; 3]>()?.to_vec()),
        6 => Got::Bytes(p.parse::<[u8; 20]>()?.to_vec()),
        7 => Got::Bytes(p.parse_bytes(len)?.into_owned()),
        8 => w(&p.parse_repeated::<u8>(len)?),
        9 => w(&p.parse_repeated::<u16>(len)?),
        10 => w(&p.parse_repeated::<u32>(len)?),
        11 => w(&p.parse_repeated::<u64>(len)?),
        12 => Got::Bytes(p.parse_repeated::<[u8; 3]>(len)?.concat()),
        13 => w(&unsafe { p.parse_slice::<u8>(len)? }),
        14 => w(&unsafe { p.parse_slice::<u16>(len)? }),
        15 => w(&unsafe { p.parse_slice::<u32>(len)? }),
        16 => w(&unsafe { p.parse_slice::<u64>(len)? }),
        17 => direct!(u8),
        18 => direct!(u16),
        19 => direct!(u32),
        20 => direct!(u64),
        21 => Got::Bytes(p.parse_rest()?.into_owned()),
        22 => Got::Bytes(p.parse_rest_trim_nul()?.into_owned()),
        23 => match p.parse_if::<u64>(false)? {
            None => Got::Declined,
            Some(_) => Got::Bytes(b"not declined".to_vec()),
        },
        24 => match p.parse_if::<u32>(true)? {
            Some(v) => w(&[v]),
            None => Got::Declined,
        },
        25 => match p.parse_if_with(false, |p| p.parse_bytes(len))? {
            None => Got::Declined,
            Some(_) => Got::Bytes(b"not declined".to_vec()),
        },
        26 => match p.parse_if_with(true, |p| p.parse_u16())? {
            Some(v) => w(&[v]),
            None => Got::Declined,
        },
        27 => p.parse_with(|p| Ok(Got::Bytes(p.parse_bytes(len)?.into_owned())))?,
        28 => Got::Bytes(p.parse::<[u8; 0]>()?.to_vec()),
        29 => w(&[p.parse::<u8>()?]),
        30 => w(&[p.parse::<u64>()?]),
        31 => Got::Ints(p.parse_repeated::<Wide>(len)?.iter().map(|x| x.0 as u64).collect()),
        32 => Got::Ints(vec![p.parse_repeated::<Tick>(len)?.len() as u64]),
        33 => Got::Bytes(p.parse_repeated::<Boxed>(len)?.iter().flat_map(|x| x.0.to_vec()).collect()),
        34 => Got::Bytes(p.parse::<Boxed>()?.0.to_vec()),
        _ => Got::Bytes(p.parse::<[u8; 8]>()?.to_vec()),
    })
}
const PRIMS: usize = 36;
/// (item width, fixed number of items)
const PRIM_SHAPE: [(usize, Option<usize>); PRIMS] = [
    (1, Some(1)), (2, Some(1)), (4, Some(1)), (8, Some(1)), (1, Some(1)), (3, Some(1)), (20, Some(1)), (1, None), (1, None), (2, None), (4, None),
    (8, None), (3, None), (1, None), (2, None), (4, None), (8, None), (1, None), (2, None), (4, None), (8, None), (0, Some(0)), (0, Some(0)),
    (0, Some(0)), (4, Some(1)), (0, Some(0)), (2, Some(1)), (1, None), (0, Some(0)), (1, Some(1)), (8, Some(1)), (2, None), (1, None), (5, None), (5, Some(1)),
    (8, Some(1)),
];

/// Run one operation against the model; `Ok(true)`: the history ends here.
fn prim_step<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, m: &mut Pass, op: usize, len: usize, geo: &Geo, ctx: &mut Ctx) -> Result<bool, String> {
    let (width, fixed) = PRIM_SHAPE[op];
    let items = fixed.unwrap_or(len);
    let need = width.checked_mul(items);
    let fits = matches!(need, Some(n) if n <= m.left());
    let out = guarded(|| prim(p, op, len));
    ctx.eval();
    if fits && (13..=20).contains(&op) && geo.misaligned(m.pos, need.unwrap(), if width == 8 { std::mem::align_of::<u64>() } else { width }) && kf::present() {
        // the known finding: these bytes are gone although they were not returned
        ctx.known();
        m.take(need.unwrap());
    }
    let fits = matches!(need, Some(n) if n <= m.left());
    let left = m.left();
    let ints = matches!(op, 0..=3 | 8..=11 | 13..=20 | 24 | 26 | 29 | 30 | 31);
    let direct = (17..=20).contains(&op);
    match out {
        Out::Panic(s) => Err(format!("op {op} len {len}: panic: {s}")),
        Out::Err(k) => {
            if fits {
                return Err(format!("op {op} len {len} failed ({k:?}) although {left} bytes remain and it needs {need:?}"));
            }
            // a length whose size in bytes is not representable may be refused as invalid
            if k != ErrorKind::Eof && need.is_some() {
                return Err(format!("op {op} len {len} with {left} bytes left failed with {k:?} instead of end-of-input"));
            }
            ctx.n("eof");
            Ok(true)
        }
        Out::Ok(Got::Declined) => {
            if !(direct || op == 23 || op == 25) {
                return Err(format!("op {op} was skipped"));
            }
            ctx.n(if direct { "direct_declined" } else { "conditional_declined" });
            Ok(false)
        }
        Out::Ok(g) => {
            if op == 21 || op == 22 {
                let mut want = m.take(left);
                if op == 22 {
                    while want.last() == Some(&0) {
                        want.pop();
                    }
                }
                return if g == Got::Bytes(want) { Ok(false) } else { Err(format!("rest of the input differs ({left} bytes left)")) };
            }
            if !fits {
                return Err(format!("op {op} len {len} succeeded with only {left} bytes left"));
            }
            let want = if op == 32 {
                m.take(items);
                Got::Ints(vec![items as u64])
            } else if ints { Got::Ints(m.ints(items, width)) } else { Got::Bytes(m.take(need.unwrap())) };
            if g != want {
                return Err(format!("op {op} len {len} at byte {} returned {} instead of {}", m.pos - need.unwrap(), short(&g), short(&want)));
            }
            ctx.n(if direct { "direct_taken" } else if items == 0 { "zero_items" } else { "read" });
            Ok(false)
        }
    }
}

fn short(g: &Got) -> String {
    let mut s = format!("{g:x?}");
    s.truncate(200);
    s
}

pub fn c18(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 18, n);
    let end = r.pick(&[End::Native, End::Native, End::Little, End::Big, End::DynLittle, End::DynBig, End::UserLittle, End::UserBig]);
    let len = match r.below(4) {
        0 => r.below(20),
        1 => r.below(2000),
        _ => r.below(160),
    };
    let mut data = r.bytes(len);
    if r.bool() {
        let z = r.below(len + 1);
        data[len - z..].fill(0);
    }
    let d = gen_delivery(&mut r, len);
    let mut ops: Vec<(usize, usize)> = vec![];
    for _ in 0..1 + r.below(24) {
        let op = r.below(PRIMS);
        let l = match r.below(12) {
            0 => 0,
            1 => len,
            2 => len + 1,
            3 => super::robust::huge_len(&mut r, len),
            4 => len / 8,
            _ => r.below(12),
        };
        ops.push((op, l));
        if (op == 21 || op == 22) && r.bool() {
            break;
        }
    }
    let txt = || format!("ops(op,len)={ops:?} order={end:?} delivery={} bytes={}", d.text(), hex_short(&data));
    let mut m = Pass { data: &data, pos: 0, be: end.be() };
    let geo = if end.host() { d.geo() } else { Geo::none() };
    let mut h = hash2(len as u64, d.sig());
    let res: Result<(), String> = match &d {
        Delivery::Mon { cuts, mask, hint, skew } => {
            let parts = split_parts(&data, cuts, *skew);
            let mb = MonBuf::split(&data, &parts, cuts.clone(), *mask, *hint);
            let st = mb.stats.clone();
            with_end!(end, Cfg::default().attr(), |c| {
                let mut p = Parser::new(mb, c);
                let mut e = Ok(());
                for &(op, l) in &ops {
                    match prim_step(&mut p, &mut m, op, l, &geo, ctx) {
                        Ok(true) => break,
                        Ok(false) => (),
                        Err(x) => {
                            e = Err(x);
                            break;
                        }
                    }
                    h = hash2(h, hash2(op as u64, l as u64));
                    if st.consumed.get() != m.pos {
                        e = Err(format!("after op {op} len {l} the source is at byte {} instead of {}", st.consumed.get(), m.pos));
                        break;
                    }
                }
                e
            })
        }
        Delivery::Slice { align } => {
            let a = AlignedBuf::new(&data, *align);
            let fork = r.one_in(3);
            with_end!(end, Cfg::default().attr(), |c| {
                let mut p = Parser::new(a.get(), c);
                let mut e = Ok(());
                for &(op, l) in &ops {
                    if fork {
                        // a clone reads the same bytes and does not disturb the original
                        let mut q = p.clone();
                        let mut mq = Pass { data: &data, pos: m.pos, be: m.be };
                        if let Err(x) = prim_step(&mut q, &mut mq, op, l, &geo, ctx) {
                            e = Err(format!("in a cloned parser: {x}"));
                            break;
                        }
                        ctx.n("clone_steps");
                    }
                    match prim_step(&mut p, &mut m, op, l, &geo, ctx) {
                        Ok(true) => break,
                        Ok(false) => (),
                        Err(x) => {
                            e = Err(x);
                            break;
                        }
                    }
                    h = hash2(h, hash2(op as u64, l as u64));
                }
                e
            })
        }
        Delivery::Reader { .. } => with_delivery!(&d, &data, |b| with_end!(end, Cfg::default().attr(), |c| {
            let mut p = Parser::new(b, c);
            let mut e = Ok(());
            for &(op, l) in &ops {
                match prim_step(&mut p, &mut m, op, l, &geo, ctx) {
                    Ok(true) => break,
                    Ok(false) => (),
                    Err(x) => {
                        e = Err(x);
                        break;
                    }
                }
                h = hash2(h, hash2(op as u64, l as u64));
            }
            e
        })),
    };
    if let Err(x) = res {
        return viol(x, txt());
    }
    ctx.n(d.name());
    ctx.sig(h);
    if n % 59 == 0 {
        ctx.sample(txt);
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

/// Public flag constants and enum values against the numbers of include/uapi/linux/perf_event.h.
fn constants() -> Vec<(&'static str, u64, u64)> {
    let mut v: Vec<(&'static str, u64, u64)> = vec![];
    macro_rules! flags { ($t:ident: $($n:ident = $x:expr),* $(,)?) => { $( v.push((concat!(stringify!($t), "::", stringify!($n)), $t::$n.bits() as u64, $x)); )* } }
    macro_rules! vals { ($t:ident: $($n:ident = $x:expr),* $(,)?) => { $( v.push((concat!(stringify!($t), "::", stringify!($n)), $t::$n.0 as u64, $x)); )* } }
    flags!(SampleFlags: IP = S_IP, TID = S_TID, TIME = S_TIME, ADDR = S_ADDR, READ = S_READ, CALLCHAIN = S_CALLCHAIN, ID = S_ID, CPU = S_CPU,
        PERIOD = S_PERIOD, STREAM_ID = S_STREAM_ID, RAW = S_RAW, BRANCH_STACK = S_BRANCH, REGS_USER = S_REGS_USER, STACK_USER = S_STACK_USER,
        WEIGHT = S_WEIGHT, DATA_SRC = S_DATA_SRC, IDENTIFIER = S_IDENTIFIER, TRANSACTION = S_TRANSACTION, REGS_INTR = S_REGS_INTR,
        PHYS_ADDR = S_PHYS_ADDR, AUX = S_AUX, CGROUP = S_CGROUP, DATA_PAGE_SIZE = S_DATA_PAGE, CODE_PAGE_SIZE = S_CODE_PAGE, WEIGHT_STRUCT = S_WEIGHT_STRUCT);
    flags!(ReadFormat: TOTAL_TIME_ENABLED = 1, TOTAL_TIME_RUNNING = 2, ID = 4, GROUP = 8, LOST = 16);
    flags!(AuxFlags: TRUNCATED = 1, OVERWRITE = 2, PARTIAL = 4, COLLISION = 8, PMU_FORMAT_MASK = 0xff00);
    flags!(KSymbolFlags: UNREGISTER = 1);
    flags!(MemOp: NA = 1, LOAD = 2, STORE = 4, PFETCH = 8, EXEC = 16);
    flags!(MemLevel: NA = 1, HIT = 2, MISS = 4, L1 = 8, LFB = 0x10, L2 = 0x20, L3 = 0x40, LOC_RAM = 0x80, REM_RAM1 = 0x100, REM_RAM2 = 0x200,
        REM_CCE1 = 0x400, REM_CCE2 = 0x800, IO = 0x1000, UNC = 0x2000);
    flags!(MemLock: NA = 1, LOCKED = 2);
    flags!(MemDtlb: NA = 1, HIT = 2, MISS = 4, L1 = 8, L2 = 0x10, WK = 0x20, OS = 0x40);
    flags!(MemSnoopX: FWD = 1, PEER = 2);
    flags!(MemBlk: NA = 1, DATA = 2, ADDR = 4);
    flags!(MemSnoop: NA = 1 << 19, NONE = 2 << 19, HIT = 4 << 19, MISS = 8 << 19, HITM = 16 << 19, FWD = 1 << 38, PEER = 2 << 38);
    flags!(Txn: ELISION = 1, TRANSACTION = 2, SYNC = 4, ASYNC = 8, RETRY = 16, CONFLICT = 32, CAPACITY_WRITE = 64, CAPACITY_READ = 128,
        ABORT_MASK = 0xffff_ffff_0000_0000);
    vals!(AuxPmuFormatType: CORESIGHT = 0, CORESIGHT_RAW = 1);
    vals!(BpfEventType: UNKNOWN = 0, PROG_LOAD = 1, PROG_UNLOAD = 2);
    vals!(KSymbolType: UNKNOWN = 0, BPF = 1, OOL = 2);
    vals!(SampleRegsAbi: NONE = 0, ABI_32 = 1, ABI_64 = 2);
    vals!(BranchType: UNKNOWN = 0, COND = 1, UNCOND = 2, IND = 3, CALL = 4, IND_CALL = 5, RET = 6, SYSCALL = 7, COND_CALL = 9, COND_RET = 10);
    vals!(MemLevelNum: L1 = 1, L2 = 2, L3 = 3, L4 = 4, ANY_CACHE = 11, LFB = 12, RAM = 13, PMEM = 14, NA = 15);
    v
}

pub fn c19(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 19, n);
    // systematic words first: single bits, complements, pairs, runs of ones
    let word = if n < 64 {
        1u64 << n
    } else if n < 128 {
        !(1u64 << (n - 64))
    } else if n < 128 + 64 * 64 {
        let k = n - 128;
        (1u64 << (k / 64)) | (1u64 << (k % 64))
    } else if n < 128 + 2 * 64 * 64 {
        let k = n - 128 - 64 * 64;
        (u64::MAX >> (k / 64)) & (u64::MAX << (k % 64))
    } else {
        r.v64() ^ if r.bool() { r.u64() & r.u64() } else { 0 }
    };
    if n == 0 || n % 1024 == 0 {
        for (name, got, want) in constants() {
            ctx.eval();
            if got != want {
                return viol(format!("{name} is {got:#x}, the ABI has {want:#x}"), "constant table");
            }
        }
        ctx.add("constants", constants().len() as u64);
    }
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynLittle, End::DynBig, End::UserLittle, End::UserBig]);
    let d;
    // one sample that carries the word as branch flags, data source and transaction
    let st = S_BRANCH | S_DATA_SRC | S_TRANSACTION;
    let cfg = Cfg { st, hw: r.bool(), bc: r.one_in(3), ..Cfg::default() };
    let (from, to) = (r.v64(), r.v64());
    let other = r.u64();
    let mut w = vec![W::N(8, 2, 24)];
    if cfg.hw {
        w.push(W::U64(r.u64()));
    }
    w.extend([W::U64(from), W::U64(to), W::U64(word), W::U64(to), W::U64(from), W::U64(other)]);
    if cfg.bc {
        w.extend([W::U64(!word), W::U64(!other)]);
    }
    w.extend([W::U64(word), W::U64(word)]);
    let mut prog = vec![W::U32(T_SAMPLE), W::U16(0), W::U16(8 + wlen(&w) as u16)];
    prog.extend(w);
    let bytes = encode(&prog, end.be());
    d = gen_delivery(&mut r, bytes.len()).calm(end);
    let txt = |x: &str| format!("{x} word={word:#018x} order={end:?} delivery={} bytes={}", d.text(), hex_short(&bytes));
    type SampleObs = (Vec<Vec<u64>>, Vec<u64>, u64, u64, Vec<bool>);
    let out: Out<SampleObs> = with_delivery!(&d, &bytes, |b| with_end!(end, cfg.attr(), |c| guarded(|| {
        let rec: Record = Parser::new(b, c).parse()?;
        let s = match &rec {
            Record::Sample(s) => s,
            _ => return Err(ParseError::new("not a sample")),
        };
        let t = s.transaction().unwrap_or(Txn::empty());
        let has = [
            Txn::ELISION,
            Txn::TRANSACTION,
            Txn::SYNC,
            Txn::ASYNC,
            Txn::RETRY,
            Txn::CONFLICT,
            Txn::CAPACITY_WRITE,
            Txn::CAPACITY_READ,
        ]
        .iter()
        .map(|f| t.contains(*f))
        .collect();
        Ok((s.lbr().unwrap_or(&[]).iter().map(lbr_row).collect(), s.data_src().map(|d| ds_row(&d)).unwrap_or_default(), t.bits(), t.abort() as u64, has))
    })));
    ctx.eval();
    let (lbr, ds, tx, abort, has) = match out {
        Out::Ok(x) => x,
        o => return viol(format!("sample with packed words not decoded: {}", o.tag()), txt("")),
    };
    let want = vec![branch_row(from, to, word), branch_row(to, from, other)];
    if lbr != want {
        return viol(format!("branch entries {lbr:x?} instead of {want:x?}"), txt(""));
    }
    let want = datasrc_row(word);
    if ds != want {
        return viol(format!("data source (op,lvl,snoop,lock,dtlb,lvl_num,remote,blk,hops) {ds:x?} instead of {want:x?}"), txt(""));
    }
    if tx != word || abort != word >> 32 || (0..8).any(|i| has[i] != (word >> i & 1 == 1)) {
        return viol(format!("transaction bits={tx:#x} abort={abort:#x} known={has:?}"), txt(""));
    }
    // values built by the caller are the values that decoding yields
    macro_rules! built {
        ($($t:ident: $v:expr),*) => {
            $( if $t::new($v).0 != $v || $t::new($v) != $t($v) {
                return viol(format!("{}::new({:#x}) is {:?}", stringify!($t), $v, $t::new($v)), txt(""));
            } )*
        };
    }
    built!(BpfEventType: word as u16, KSymbolType: word as u16, SampleRegsAbi: word, BranchType: word as u8, MemLevelNum: word as u8, AuxPmuFormatType: word as u8);
    // aux flags, ksymbol and bpf type and flag words
    let (hi, lo) = ((word >> 16) as u16, word as u16);
    let mk = |ty: u32, w: Vec<W>| {
        let mut p = vec![W::U32(ty), W::U16(0), W::U16(8 + wlen(&w) as u16)];
        p.extend(w);
        encode(&p, end.be())
    };
    let recs = [
        mk(T_AUX, vec![W::U64(from), W::U64(to), W::U64(word)]),
        mk(T_KSYMBOL, vec![W::U64(from), W::U32(to as u32), W::U16(hi), W::U16(lo), W::Bytes(b"sym\0\0\0\0\0".to_vec())]),
        mk(T_BPF, vec![W::U16(lo), W::U16(hi), W::U32(to as u32), W::Bytes(from.to_le_bytes().to_vec())]),
    ];
    for b in &recs {
        let out: Out<Option<String>> = with_end!(end, Cfg::default().attr(), |c| guarded(|| {
            let rec: Record = Parser::new(&b[..], c).parse()?;
            Ok(match &rec {
                Record::Aux(a) => {
                    let f = a.flags;
                    let known = [AuxFlags::TRUNCATED, AuxFlags::OVERWRITE, AuxFlags::PARTIAL, AuxFlags::COLLISION];
                    (f.bits() != word
                        || f.pmu_format_type().0 as u64 != word >> 8 & 0xff
                        || (0..4).any(|i| f.contains(known[i]) != (word >> i & 1 == 1)))
                    .then(|| format!("aux flags bits={:#x} format={:#x} debug={f:?}", f.bits(), f.pmu_format_type().0))
                }
                Record::KSymbol(k) => (k.ksym_type.0 != hi || k.flags.bits() != lo || k.flags.contains(KSymbolFlags::UNREGISTER) != (lo & 1 == 1))
                    .then(|| format!("ksymbol type={:#x} flags={:#x}", k.ksym_type.0, k.flags.bits())),
                Record::BpfEvent(e) => (e.ty.0 != lo || e.flags != hi).then(|| format!("bpf type={:#x} flags={:#x}", e.ty.0, e.flags)),
                _ => Some("wrong record type".into()),
            })
        }));
        ctx.eval();
        match out {
            Out::Ok(None) => (),
            Out::Ok(Some(m)) => return viol(m, txt("")),
            o => return viol(format!("record with packed word not decoded: {}", o.tag()), txt("")),
        }
    }
    ctx.n(d.name());
    ctx.n(&format!("order:{end:?}"));
    ctx.sig(word);
    if n % 97 == 0 {
        ctx.sample(|| format!("word={word:#018x} order={end:?} delivery={}", d.text()));
    }
    Ok(())
}

use crate::bufs::*;
use crate::gens::*;
use crate::kf::{self, Geo};
use crate::model::*;
use crate::obs::*;
use crate::run::*;
use crate::util::*;
use crate::{alloc, with_delivery, with_end};
use arbitrary::Arbitrary;
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::borrow::Cow;
use std::cell::Cell;
use std::fmt::Write;
use std::rc::Rc;

/// Sink for formatted text: counts, keeps nothing.
struct Count(usize);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        std::hint::black_box(s);
        Ok(())
    }
}

pub fn fmt_len(v: &dyn std::fmt::Debug, pretty: bool) -> usize {
    let mut c = Count(0);
    if pretty {
        let _ = write!(c, "{v:#?}");
    } else {
        let _ = write!(c, "{v:?}");
    }
    c.0
}

/// The owned form of a record, where the type offers one.
pub fn owned_rec(r: Record<'_>) -> Option<Record<'static>> {
    Some(match r {
        Record::Mmap(m) => m.into_owned().into(),
        Record::Comm(m) => m.into_owned().into(),
        Record::Mmap2(m) => m.into_owned().into(),
        Record::KSymbol(m) => m.into_owned().into(),
        Record::CGroup(m) => m.into_owned().into(),
        Record::TextPoke(m) => m.to_owned().into(),
        Record::Lost(m) => m.into(),
        Record::Exit(m) => Record::Exit(m),
        Record::Fork(m) => Record::Fork(m),
        Record::Throttle(m) => Record::Throttle(m),
        Record::Unthrottle(m) => Record::Unthrottle(m),
        Record::Read(m) => m.into(),
        Record::Aux(m) => m.into(),
        Record::ITraceStart(m) => m.into(),
        Record::LostSamples(m) => m.into(),
        Record::Switch => Record::Switch,
        Record::SwitchCpuWide(m) => m.into(),
        Record::BpfEvent(m) => m.into(),
        Record::AuxOutputHwId(m) => m.into(),
        Record::Unknown { ty, data } => Record::Unknown { ty, data: Cow::Owned(data.into_owned()) },
        _ => return None,
    })
}

/// Touch everything a record offers.
pub fn exercise(rec: Record<'_>, r: &mut Rng) -> u64 {
    let mut h = r_record(&rec).hash();
    h = hash2(h, fmt_len(&rec, r.one_in(4)) as u64);
    let c = rec.clone();
    match &rec {
        Record::Sample(s) => {
            let id = SampleId::from_sample(s);
            h = hash2(h, r_sid(&id).hash());
            h = hash2(h, fmt_len(&id, false) as u64);
            h = hash2(h, r_sid(&SampleId::from((**s).clone())).hash());
            if let Some(g) = s.values() {
                h = hash2(h, g.len() as u64 + g.is_empty() as u64);
                for i in [0, 1, g.len(), usize::MAX] {
                    h = hash2(h, g.get(i).map(|e| e.value()).unwrap_or(9));
                }
                h = hash2(h, g.get_by_id(r.v64()).map(|e| e.value()).unwrap_or(9));
                if let Some(e) = g.entries().next_back() {
                    h = hash2(h, r_readvalue(&ReadValue::from_group_and_entry(g, &e)).hash());
                }
                let o = g.clone().into_owned();
                match ReadValue::try_from(o) {
                    Ok(v) => {
                        let back: ReadGroup = v.clone().into();
                        h = hash2(h, back.len() as u64 + fmt_len(&v, false) as u64);
                    }
                    Err(e) => h = hash2(h, e.to_string().len() as u64),
                }
            }
        }
        Record::Mmap2(m) => h = hash2(h, r_mmap(&m.to_mmap()).hash() + m.filename_os().len() as u64),
        Record::Mmap(m) => h = hash2(h, m.filename_os().len() as u64),
        Record::Comm(m) => h = hash2(h, m.comm_os().len() as u64),
        Record::CGroup(m) => h = hash2(h, m.path_os().as_os_str().len() as u64),
        _ => (),
    }
    if r.bool() {
        drop(rec);
        h = hash2(h, r_record(&c).hash());
        if let Some(o) = owned_rec(c) {
            h = hash2(h, r_record(&o).hash());
        }
    } else {
        drop(c);
        h = hash2(h, r_record(&rec).hash());
        if let Some(o) = owned_rec(rec) {
            h = hash2(h, fmt_len(&o, true) as u64);
        }
    }
    h
}

/// Parse a type straight from the source, without a frame.  Returns a digest.
pub fn direct<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, which: usize, r: &mut Rng) -> ParseResult<u64> {
    macro_rules! rec { ($t:ty, $v:ident) => {{ let x: $t = p.parse()?; Ok(exercise(Record::$v(x), r)) }} }
    macro_rules! dbg { ($t:ty) => {{ let x: $t = p.parse()?; let y = x.clone(); Ok(hash2(fmt_len(&x, false) as u64, fmt_len(&y, true) as u64)) }} }
    match which {
        0 => rec!(Mmap, Mmap),
        1 => rec!(Lost, Lost),
        2 => rec!(Comm, Comm),
        3 => rec!(Exit, Exit),
        4 => rec!(Throttle, Throttle),
        5 => rec!(perf_event_data::Read, Read),
        6 => {
            let s: Sample = p.parse()?;
            Ok(exercise(s.into(), r))
        }
        7 => rec!(Mmap2, Mmap2),
        8 => rec!(Aux, Aux),
        9 => rec!(ITraceStart, ITraceStart),
        10 => rec!(LostSamples, LostSamples),
        11 => rec!(SwitchCpuWide, SwitchCpuWide),
        12 => rec!(Namespaces, Namespaces),
        13 => rec!(KSymbol, KSymbol),
        14 => rec!(BpfEvent, BpfEvent),
        15 => rec!(CGroup, CGroup),
        16 => rec!(TextPoke, TextPoke),
        17 => rec!(AuxOutputHwId, AuxOutputHwId),
        18 => dbg!(perf_event_header),
        19 => {
            let a: perf_event_attr = p.parse()?;
            let c: ParseConfig<Native> = a.into();
            Ok(hash2(super::delivery::r_attr(&a).hash(), fmt_len(&c, true) as u64))
        }
        20 => dbg!(SampleId),
        21 => dbg!(ReadValue),
        22 => dbg!(ReadGroup),
        23 => {
            let x = if r.bool() { Registers::parse_user(p)? } else { Registers::parse_intr(p)? };
            Ok(fmt_len(&x.clone(), false) as u64 + x.regs.len() as u64)
        }
        24 => dbg!(BranchEntry),
        25 => {
            let d: DataSource = p.parse()?;
            Ok(fmt_len(&d, false) as u64 + ds_row(&d)[0])
        }
        26 => dbg!(NamespaceEntry),
        27 => dbg!([u8; 20]),
        28 => dbg!([u8; 1]),
        29 => dbg!(AuxFlags),
        30 => dbg!(KSymbolType),
        31 => dbg!(SampleRegsAbi),
        32 => dbg!(Txn),
        33 => dbg!(BpfEventType),
        34 => dbg!(KSymbolFlags),
        _ => {
            let x: Record = p.parse()?;
            Ok(exercise(x, r))
        }
    }
}
pub const DIRECT: usize = 36;

pub fn huge_len(r: &mut Rng, n: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX / 8 + r.below(3),
        3 => usize::MAX / 24 + r.below(3),
        4 => usize::MAX / 2 + r.below(3),
        5 => n,
        6 => n + 1,
        7 => 1usize << r.below(usize::BITS as usize),
        _ => r.below(n + 2),
    }
}

/// A few primitive operations with arbitrary lengths.
fn primitives<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, n: usize, r: &mut Rng) -> ParseResult<u64> {
    let mut h = 0;
    for _ in 0..1 + r.below(6) {
        let len = huge_len(r, n);
        match r.below(11) {
            0 => h = hash2(h, fnv(&p.parse_bytes(len)?)),
            1 => h = hash2(h, p.parse_repeated::<u64>(len)?.len() as u64),
            2 => h = hash2(h, p.parse_repeated::<u8>(len)?.len() as u64),
            3 => h = hash2(h, p.parse_repeated::<BranchEntry>(len)?.len() as u64),
            4 => h = hash2(h, unsafe { p.parse_slice::<u64>(len)? }.iter().fold(0, |a, b| a ^ b)),
            5 => h = hash2(h, unsafe { p.parse_slice::<u16>(len)? }.iter().fold(0, |a, b| a ^ *b as u64)),
            6 => h = hash2(h, unsafe { p.parse_slice_direct::<u64>(len)? }.map(|s| s.iter().fold(0, |a, b| a ^ b)).unwrap_or(1)),
            7 => h = hash2(h, unsafe { p.parse_slice_direct::<u32>(len)? }.map(|s| s.len() as u64).unwrap_or(1)),
            8 => h = hash2(h, fnv(&p.parse_rest_trim_nul()?)),
            9 => h = hash2(h, p.parse_if::<u32>(r.bool())?.unwrap_or(7) as u64),
            _ => h = hash2(h, p.parse_repeated::<[u8; 3]>(len)?.len() as u64),
        }
    }
    Ok(h)
}

fn run_c01<'p, B: ParseBuf<'p>, E: Endian>(buf: B, cfg: ParseConfig<E>, op: usize, n: usize, r: &mut Rng) -> ParseResult<u64> {
    let mut p = Parser::new(buf, cfg);
    match op {
        0..=5 => {
            let mut h = 0;
            for i in 0..1 + op % 3 {
                let (rec, m) = match p.parse_record(KeepVisitor) {
                    Ok(x) => x,
                    Err(e) if i > 0 && e.kind() == ErrorKind::Eof => break,
                    Err(e) => {
                        std::hint::black_box(e.to_string());
                        if op % 2 == 0 {
                            continue;
                        }
                        return Err(e);
                    }
                };
                h = hash2(h, fmt_len(&m.clone(), false) as u64);
                h = hash2(h, exercise(rec, r));
            }
            Ok(h)
        }
        6 => enter(&mut p, r.pick(&ENTRIES)).map(|o| o.rec.hash()),
        7 => {
            let h = perf_event_header { type_: if r.bool() { r.below(24) as u32 } else { r.u32() }, misc: r.u16(), size: r.v16() };
            let rec = Record::parse_with_header(&mut p, h)?;
            Ok(exercise(rec, r))
        }
        8 => {
            let (mut q, _m) = p.parse_metadata()?;
            let k = r.below(DIRECT);
            direct(&mut q, k, r)
        }
        9 => primitives(&mut p, n, r),
        _ => {
            let k = r.below(DIRECT);
            direct(&mut p, k, r)
        }
    }
}

/// A configuration from raw bits, as the crate's fuzzing support produces it.
fn wild_bits_cfg(r: &mut Rng) -> ParseConfig<Native> {
    let raw = r.bytes(64);
    let mut u = arbitrary::Unstructured::new(&raw);
    ParseConfig::arbitrary(&mut u).unwrap_or_default()
}

pub fn c01(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 1, n);
    let end = r.pick(&[End::Native, End::Native, End::Little, End::Big, End::DynLittle, End::DynBig, End::UserLittle, End::UserBig]);
    let cfg = gen_wild_cfg(&mut r);
    let mut data = gen_hostile(&mut r, &cfg, end.be());
    let op = r.below(13);
    if op >= 9 || r.one_in(6) {
        // unframed input: drop the header, or use attr-like bytes
        match r.below(3) {
            0 if data.len() > 8 => {
                data.drain(..8);
            }
            1 => {
                let size = r.pick(&[0u32, 8, 63, 64, 65, 72, 80, 96, 104, 112, 120, 128, 136, 144, 4096, u32::MAX]);
                let mut a = super::delivery::AttrVals::gen(&mut r, size.clamp(64, 4096));
                a.size = size.clamp(64, 4096);
                data = encode(&a.program(), end.be());
                let mut t = vec![];
                put(&mut t, 4, size as u64, end.be());
                data[4..8].copy_from_slice(&t);
            }
            _ => (),
        }
    } else if r.one_in(5) {
        let more = gen_hostile(&mut r, &cfg, end.be());
        data.extend(more);
    }
    let d = gen_delivery(&mut r, data.len());
    let wild = r.one_in(4);
    let mut r2 = Rng::new(ctx.seed, 101, n);
    let out = with_delivery!(&d, &data, |b| {
        if wild {
            let c = wild_bits_cfg(&mut r);
            match end {
                End::Big => guarded(|| run_c01(b, c.with_endian(Big), op, data.len(), &mut r2)),
                End::Native => guarded(|| run_c01(b, c, op, data.len(), &mut r2)),
                _ => guarded(|| run_c01(b, c.with_endian(Dynamic::Little), op, data.len(), &mut r2)),
            }
        } else {
            with_end!(end, cfg.attr(), |c| guarded(|| run_c01(b, c, op, data.len(), &mut r2)))
        }
    });
    ctx.eval();
    ctx.n(&format!("op{op}:{}", out.tag()));
    ctx.n(d.name());
    let txt = || format!("op={op} order={end:?} wild_config={wild} {} delivery={} bytes={}", cfg.text(), d.text(), hex_short(&data));
    if let Out::Panic(m) = &out {
        return viol(format!("panic: {m}"), txt());
    }
    ctx.sig(hash2(hash2(op as u64, hstr(d.name())), hash2(hstr(out.tag()), data.len() as u64 ^ (cfg.st << 20))));
    if n % 101 == 0 {
        ctx.sample(txt);
    }
    Ok(())
}

pub fn c09(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    crate::run::leak_repeats(c09_once, n, ctx)
}

fn c09_once(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 9, n);
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynBig]);
    let cfg = gen_wild_cfg(&mut r);
    let mut data = gen_hostile(&mut r, &cfg, end.be());
    let direct_parse = r.one_in(3);
    if direct_parse && data.len() > 8 && r.bool() {
        data.drain(..8);
    }
    if r.one_in(40) {
        // plenty of data behind the record
        let k = r.below(1 << 17);
        data.resize(data.len() + k, 0x41);
    }
    let d = gen_delivery(&mut r, data.len());
    let which = if r.bool() { 6 } else { r.below(DIRECT) };
    let prim = direct_parse && r.one_in(3);
    let plen = huge_len(&mut r, data.len());
    let pop = r.below(6);
    let mut what = String::from("record");
    if prim {
        what = format!("primitive {pop} len={plen}");
    } else if direct_parse {
        what = format!("direct type {which}");
    }

    fn go<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, direct_parse: bool, prim: bool, which: usize, pop: usize, plen: usize) -> ParseResult<Held<'p>> {
        if prim {
            return Ok(match pop {
                0 => Held::Bytes(p.parse_bytes(plen)?),
                1 => Held::Words(Cow::Owned(p.parse_repeated(plen)?)),
                2 => Held::Words(unsafe { p.parse_slice(plen)? }),
                3 => Held::Lbr(unsafe { p.parse_slice(plen)? }),
                4 => Held::Bytes(p.parse_rest_trim_nul()?),
                _ => Held::Bytes(p.parse_rest()?),
            });
        }
        if direct_parse {
            return Ok(match which {
                6 => {
                    let s: Sample = p.parse()?;
                    Held::Rec(s.into())
                }
                12 => Held::Rec(p.parse::<Namespaces>()?.into()),
                16 => Held::Rec(p.parse::<TextPoke>()?.into()),
                22 => Held::Group(p.parse()?),
                19 => {
                    let _a: perf_event_attr = p.parse()?;
                    Held::Nothing
                }
                _ => Held::Rec(p.parse()?),
            });
        }
        let (rec, _m) = p.parse_record(KeepVisitor)?;
        Ok(Held::Rec(rec))
    }

    let nchunks = match &d {
        Delivery::Mon { cuts, .. } => cuts.len(),
        Delivery::Reader { cap, sizes } => data.len() / (*cap).min(sizes.iter().copied().min().unwrap_or(usize::MAX)).max(1) + 2,
        _ => 1,
    };
    let res = with_delivery!(&d, &data, |b| with_end!(end, cfg.attr(), |c| {
        let mut p = Parser::new(b, c);
        let w = alloc::start();
        let out = guarded(|| go(&mut p, direct_parse, prim, which, pop, plen));
        let s1 = w.stats();
        let (ok, panic) = match &out {
            Out::Ok(_) => (true, None),
            Out::Panic(m) => {
                let _p = alloc::pause();
                (false, Some(m.clone()))
            }
            _ => (false, None),
        };
        {
            // a panic message was allocated under a pause
            let _p = panic.is_some().then(alloc::pause);
            drop(out);
        }
        let s2 = w.stats();
        drop(p);
        (s1, s2, ok, panic)
    }));
    let (s1, s2, ok, panic) = res;
    ctx.eval();
    let txt = || format!("{what} order={end:?} {} delivery={} bytes={}", cfg.text(), d.text(), hex_short(&data));
    if let Some(m) = panic {
        if m.contains("capacity overflow") {
            return viol(format!("allocation size overflow: {m}"), txt());
        }
        ctx.n("skipped:panic");
        return Ok(());
    }
    let have = data.len() as i64;
    let peak_max = 48 * 1024 + 8 * have + 256 * nchunks as i64;
    let req_max = 32 * 1024 + 4 * have as usize + 64 * nchunks;
    if s1.peak > peak_max {
        return viol(format!("peak heap use {} bytes for {} input bytes in {nchunks} chunks", s1.peak, have), txt());
    }
    if s1.max_req > req_max {
        return viol(format!("single allocation of {} bytes for {} input bytes", s1.max_req, have), txt());
    }
    if !ok && (s1.live != 0 || s1.blocks != 0) {
        return viol(format!("failed parse leaves {} bytes in {} blocks allocated", s1.live, s1.blocks), txt());
    }
    if s2.live != 0 || s2.blocks != 0 {
        return viol(format!("dropping the result leaves {} bytes in {} blocks allocated", s2.live, s2.blocks), txt());
    }
    ctx.add("allocations_observed", s1.count);
    ctx.peak("peak_heap_minus_input", (s1.peak - have).max(0) as u64);
    if have > 16384 {
        ctx.peak("peak_heap_percent_of_large_input", (s1.peak * 100 / have) as u64);
        ctx.peak("max_request_percent_of_large_input", (s1.max_req as i64 * 100 / have) as u64);
    } else {
        ctx.peak("max_request_small_input", s1.max_req as u64);
    }
    ctx.n(if ok { "ok" } else { "refused" });
    ctx.n(d.name());
    if s1.count > 0 {
        ctx.sig(hash2(hash2(hstr(&what), d.sig()), hash2(have as u64, s1.peak as u64)));
    }
    if n % 67 == 0 {
        ctx.sample(|| format!("peak={} max_request={} allocations={} {}", s1.peak, s1.max_req, s1.count, txt()));
    }
    Ok(())
}

#[allow(dead_code)]
enum Held<'p> {
    Rec(Record<'p>),
    Bytes(Cow<'p, [u8]>),
    Words(Cow<'p, [u64]>),
    Lbr(Cow<'p, [BranchEntry]>),
    Group(ReadGroup<'p>),
    Nothing,
}

/// Byte order that counts conversions (truthful about being native).
#[derive(Clone)]
struct CountEnd {
    be: bool,
    native: bool,
    n: Rc<Cell<u64>>,
}
unsafe impl Endian for CountEnd {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        self.n.set(self.n.get() + 1);
        if self.be {
            u16::from_be_bytes(b)
        } else {
            u16::from_le_bytes(b)
        }
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        self.n.set(self.n.get() + 1);
        if self.be {
            u32::from_be_bytes(b)
        } else {
            u32::from_le_bytes(b)
        }
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        self.n.set(self.n.get() + 1);
        if self.be {
            u64::from_be_bytes(b)
        } else {
            u64::from_le_bytes(b)
        }
    }
    fn is_native(&self) -> bool {
        self.native
    }
}

pub fn c10(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 10, n);
    let be = r.bool();
    let cfg = if r.bool() { gen_wild_cfg(&mut r) } else { gen_cfg(&mut r) };
    let mode = r.below(10);
    // frames of the input, for the "never asks past the record" monitor
    let (data, ends, op): (Vec<u8>, Vec<usize>, usize);
    match mode {
        0..=3 => {
            // one hostile record
            let v = gen_hostile(&mut r, &cfg, be);
            let size = if v.len() >= 8 { if be { u16::from_be_bytes([v[6], v[7]]) } else { u16::from_le_bytes([v[6], v[7]]) } } else { 8 };
            ends = vec![(size as usize).max(8)];
            data = v;
            op = 0;
        }
        4..=6 => {
            let s = super::delivery::gen_stream(&mut r, &cfg, be, 4);
            ends = s.frames.iter().map(|f| f.1).collect();
            data = s.bytes;
            op = 0;
        }
        7 => {
            // attr
            let size = if r.bool() { r.pick(&super::delivery::ATTR_SIZES) } else { 137 + r.below(300) as u32 };
            let a = super::delivery::AttrVals::gen(&mut r, size);
            let mut v = encode(&a.program(), be);
            ends = vec![v.len()];
            if r.bool() {
                v.extend(r.bytes(24));
            }
            data = v;
            op = 1;
        }
        8 => {
            // primitives with absurd lengths
            let k = r.below(200);
            data = r.bytes(k);
            ends = vec![];
            op = 2;
        }
        _ => {
            // a complete body of fixed extent, unframed
            let mut c = cfg;
            c.st &= S_ALL;
            let ty = r.pick(&[T_LOST, T_EXIT, T_THROTTLE, T_SAMPLE, T_SAMPLE, T_SAMPLE, T_AUX, T_ITRACE, T_LOST_SAMPLES, T_NAMESPACES, T_BPF, T_TEXT_POKE, T_AUX_HW]);
            c.rf &= F_ALL;
            let b = gen_record(&mut r, ty, &c, SMALL);
            let mut v = encode(&b.body, be);
            ends = vec![v.len()];
            if r.bool() {
                v.extend(r.bytes(16));
            }
            data = v;
            op = 100 + ty as usize;
        }
    }
    let mut c2 = cfg;
    if op >= 100 {
        c2.st &= S_ALL;
        c2.rf &= F_ALL;
    }
    let cuts = Rc::new(gen_cuts(&mut r, data.len()));
    let (mask, hint) = (gen_mask(&mut r), r.bool());
    // an unframed body has no end of its own: keep the known finding out of it
    let skew = if r.bool() || (op >= 100 && be == HOST_BE) { 0 } else { r.below(8) };
    let parts = split_parts(&data, &cuts, skew);
    let mut mb = MonBuf::split(&data, &parts, cuts.clone(), mask, hint);
    let bound = 64 + 8 * data.len() as u64;
    mb.budget = bound * ends.len().max(1) as u64;
    let st = mb.stats.clone();
    let conv = Rc::new(Cell::new(0));
    let e = CountEnd { be, native: (be == HOST_BE) && r.bool(), n: conv.clone() };
    let native = e.native;
    let base: ParseConfig<Native> = c2.attr().into();
    let geo = if native { Geo::chunks(cuts.clone(), mask, skew) } else { Geo::none() };
    let dtext = Delivery::Mon { cuts: cuts.clone(), mask, hint, skew }.text();
    let txt = || format!("op={op} be={be} native={native} {} delivery={dtext} frame_ends={ends:?} bytes={}", c2.text(), hex_short(&data));
    let plen = huge_len(&mut r, data.len());
    let pk = r.below(6);
    let mut p = Parser::new(mb, base.clone().with_endian(e));
    let end = if be { End::Big } else { End::Little };
    let check = |outcome: &str| -> Result<(), Viol> {
        if st.runaway.get() || st.chunk_calls.get() > bound * ends.len().max(1) as u64 {
            return viol(format!("{} source requests for {} bytes", st.chunk_calls.get(), data.len()), format!("{outcome} {}", txt()));
        }
        if conv.get() > 64 * ends.len().max(1) as u64 + 4 * data.len() as u64 {
            return viol(format!("{} conversions for {} bytes", conv.get(), data.len()), format!("{outcome} {}", txt()));
        }
        if st.over_advance.get() > 0 {
            return viol("moved the source past bytes it was not shown", format!("{outcome} {}", txt()));
        }
        if st.asked_past.get() > 0 {
            return viol("asked the source for data beyond the record", format!("{outcome} {}", txt()));
        }
        Ok(())
    };
    let mut tag = "ok";
    if op == 0 {
        let entries: Vec<Entry> = ends.iter().map(|_| r.pick(&ENTRIES)).collect();
        let mut start = 0;
        for (i, &lim) in ends.iter().enumerate() {
            st.limit.set(lim);
            let out = guarded(|| enter(&mut p, entries[i]));
            ctx.eval();
            tag = out.tag();
            if let Out::Panic(_) = out {
                ctx.n("skipped:panic");
                return Ok(());
            }
            check(tag)?;
            // temporary data must not be used after it is gone: same values as contiguously
            let alone = parse_slice_obs(&data[start..], &c2, end, entries[i]);
            if let Some(x) = out_diff(&alone, &out) {
                let v0 = kf::verdict(&data[start..], 0, &c2, end, &Geo::of(&data[start..]), &alone);
                let v1 = kf::verdict(&data, start, &c2, end, &geo, &out);
                if kf::pair_known(v0, v1) {
                    ctx.known();
                    start = lim.min(data.len());
                    continue;
                }
                return viol(format!("record {i} read from a source that invalidates data differs: {x}"), txt());
            }
            start = lim.min(data.len());
            ctx.n(&format!("record:{tag}"));
        }
    } else {
        if let Some(&l) = ends.first() {
            st.limit.set(l);
        }
        let out = guarded(|| -> ParseResult<u64> {
            Ok(match op {
                1 => super::delivery::r_attr(&p.parse()?).hash(),
                2 => match pk {
                    0 => fnv(&p.parse_bytes(plen)?),
                    1 => p.parse_repeated::<u64>(plen)?.len() as u64,
                    2 => unsafe { p.parse_slice::<u64>(plen)? }.len() as u64,
                    3 => p.parse_repeated::<[u8; 3]>(plen)?.len() as u64,
                    4 => fnv(&p.parse_rest()?),
                    _ => p.parse_repeated::<NamespaceEntry>(plen)?.len() as u64,
                },
                t => parse_body((t - 100) as u32, &mut p)?.hash(),
            })
        });
        ctx.eval();
        tag = out.tag();
        if let Out::Panic(_) = out {
            ctx.n("skipped:panic");
            return Ok(());
        }
        check(tag)?;
        ctx.n(&format!("{}:{tag}", if op == 1 { "attr" } else if op == 2 { "primitive" } else { "unframed" }));
    }
    ctx.add("source_requests", st.chunk_calls.get());
    ctx.add("source_advances", st.advance_calls.get());
    ctx.add("temporary_chunks_invalidated", st.temps.get());
    ctx.add("conversions", conv.get());
    if !data.is_empty() {
        ctx.peak("requests_per_100_bytes", if data.len() >= 64 { st.chunk_calls.get() * 100 / data.len() as u64 } else { 0 });
    }
    ctx.sig(hash2(st.trace.get(), hstr(tag)));
    if n % 71 == 0 {
        ctx.sample(|| format!("requests={} advances={} conversions={} {}", st.chunk_calls.get(), st.advance_calls.get(), conv.get(), txt()));
    }
    Ok(())
}

/// Visitor that notes that it was called.
struct Noting<'c>(&'c Cell<u32>);
impl<'a> Visitor<'a> for Noting<'_> {
    type Output = ();
    fn visit_unimplemented(self, _: RecordMetadata) {
        self.0.set(self.0.get() + 1);
    }
}

enum FaultOut {
    Ok(u64),
    Err(ErrorKind, Option<u64>),
}

fn fault_run<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, op: usize, calls: &Cell<u32>) -> ParseResult<u64> {
    Ok(match op {
        0 => {
            p.parse_record(Noting(calls))?;
            1
        }
        1 => {
            let h: perf_event_header = p.parse()?;
            p.parse_record_with_header(Noting(calls), h)?;
            1
        }
        2 => r_record(&p.parse::<Record>()?).hash(),
        3 => {
            let (mut q, m) = p.parse_metadata()?;
            let ty = m.ty();
            hash2(parse_body(ty, &mut q)?.hash(), ty as u64)
        }
        4 => super::delivery::r_attr(&p.parse()?).hash(),
        5 => r_sample(&p.parse()?).hash(),
        6 => fnv(&p.parse_bytes(40)?),
        7 => p.parse_repeated::<u64>(6)?.iter().fold(0, |a, b| hash2(a, *b)),
        8 => unsafe { p.parse_slice::<u64>(6)? }.iter().fold(0, |a, b| hash2(a, *b)),
        9 => p.parse_u8()? as u64 + p.parse_u16()? as u64 + p.parse_u32()? as u64 + p.parse_u64()?,
        10 => fnv(&p.parse::<[u8; 20]>()?),
        11 => fnv(&p.parse_rest()?),
        12 => fnv(&p.parse_rest_trim_nul()?),
        _ => r_mmap(&p.parse()?).hash(),
    })
}

fn fault_outcome(f: impl FnOnce() -> ParseResult<u64>) -> Result<FaultOut, String> {
    match crate::crash::guard(f) {
        Ok(Ok(h)) => Ok(FaultOut::Ok(h)),
        Ok(Err(e)) => Ok(FaultOut::Err(e.kind(), find_fault(&e))),
        Err(m) => Err(m),
    }
}

pub fn c16(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 16, n);
    let end = r.pick(&[End::Native, End::Little, End::Big]);
    let be = end.be();
    let cfg0 = gen_cfg(&mut r);
    let op = if r.below(3) != 0 { r.below(4) } else { r.below(14) };
    let mut cfg = cfg0;
    let mut data;
    let mut sig = op as u64;
    match op {
        0..=3 => {
            let ty = if r.one_in(3) { T_SAMPLE } else { gen_type(&mut r) };
            let b = gen_record(&mut r, ty, &cfg0, Lim { s: 80, n: 8 });
            cfg = b.cfg;
            sig = hash2(sig, b.shape());
            data = b.bytes(be);
            if r.one_in(4) {
                data = gen_hostile(&mut r, &cfg, be);
                data.truncate(400);
            }
        }
        4 => {
            let size = if r.one_in(3) { 137 + r.below(60) as u32 } else { r.pick(&super::delivery::ATTR_SIZES) };
            data = encode(&super::delivery::AttrVals::gen(&mut r, size).program(), be);
        }
        5 => {
            let b = gen_record(&mut r, T_SAMPLE, &cfg0, Lim { s: 80, n: 8 });
            data = encode(&b.body, be);
        }
        13 => {
            let b = gen_record(&mut r, T_MMAP, &cfg0, Lim { s: 80, n: 8 });
            data = encode(&b.body, be);
        }
        _ => {
            let k = r.below(90);
            data = r.bytes(k);
        }
    }
    if r.one_in(10) {
        let k = r.below(data.len() + 1);
        data.truncate(k);
    }
    let to_rest = matches!(op, 11..=13);
    let mut cuts = gen_cuts(&mut r, data.len());
    if cuts.len() > 48 {
        // keep the number of failure points bounded
        let step = cuts.len() / 24 + 1;
        let last = *cuts.last().unwrap();
        cuts = cuts.into_iter().step_by(step).collect();
        if *cuts.last().unwrap() != last {
            cuts.push(last);
        }
    }
    let cuts = Rc::new(cuts);
    let (mask, hint) = (gen_mask(&mut r), r.bool());
    let dtext = Delivery::Mon { cuts: cuts.clone(), mask, hint, skew: data.as_ptr() as usize % 8 }.text();
    let txt = |k: u64, f: FaultKind| format!("op={op} failure {f:?} at request {k} {} order={end:?} delivery={dtext} bytes={}", cfg.text(), hex_short(&data));

    let run = |fault_at: u64, fk: FaultKind, calls: &Cell<u32>| {
        let mut mb = MonBuf::new(&data, cuts.clone(), mask, hint);
        mb.fault_at = fault_at;
        mb.fault = fk;
        let st = mb.stats.clone();
        let o = with_end!(end, cfg.attr(), |c| {
            let mut p = Parser::new(mb, c);
            fault_outcome(|| fault_run(&mut p, op, calls))
        });
        (o, st)
    };
    let calls = Cell::new(0);
    let (base, st0) = run(u64::MAX, FaultKind::Custom, &calls);
    let total = st0.chunk_calls.get();
    let base = match base {
        Ok(b) => b,
        Err(_) => {
            ctx.n("skipped:panic");
            return Ok(());
        }
    };
    let base_calls = calls.get();
    let points: Vec<u64> = if total <= 60 { (1..=total + 1).collect() } else { (0..60).map(|_| 1 + r.below(total as usize) as u64).collect() };
    for k in points {
        let mut fk = any_fault(&mut r);
        if to_rest && fk.is_eof() {
            // an end-of-input error while reading "the rest" is the end of the input
            fk = FaultKind::IoOther;
        }
        let calls = Cell::new(0);
        let (o, st) = run(k, fk, &calls);
        ctx.eval();
        let o = match o {
            Ok(o) => o,
            Err(m) => return viol(format!("panic after a source failure: {m}"), txt(k, fk)),
        };
        if !st.faulted.get() {
            // the failure point was never reached: same result as without a failure
            match (&base, &o) {
                (FaultOut::Ok(a), FaultOut::Ok(b)) if a == b => (),
                (FaultOut::Err(a, _), FaultOut::Err(b, _)) if a == b => (),
                _ => return viol("result differs although the source did not fail", txt(k, fk)),
            }
            if calls.get() != base_calls {
                return viol("number of callbacks differs although the source did not fail", txt(k, fk));
            }
            ctx.n("not_reached");
            continue;
        }
        let want = if fk.is_eof() { ErrorKind::Eof } else { ErrorKind::External };
        match o {
            FaultOut::Ok(_) => return viol("a record was returned although the source failed", txt(k, fk)),
            FaultOut::Err(kind, found) => {
                if kind != want {
                    return viol(format!("source failure reported as {kind:?} instead of {want:?}"), txt(k, fk));
                }
                if found != Some(fk.mark(k)) {
                    return viol("the error does not carry the failure of the source", txt(k, fk));
                }
            }
        }
        if calls.get() != 0 {
            return viol("visitor called for a record whose source failed", txt(k, fk));
        }
        ctx.n(&format!("fault:{}", fk.label()));
        ctx.sig(hash2(hash2(sig, k), hash2(st.trace.get(), fnv(format!("{fk:?}").as_bytes()))));
    }

    // buffered reader over a failing reader
    let k = r.below(4);
    let sizes: Vec<usize> = (0..k).map(|_| 1 + r.below(30)).collect();
    let cap = 1 + r.below(64);
    let probe = |fail: Option<(u64, FaultKind)>| {
        let mut sr = ShortReader::new(&data, sizes.clone());
        sr.fail = fail;
        let reads = sr.reads.clone();
        let calls = Cell::new(0);
        let br = std::io::BufReader::with_capacity(cap, sr);
        let o = with_end!(end, cfg.attr(), |c| {
            let mut p = Parser::new(br, c);
            fault_outcome(|| fault_run(&mut p, op, &calls))
        });
        (o, reads.get(), calls.get())
    };
    let (b0, reads, c0) = probe(None);
    let Ok(b0) = b0 else { return Ok(()) };
    for _ in 0..4 {
        let at = 1 + r.below(reads as usize + 2) as u64;
        let mut fk = any_fault(&mut r);
        if to_rest && fk.is_eof() {
            fk = FaultKind::IoBlock;
        }
        let (o, _, calls) = probe(Some((at, fk)));
        ctx.eval();
        let o = match o {
            Ok(o) => o,
            Err(m) => return viol(format!("panic after a reader failure: {m}"), txt(at, fk)),
        };
        if at > reads {
            let same = match (&b0, &o) {
                (FaultOut::Ok(a), FaultOut::Ok(b)) => a == b,
                (FaultOut::Err(a, _), FaultOut::Err(b, _)) => a == b,
                _ => false,
            };
            if !same || calls != c0 {
                return viol("result differs although the reader did not fail", txt(at, fk));
            }
            continue;
        }
        let want = if fk.is_eof() { ErrorKind::Eof } else { ErrorKind::External };
        match o {
            FaultOut::Err(kind, Some(id)) if kind == want && id == fk.mark(at) => (),
            FaultOut::Ok(_) => return viol("a record was returned although the reader failed", format!("reader cap={cap} sizes={sizes:?} {}", txt(at, fk))),
            FaultOut::Err(kind, id) => {
                return viol(format!("reader failure reported as {kind:?} (source {id:?}) instead of {want:?}"), format!("reader cap={cap} sizes={sizes:?} {}", txt(at, fk)))
            }
        }
        if calls != 0 {
            return viol("visitor called for a record whose reader failed", txt(at, fk));
        }
        ctx.n(&format!("reader_fault:{}", fk.label()));
    }
    ctx.peak("failure_points_in_one_parse", total);
    if n % 43 == 0 {
        ctx.sample(|| txt(total, FaultKind::Custom));
    }
    Ok(())
}

use super::decode::case_text;
use crate::bufs::*;
use crate::gens::*;
use crate::kf::{self, Geo};
use crate::model::*;
use crate::obs::*;
use crate::run::*;
use crate::util::*;
use crate::{with_delivery, with_end};
use perf_event_data::parse::*;
use perf_event_data::{Record, RecordMetadata, Visitor};
use perf_event_open_sys::bindings::perf_event_attr;
use std::rc::Rc;

// ---------------------------------------------------------------- attr structures

/// perf_event_attr as a wire program: every field with its own value.
#[derive(Clone, Debug)]
pub struct AttrVals {
    pub size: u32,
    pub ty: u32,
    pub config: u64,
    pub period: u64,
    pub st: u64,
    pub rf: u64,
    pub bits: u64,
    pub wakeup: u32,
    pub bp_type: u32,
    pub config1: u64,
    pub config2: u64,
    pub branch: u64,
    pub regs_user: u64,
    pub stack_user: u32,
    pub clockid: u32,
    pub regs_intr: u64,
    pub aux_watermark: u32,
    pub max_stack: u16,
    pub aux_sample_size: u32,
    pub sig_data: u64,
    pub config3: u64,
    pub tail: Vec<u8>,
    /// Reserved halves: written as zero by the kernel, ignored by a reader.
    pub reserved: (u16, u32),
}

pub const ATTR_SIZES: [u32; 9] = [64, 72, 80, 96, 104, 112, 120, 128, 136];

impl AttrVals {
    pub fn gen(r: &mut Rng, size: u32) -> AttrVals {
        AttrVals {
            size,
            ty: r.v32(),
            config: r.v64(),
            period: r.v64(),
            st: r.v64(),
            rf: r.v64(),
            bits: r.v64(),
            wakeup: r.v32(),
            bp_type: r.v32(),
            config1: r.v64(),
            config2: r.v64(),
            branch: r.v64(),
            regs_user: r.v64(),
            stack_user: r.v32(),
            clockid: r.v32(),
            regs_intr: r.v64(),
            aux_watermark: r.v32(),
            max_stack: r.v16(),
            aux_sample_size: r.v32(),
            sig_data: r.v64(),
            config3: r.v64(),
            tail: vec![0; (size as usize).saturating_sub(136)],
            reserved: if r.one_in(4) { (r.v16(), r.v32()) } else { (0, 0) },
        }
    }
    /// include/uapi/linux/perf_event.h, struct perf_event_attr
    pub fn program(&self) -> Vec<W> {
        let mut w = vec![
            W::U32(self.ty),
            W::U32(self.size),
            W::U64(self.config),
            W::U64(self.period),
            W::U64(self.st),
            W::U64(self.rf),
            W::U64(self.bits),
            W::U32(self.wakeup),
            W::U32(self.bp_type),
            W::U64(self.config1),
            W::U64(self.config2),
            W::U64(self.branch),
            W::U64(self.regs_user),
            W::U32(self.stack_user),
            W::U32(self.clockid),
            W::U64(self.regs_intr),
            W::U32(self.aux_watermark),
            W::U16(self.max_stack),
            W::U16(self.reserved.0),
            W::U32(self.aux_sample_size),
            W::U32(self.reserved.1),
            W::U64(self.sig_data),
            W::U64(self.config3),
        ];
        let mut n = wlen(&w);
        while n > self.size as usize {
            n -= wlen(&w[w.len() - 1..]);
            w.pop();
        }
        if self.size > 136 {
            w.push(W::Bytes(self.tail.clone()));
        }
        w
    }
    pub fn rec(&self) -> Rec {
        let s = self.size;
        let from = |v: u32, x: u64| if s >= v { x } else { 0 };
        Rec::new("attr")
            .u("type", self.ty)
            .u("size", s)
            .u("config", self.config)
            .u("sample_period", self.period)
            .u("sample_type", self.st)
            .u("read_format", self.rf)
            .u("flags", self.bits)
            .u("wakeup_events", self.wakeup)
            .u("bp_type", self.bp_type)
            .u("config1", self.config1)
            .u("config2", from(72, self.config2))
            .u("branch_sample_type", from(80, self.branch))
            .u("sample_regs_user", from(96, self.regs_user))
            .u("sample_stack_user", from(96, self.stack_user as u64))
            .u("clockid", from(96, self.clockid as u64))
            .u("sample_regs_intr", from(104, self.regs_intr))
            .u("aux_watermark", from(112, self.aux_watermark as u64))
            .u("sample_max_stack", from(112, self.max_stack as u64))
            .u("aux_sample_size", from(120, self.aux_sample_size as u64))
            .u("sig_data", from(128, self.sig_data))
            .u("config3", from(136, self.config3))
    }
}

pub fn r_attr(a: &perf_event_attr) -> Rec {
    // every member of the unions is a plain integer
    let (period, wakeup, config1, config2) = unsafe {
        (a.__bindgen_anon_1.sample_period, a.__bindgen_anon_2.wakeup_events, a.__bindgen_anon_3.config1, a.__bindgen_anon_4.config2)
    };
    let bits = a._bitfield_1.get(0, 64);
    Rec::new("attr")
        .u("type", a.type_)
        .u("size", a.size)
        .u("config", a.config)
        .u("sample_period", period)
        .u("sample_type", a.sample_type)
        .u("read_format", a.read_format)
        .u("flags", bits)
        .u("wakeup_events", wakeup)
        .u("bp_type", a.bp_type)
        .u("config1", config1)
        .u("config2", config2)
        .u("branch_sample_type", a.branch_sample_type)
        .u("sample_regs_user", a.sample_regs_user)
        .u("sample_stack_user", a.sample_stack_user)
        .u("clockid", a.clockid as u32)
        .u("sample_regs_intr", a.sample_regs_intr)
        .u("aux_watermark", a.aux_watermark)
        .u("sample_max_stack", a.sample_max_stack as u64)
        .u("aux_sample_size", a.aux_sample_size)
        .u("sig_data", a.sig_data)
        .u("config3", a.config3)
}

pub fn rec_out_diff(a: &Out<Rec>, b: &Out<Rec>) -> Option<String> {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => x.diff(y),
        (Out::Err(_), Out::Err(_)) | (Out::Panic(_), Out::Panic(_)) => None,
        _ => Some(format!("{} vs {}", a.tag(), b.tag())),
    }
}

pub fn parse_attr_obs<'p, B: ParseBuf<'p>>(buf: B, end: End) -> Out<Rec> {
    with_end!(end, perf_event_attr::default(), |c| guarded(|| {
        let a: perf_event_attr = Parser::new(buf, c).parse()?;
        Ok(r_attr(&a))
    }))
}

/// A stream of records of one configuration (some damaged), with the type used for each.
pub struct Stream {
    pub bytes: Vec<u8>,
    /// (start, end) of each frame
    pub frames: Vec<(usize, usize)>,
    pub shape: u64,
}

/// Damage a frame without changing its header size.
pub fn damage(r: &mut Rng, b: &Built, be: bool) -> Vec<u8> {
    let (mut v, pos) = encode_pos(&b.program(), be);
    match r.below(6) {
        0 | 1 => (),
        2 => {
            if !pos.is_empty() {
                let k = pos[r.below(pos.len())];
                let rem = v.len() - k.off - k.width as usize;
                let nv = hostile_count(r, &k, rem);
                set_count(&mut v, &k, 0, nv, be);
            }
        }
        3 => {
            // unread bytes at the end of the frame
            let n = (1 + r.below(24)).min(65535 - v.len());
            let x = r.bytes(n);
            v.extend(x);
            fix_size(&mut v, be);
        }
        4 => {
            // body or trailer cut
            let n = 8 + r.below(v.len() - 7);
            v.truncate(n);
            fix_size(&mut v, be);
        }
        _ => {
            if v.len() > 8 {
                for _ in 0..1 + r.below(4) {
                    let i = 8 + r.below(v.len() - 8);
                    v[i] = r.u8();
                }
            }
        }
    }
    v
}

pub fn fix_size(v: &mut [u8], be: bool) {
    let mut t = vec![];
    put(&mut t, 2, v.len() as u64, be);
    v[6..8].copy_from_slice(&t);
}

pub fn gen_stream(r: &mut Rng, cfg: &Cfg, be: bool, max: usize) -> Stream {
    let k = 1 + r.below(max);
    let (mut bytes, mut frames, mut shape) = (vec![], vec![], 0);
    for _ in 0..k {
        let ty = gen_type(r);
        let mut b = gen_record(r, ty, cfg, Lim { s: 60, n: 6 });
        // the stream has one configuration; READ under GROUP is then refused, which is fine
        b.cfg = *cfg;
        let v = damage(r, &b, be);
        let at = bytes.len();
        bytes.extend_from_slice(&v);
        frames.push((at, bytes.len()));
        shape = hash2(hash2(shape, ty as u64), v.len() as u64);
    }
    Stream { bytes, frames, shape }
}

/// Parse up to `n` records through one parser; stops after a panic.
pub fn parse_many<'p, B: ParseBuf<'p>>(buf: B, cfg: &Cfg, end: End, entries: &[Entry], n: usize, mut after: impl FnMut(usize)) -> Vec<Out<Obs>> {
    with_end!(end, cfg.attr(), |c| {
        let mut p = Parser::new(buf, c);
        let mut v = vec![];
        for i in 0..n {
            let o = guarded(|| enter(&mut p, entries[i % entries.len()]));
            let stop = matches!(o, Out::Panic(_));
            v.push(o);
            after(i);
            if stop {
                break;
            }
        }
        v
    })
}

pub fn c04(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 4, n);
    let end = r.pick(&[End::Native, End::Native, End::Little, End::Big, End::DynBig, End::UserLittle, End::UserBig]);
    let be = end.be();
    let what = r.below(8);
    if what == 0 {
        // perf_event_attr
        let size = if r.one_in(3) { 137 + r.below(200) as u32 } else { r.pick(&ATTR_SIZES) };
        let mut a = AttrVals::gen(&mut r, size);
        if r.one_in(4) && !a.tail.is_empty() {
            let i = r.below(a.tail.len());
            a.tail[i] = 1;
        }
        let mut bytes = encode(&a.program(), be);
        if r.bool() {
            bytes.extend(r.bytes(16));
        }
        if r.one_in(4) {
            let k = r.below(bytes.len() + 1);
            bytes.truncate(k);
        }
        let base = parse_attr_obs(&bytes[..], end);
        for _ in 0..3 {
            let d = gen_delivery(&mut r, bytes.len());
            let got = with_delivery!(&d, &bytes, |b| parse_attr_obs(b, end));
            ctx.eval();
            if let Some(x) = rec_out_diff(&base, &got) {
                return viol(format!("attr via {}: {x}", d.name()), format!("order={end:?} delivery={} bytes={}", d.text(), hex_short(&bytes)));
            }
            ctx.n(&format!("attr:{}", d.name()));
            ctx.sig(hash2(hash2(a.size as u64, bytes.len() as u64), d.sig()));
        }
        return Ok(());
    }
    let mut cfg = gen_cfg(&mut r);
    let (bytes, frames, shape, entries, starts);
    if what == 1 || what == 2 {
        let s = gen_stream(&mut r, &cfg, be, 5);
        bytes = s.bytes;
        frames = s.frames.len();
        starts = s.frames.iter().map(|f| f.0).collect::<Vec<_>>();
        shape = s.shape;
        entries = vec![Entry::Visit];
    } else {
        let ty = if r.bool() { T_SAMPLE } else { gen_type(&mut r) };
        let lim = pick_lim(&mut r);
        let b = gen_record(&mut r, ty, &cfg, lim);
        cfg = b.cfg;
        let mut v = if what == 3 { damage(&mut r, &b, be) } else { b.bytes(be) };
        if what == 4 && r.bool() {
            let k = r.below(v.len() + 1);
            v.truncate(k);
        } else if r.bool() {
            let k = r.below(24);
            v.extend(r.bytes(k));
        }
        bytes = v;
        frames = 1;
        starts = vec![0];
        shape = b.shape();
        entries = vec![r.pick(&ENTRIES)];
    }
    let base_buf = AlignedBuf::new(&bytes, 0);
    let base = parse_many(base_buf.get(), &cfg, end, &entries, frames, |_| ());
    let reps = if bytes.len() > 8192 { 2 } else { 4 };
    for _ in 0..reps {
        let d = gen_delivery(&mut r, bytes.len());
        let got = with_delivery!(&d, &bytes, |b| parse_many(b, &cfg, end, &entries, frames, |_| ()));
        ctx.eval();
        let txt = || format!("{} order={end:?} entry={:?} delivery={} bytes={}", cfg.text(), entries, d.text(), hex_short(&bytes));
        for (i, (a, b)) in base.iter().zip(&got).enumerate() {
            if let Some(x) = out_diff(a, b) {
                if kf::explains(&bytes, starts[i], &cfg, (end, &Geo::flat(0), a), (end, &d.geo(), b), ctx) {
                    continue;
                }
                return viol(format!("record {i} differs between a contiguous slice and {}: {x}", d.name()), format!("{} contiguous={} other={}", txt(), out_text(a), out_text(b)));
            }
        }
        if base.len() != got.len() {
            return viol(format!("{} records contiguous, {} via {}", base.len(), got.len(), d.name()), txt());
        }
        for o in &got {
            ctx.n(&format!("{}:{}", d.name(), if matches!(o, Out::Ok(_)) { "ok" } else { "refused" }));
        }
        ctx.sig(hash2(shape, d.sig()));
    }
    if n % 31 == 0 {
        ctx.sample(|| format!("{} frames={frames} order={end:?} bytes={}", cfg.text(), hex_short(&bytes)));
    }
    Ok(())
}

pub fn c05(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 5, n);
    if r.one_in(8) {
        let size = match r.below(5) {
            0 => 137 + r.below(100) as u32,
            1 => r.below(137) as u32,
            _ => r.pick(&ATTR_SIZES),
        };
        let mut a = AttrVals::gen(&mut r, size.max(8));
        if r.bool() && !a.tail.is_empty() {
            let i = r.below(a.tail.len());
            a.tail[i] = r.u8();
        }
        let w = a.program();
        let (le, be) = (encode(&w, false), encode(&w, true));
        let keep = if r.one_in(4) { r.below(le.len() + 1) } else { le.len() };
        let mut outs = vec![];
        for e in [End::Little, End::DynLittle, End::UserLittle, End::Big, End::DynBig, End::UserBig, End::Native] {
            let d = if e.be() { &be } else { &le };
            outs.push((e, parse_attr_obs(&d[..keep], e)));
        }
        ctx.eval();
        for (e, o) in &outs[1..] {
            if let Some(x) = rec_out_diff(&outs[0].1, o) {
                return viol(format!("attr: {:?} and {e:?} differ: {x}", outs[0].0), format!("size={} kept={keep} le={}", a.size, hex_short(&le)));
            }
        }
        ctx.n(&format!("attr:{}", outs[0].1.tag()));
        ctx.sig(hash2(a.size as u64, keep as u64));
        return Ok(());
    }
    let cfg0 = if r.one_in(6) { gen_wild_cfg(&mut r) } else { gen_cfg(&mut r) };
    let mut safe = cfg0;
    safe.st &= S_ALL;
    let ty = if r.bool() { T_SAMPLE } else { gen_type(&mut r) };
    let lim = pick_lim(&mut r);
    let mut b = gen_record(&mut r, ty, &safe, lim);
    if r.bool() {
        b.cfg = cfg0;
    }
    let (mut le, pos) = encode_pos(&b.program(), false);
    let (mut be, _) = encode_pos(&b.program(), true);
    let mut how = "valid";
    if r.bool() && !pos.is_empty() {
        how = "count_edit";
        let k = pos[r.below(pos.len())];
        let rem = le.len() - k.off - k.width as usize;
        let nv = hostile_count(&mut r, &k, rem);
        set_count(&mut le, &k, 0, nv, false);
        set_count(&mut be, &k, 0, nv, true);
    }
    if r.one_in(4) {
        how = "cut";
        let keep = r.below(le.len() + 1);
        le.truncate(keep);
        be.truncate(keep);
        if r.bool() && keep >= 8 {
            fix_size(&mut le, false);
            fix_size(&mut be, true);
        }
    }
    let entry = r.pick(&ENTRIES);
    let d = gen_delivery(&mut r, le.len());
    let mut outs = vec![];
    for e in [End::Little, End::DynLittle, End::UserLittle, End::Big, End::DynBig, End::UserBig, End::Native] {
        let bytes = if e.be() { &be } else { &le };
        let o = with_delivery!(&d, bytes, |x| parse_buf_obs(x, &b.cfg, e, entry));
        outs.push((e, o));
    }
    ctx.eval();
    for (e, o) in &outs[1..] {
        if let Some(x) = out_diff(&outs[0].1, o) {
            let v0 = kf::verdict(&le, 0, &b.cfg, outs[0].0, &d.geo(), &outs[0].1);
            let v1 = kf::verdict(if e.be() { &be } else { &le }, 0, &b.cfg, *e, &d.geo(), o);
            if kf::pair_known(v0, v1) {
                ctx.known();
                continue;
            }
            if v0 == kf::Verdict::Right && v1 == kf::Verdict::Right {
                // the edit moved fields of different widths over each other, so that the two
                // encodings really say different things, each decoded as the ABI calls for
                ctx.n("edited_beyond_comparison");
                continue;
            }
            return viol(
                format!("{}: {:?} and {e:?} differ: {x}", kind_name(ty), outs[0].0),
                format!("{how} entry={entry:?} delivery={} {} little-endian bytes={} results: {} / {}", d.text(), b.cfg.text(), hex_short(&le), out_text(&outs[0].1), out_text(o)),
            );
        }
    }
    ctx.n(&format!("{how}:{}", outs[0].1.tag()));
    ctx.n(&format!("type:{}", kind_name(ty)));
    ctx.sig(hash2(hash2(b.shape(), hstr(outs[0].1.tag())), hstr(how)));
    if n % 53 == 0 {
        ctx.sample(|| case_text(&b, &le, End::Little));
    }
    Ok(())
}

/// Frame `i` parsed alone (aligned) and in the stream: is the difference the known finding?
#[allow(clippy::too_many_arguments)]
fn same_but_known(s: &Stream, i: usize, cfg: &Cfg, end: End, alone: &Out<Obs>, geo: &Geo, got: &Out<Obs>, ctx: &mut Ctx) -> bool {
    let (a, b) = s.frames[i];
    let v0 = kf::verdict(&s.bytes[a..b], 0, cfg, end, &Geo::flat(0), alone);
    let v1 = kf::verdict(&s.bytes, a, cfg, end, geo, got);
    let k = kf::pair_known(v0, v1);
    if k {
        ctx.known();
    }
    k
}

/// The same bytes over and over: a stream of any length in little memory.
struct Laps<'p> {
    data: &'p [u8],
    pos: usize,
    cut: usize,
    temp: bool,
    total: Rc<std::cell::Cell<u64>>,
}

unsafe impl<'p> ParseBuf<'p> for Laps<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        let e = (self.pos + self.cut).min(self.data.len());
        let c = &self.data[self.pos..e];
        Ok(if self.temp { ParseBufChunk::Temporary(c) } else { ParseBufChunk::External(c) })
    }
    fn advance(&mut self, count: usize) {
        assert!(count <= self.cut.min(self.data.len() - self.pos), "moved past the bytes shown");
        self.pos += count;
        self.total.set(self.total.get() + count as u64);
        if self.pos == self.data.len() {
            self.pos = 0;
        }
    }
}

/// Type, length and outer bytes of an unknown record.
struct Outline;

impl<'a> Visitor<'a> for Outline {
    type Output = (u32, usize, u8, u8);
    fn visit_unimplemented(self, md: RecordMetadata) -> Self::Output {
        (md.ty(), usize::MAX, 0, 0)
    }
    fn visit_unknown(self, data: std::borrow::Cow<'a, [u8]>, md: RecordMetadata) -> Self::Output {
        (md.ty(), data.len(), data.first().copied().unwrap_or(0), data.last().copied().unwrap_or(0))
    }
}

/// Very long streams through one parser: many records, or more bytes than 32 bits can count.
fn c06_long(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 106, n);
    let far = r.bool();
    let end = if far { r.pick(&[End::Big, End::DynBig]) } else { r.pick(&[End::Native, End::Little, End::Big]) };
    let be = end.be();
    let cfg = gen_cfg(&mut r);
    let mut s = gen_stream(&mut r, &cfg, be, if far { 5 } else { 60 });
    let small = s.frames.len();
    let words = (cfg.st & (S_TID | S_TIME | S_ID | S_STREAM_ID | S_CPU | S_IDENTIFIER)).count_ones() as usize;
    let trailer = if cfg.sia { 8 * words } else { 0 };
    let mut outline = vec![];
    if far {
        for i in 0..16u32 {
            let size = 65535 - (i as usize % 3) * 7;
            let mut v = vec![];
            put(&mut v, 4, 0x4000 + i as u64, be);
            put(&mut v, 2, i as u64, be);
            put(&mut v, 2, size as u64, be);
            v.resize(size, i as u8);
            v[8] = 200 + i as u8;
            let at = s.bytes.len();
            s.bytes.extend(v);
            s.frames.push((at, s.bytes.len()));
            outline.push((0x4000 + i, size - 8 - trailer, 200 + i as u8, i as u8));
        }
    }
    let entries: Vec<Entry> = (0..small).map(|_| r.pick(&ENTRIES)).collect();
    let alone: Vec<Out<Obs>> = (0..small)
        .map(|i| {
            let (a, b) = s.frames[i];
            let buf = AlignedBuf::new(&s.bytes[a..b], 0);
            parse_slice_obs(buf.get(), &cfg, end, entries[i])
        })
        .collect();
    // host order from temporary memory only: borrowed misaligned words are another matter (KF1)
    let temp = !far && (end.host() || r.bool());
    let cut = if far || r.bool() { usize::MAX / 2 } else { 1 + r.below(200) };
    let total = Rc::new(std::cell::Cell::new(0u64));
    let buf = Laps { data: &s.bytes, pos: 0, cut, temp, total: total.clone() };
    let target: u64 = if far { (1 << 32) + (3 << 20) } else { 0 };
    let laps = if far { u64::MAX } else { 1 + 25_000 / small as u64 };
    let txt = |lap: u64, i: usize| format!("lap {lap} record {i}, {} bytes read; {} order={end:?} temporary={temp} chunks of {cut} frames={:?} bytes={}", total.get(), cfg.text(), s.frames, hex_short(&s.bytes));
    let mut records = 0u64;
    let mut lap = 0;
    let res = with_end!(end, cfg.attr(), |c| {
        let mut p = Parser::new(buf, c);
        let mut bad = None;
        'run: while lap < laps && (!far || total.get() < target) {
            for i in 0..s.frames.len() {
                let why = if i < small {
                    let o = guarded(|| enter(&mut p, entries[i]));
                    out_diff(&alone[i], &o)
                } else {
                    match guarded(|| p.parse_record(Outline)) {
                        Out::Ok(o) if o == outline[i - small] => None,
                        Out::Ok(o) => Some(format!("{o:?} instead of {:?}", outline[i - small])),
                        Out::Err(e) => Some(format!("refused: {e:?}")),
                        Out::Panic(m) => Some(format!("panic: {m}")),
                    }
                };
                records += 1;
                let at = lap * s.bytes.len() as u64 + s.frames[i].1 as u64;
                let why = why.or_else(|| (total.get() != at).then(|| format!("stream at byte {} instead of {at}", total.get())));
                if let Some(w) = why {
                    bad = Some((i, w));
                    break 'run;
                }
            }
            lap += 1;
        }
        bad
    });
    ctx.evals += records;
    ctx.add(if far { "records_in_streams_beyond_4GiB" } else { "records_in_long_streams" }, records);
    ctx.sig(hash2(s.shape, far as u64));
    match res {
        None => Ok(()),
        Some((i, w)) => viol(format!("long stream: {w}"), txt(lap, i)),
    }
}

pub fn c06(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    if !crate::util::small() && n % 12_000 == 77 {
        return c06_long(n, ctx);
    }
    let mut r = Rng::new(ctx.seed, 6, n);
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynLittle, End::DynBig, End::UserLittle, End::UserBig]);
    let be = end.be();
    let cfg = gen_cfg(&mut r);
    let longest = if !crate::util::small() && r.one_in(20) { 70 } else { 8 };
    let s = gen_stream(&mut r, &cfg, be, longest);
    let entries: Vec<Entry> = (0..s.frames.len()).map(|_| r.pick(&ENTRIES)).collect();
    let txt = |d: &str| {
        format!("{} order={end:?} entries={entries:?} frames={:?} delivery={d} bytes={}", cfg.text(), s.frames, hex_short(&s.bytes))
    };
    // each frame alone: what it means cannot depend on its neighbours
    let alone: Vec<Out<Obs>> = s
        .frames
        .iter()
        .zip(&entries)
        .map(|(&(a, b), &e)| {
            let buf = AlignedBuf::new(&s.bytes[a..b], 0);
            parse_slice_obs(buf.get(), &cfg, end, e)
        })
        .collect();
    if let Some(i) = alone.iter().position(|o| matches!(o, Out::Panic(_))) {
        return viol(format!("frame {i} panicked: {}", out_text(&alone[i])), txt("alone"));
    }

    // monitored source: position after every record
    let cuts = Rc::new(gen_cuts(&mut r, s.bytes.len()));
    let (mask, hint) = (gen_mask(&mut r), r.bool());
    let mb = MonBuf::new(&s.bytes, cuts.clone(), mask, hint);
    let st = mb.stats.clone();
    let mut at = vec![];
    let got = parse_many(mb, &cfg, end, &entries, s.frames.len(), |_| at.push(st.consumed.get()));
    let skew = s.bytes.as_ptr() as usize % 8;
    let geo = Geo::chunks(cuts.clone(), mask, skew);
    let dtext = Delivery::Mon { cuts, mask, hint, skew }.text();
    for (i, (g, a)) in got.iter().zip(&alone).enumerate() {
        ctx.eval();
        if at[i] != s.frames[i].1 {
            return viol(format!("after record {i} the stream is at byte {} instead of {}", at[i], s.frames[i].1), txt(&dtext));
        }
        if let Some(x) = out_diff(a, g) {
            if same_but_known(&s, i, &cfg, end, a, &geo, g, ctx) {
                continue;
            }
            return viol(format!("record {i} differs from the same frame parsed alone: {x}"), format!("{} alone={} in stream={}", txt(&dtext), out_text(a), out_text(g)));
        }
        ctx.n(&format!("frame:{}", g.tag()));
    }
    if got.len() != s.frames.len() {
        return viol(format!("{} of {} records seen", got.len(), s.frames.len()), txt(&dtext));
    }

    // plain slice or reader: stop after k records, the rest of the stream must be intact
    let k = r.below(s.frames.len() + 1);
    let d = gen_delivery(&mut r, s.bytes.len());
    let want_rest = &s.bytes[if k == 0 { 0 } else { s.frames[k - 1].1 }..];
    let res = with_delivery!(&d, &s.bytes, |b| with_end!(end, cfg.attr(), |c| {
        let mut p = Parser::new(b, c);
        let mut v = vec![];
        for e in &entries[..k] {
            v.push(guarded(|| enter(&mut p, *e)));
        }
        let rest = guarded(|| p.parse_rest().map(|c| c.to_vec()));
        (v, rest)
    }));
    ctx.eval();
    for (i, (g, a)) in res.0.iter().zip(&alone).enumerate() {
        if let Some(x) = out_diff(a, g) {
            if same_but_known(&s, i, &cfg, end, a, &d.geo(), g, ctx) {
                continue;
            }
            return viol(format!("record {i} differs from the same frame parsed alone: {x}"), txt(&d.text()));
        }
    }
    match &res.1 {
        Out::Ok(rest) if rest == want_rest => (),
        Out::Ok(rest) => return viol(format!("after {k} records {} bytes are left instead of {}", rest.len(), want_rest.len()), txt(&d.text())),
        o => return viol(format!("after {k} records the rest cannot be read: {}", o.tag()), txt(&d.text())),
    }

    // bytes after the frame do not matter
    let i = r.below(s.frames.len());
    let (a, b) = s.frames[i];
    let mut v = s.bytes[a..b].to_vec();
    let nx = 1 + r.below(64);
    v.extend(r.bytes(nx));
    let o = parse_slice_obs(&v, &cfg, end, entries[i]);
    ctx.eval();
    let bare = |x: Option<String>, ctx: &mut Ctx| match x {
        Some(_) if kf::explains(&v, 0, &cfg, (end, &Geo::flat(0), &alone[i]), (end, &Geo::of(&v), &o), ctx) => None,
        x => x,
    };
    if let Some(x) = bare(out_diff(&alone[i], &o), ctx) {
        return viol(format!("bytes after the frame change the result: {x}"), format!("{} frame {i} followed by {}", txt("slice"), hex(&v[b - a..])));
    }
    ctx.peak("frames_in_stream", s.frames.len() as u64);
    let mut h = s.shape;
    for o in &alone {
        h = hash2(h, hstr(o.tag()));
    }
    ctx.sig(hash2(h, d.sig()));
    if n % 37 == 0 {
        ctx.sample(|| txt("..."));
    }
    Ok(())
}

/// Digest of an outcome that does not depend on the host (bit-field views left out on request).
fn digest(o: &Out<Obs>, skip_bits: bool) -> u64 {
    match o {
        Out::Ok(x) => {
            let mut rec = x.rec.clone();
            if skip_bits {
                for (k, v) in rec.f.iter_mut() {
                    match (*k, v) {
                        ("lbr", Val::L(rows)) => rows.iter_mut().for_each(|row| row.truncate(2)),
                        ("data_src", Val::L(rows)) => rows.clear(),
                        _ => (),
                    }
                }
            }
            let mut h = hash2(hash2(1, rec.hash()), hstr(x.method));
            if let Some((t, m)) = x.meta {
                h = hash2(h, (t as u64) << 16 | m as u64);
            }
            if let Some(s) = &x.sid {
                h = hash2(h, s.hash());
            }
            h
        }
        Out::Err(_) => 2,
        Out::Panic(_) => 3,
    }
}

pub fn c20(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 20, n);
    let (mut h, mut inp) = (0, 0);
    if n % 16 == 15 {
        // primitives with lengths that do not fit a 32-bit word are covered by the counts;
        // here: attr structures with huge sizes
        let size = r.pick(&[64, 96, 112, 136, 144, 0x1000]);
        let a = AttrVals::gen(&mut r, size);
        for e in [End::Little, End::Big] {
            let v = encode(&a.program(), e.be());
            inp = hash2(inp, fnv(&v));
            let o = parse_attr_obs(&v[..], e);
            ctx.eval();
            let d = match &o {
                Out::Ok(x) => {
                    let mut x = x.clone();
                    // bit-field word: raw order of bits is host business
                    x.f.retain(|f| f.0 != "flags");
                    x.hash()
                }
                Out::Err(_) => 2,
                Out::Panic(m) => return viol(format!("attr panicked: {m}"), hex_short(&v)),
            };
            h = hash2(h, d);
        }
        ctx.digests.push((n, inp, h));
        ctx.sig(h);
        return Ok(());
    }
    let cfg = gen_cfg(&mut r);
    let ty = if n % 3 != 0 { T_SAMPLE } else { gen_type(&mut r) };
    let b = gen_record(&mut r, ty, &cfg, Lim { s: 24, n: 3 });
    let cfg = b.cfg;
    let mut variants: Vec<(Vec<u8>, Vec<u8>, &'static str)> = vec![];
    let (le, pos) = encode_pos(&b.program(), false);
    let (be, _) = encode_pos(&b.program(), true);
    variants.push((le.clone(), be.clone(), "valid"));
    for k in &pos {
        let bits = 8 * k.width as u32;
        let mut vals = vec![hostile_count(&mut r, k, le.len() - k.off)];
        if bits == 64 {
            // equal to the true count modulo 2^32, and products that wrap a 32-bit word
            let u = k.unit.max(1) as u64;
            vals.push((1 << 32) + k.val);
            vals.push(((1u64 << 32) / u.next_power_of_two()) + k.val);
            vals.push((r.u64() << 32) | k.val);
        } else if bits == 32 {
            vals.push(u32::MAX as u64 - r.below(16) as u64);
            vals.push(0x7fff_fff0 + r.below(32) as u64);
        }
        for v in vals {
            let (mut a, mut c) = (le.clone(), be.clone());
            set_count(&mut a, k, 0, v, false);
            set_count(&mut c, k, 0, v, true);
            // does everything behind it keep its alignment?
            let words = (v.wrapping_sub(k.val)).wrapping_mul(k.unit as u64) % 8 == 0;
            variants.push((a, c, if words { "count_words" } else { "count" }));
        }
    }
    // dyn_size of the user stack beyond 2^32
    for i in 2..b.body.len() {
        if let (W::N(8, sz, 1), W::Bytes(_), W::U64(d)) = (&b.body[i - 2], &b.body[i - 1], &b.body[i]) {
            if *sz > 0 {
                let mut b2 = b.clone();
                b2.body[i] = W::U64((1 << 32) + (*d).min(*sz));
                variants.push((b2.bytes(false), b2.bytes(true), "dyn_size"));
            }
        }
    }
    // keep the valid one and a few of the others
    while variants.len() > 7 {
        let i = 1 + r.below(variants.len() - 1);
        variants.swap_remove(i);
    }
    let entry = r.pick(&ENTRIES);
    for (le, be, how) in &variants {
        inp = hash2(inp, hash2(fnv(le), fnv(be)));
        let mut fixed = [0; 2];
        for e in [End::Little, End::Big, End::Native] {
            // Native means different bytes on different hosts
            let v = if e.be() { be } else { le };
            // few chunks: the interpreter pays for every request
            let few = match r.below(3) {
                0 => vec![v.len()],
                1 => vec![8 + r.below(v.len() - 7), v.len()],
                _ => vec![1 + r.below(v.len()), 1 + r.below(v.len()), 1 + r.below(v.len()), v.len()],
            };
            let mut few: Vec<usize> = few;
            few.sort_unstable();
            few.dedup();
            let cuts = Rc::new(few);
            let (mask, hint, split) = (gen_mask(&mut r), r.bool(), r.one_in(3));
            // Which order is the host's depends on the host, and so does the alignment of a
            // word: borrowed words only where the known finding plays no part (an edited count makes
            // other bytes a length, which can then be anything).
            let whole = AlignedBuf::new(v, 0);
            let shifted = how.starts_with("count");
            let o = if split || shifted {
                parse_buf_obs(MonBuf::new(v, cuts, if shifted || e.host() { u64::MAX } else { mask }, hint), &cfg, e, entry)
            } else {
                parse_slice_obs(whole.get(), &cfg, e, entry)
            };
            ctx.eval();
            if let Out::Panic(m) = &o {
                return viol(format!("panic ({how}): {m}"), case_text(&b, v, e));
            }
            let g = digest(&o, true);
            if let End::Native = e {
                // the host's own order is one of the two fixed ones; which one is its business
                if g != fixed[HOST_BE as usize] {
                    return viol(format!("the host order is decoded differently from the same fixed order ({how})"), case_text(&b, v, e));
                }
                continue;
            }
            fixed[e.be() as usize] = g;
            h = hash2(h, g);
            ctx.n(&format!("{how}:{}", o.tag()));
            ctx.sig(hash2(b.shape(), hash2(hstr(how), hstr(o.tag()))));
        }
    }
    ctx.digests.push((n, inp, h));
    if n % 29 == 0 {
        ctx.sample(|| format!("digest={h:016x} variants={} {}", variants.len(), case_text(&b, &le, End::Little)));
    }
    Ok(())
}

pub fn c22(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 22, n);
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynLittle, End::DynBig, End::UserLittle, End::UserBig]);
    let be = end.be();
    let cfg = gen_cfg(&mut r);
    let ty = if r.one_in(3) { T_SAMPLE } else { gen_type(&mut r) };
    let lim = pick_lim(&mut r);
    let b = gen_record(&mut r, ty, &cfg, lim);
    let cfg = b.cfg;
    let mut v = damage(&mut r, &b, be);
    let mut complete = true;
    if r.one_in(8) {
        let k = r.below(v.len());
        v.truncate(k);
        complete = false;
    } else {
        let k = r.below(16);
        v.extend(r.bytes(k));
    }
    let d = gen_delivery(&mut r, v.len());
    let txt = |e: Entry| format!("entry={e:?} {} order={end:?} delivery={} bytes={}", cfg.text(), d.text(), hex_short(&v));
    let mut outs: Vec<(Out<Obs>, Option<usize>, Option<Vec<u8>>)> = vec![];
    for e in ENTRIES {
        let o = match &d {
            Delivery::Mon { cuts, mask, hint, .. } => {
                let mb = MonBuf::new(&v, cuts.clone(), *mask, *hint);
                let st = mb.stats.clone();
                let o = parse_buf_obs(mb, &cfg, end, e);
                (o, Some(st.consumed.get()), None)
            }
            d => with_delivery!(d, &v, |x| with_end!(end, cfg.attr(), |c| {
                let mut p = Parser::new(x, c);
                let o = guarded(|| enter(&mut p, e));
                let rest = match guarded(|| p.parse_rest().map(|c| c.to_vec())) {
                    Out::Ok(v) => Some(v),
                    _ => None,
                };
                (o, None, rest)
            })),
        };
        ctx.eval();
        outs.push(o);
    }
    for (i, o) in outs.iter().enumerate().skip(1) {
        if let Some(x) = out_diff(&outs[0].0, &o.0) {
            return viol(format!("{:?} and {:?} disagree: {x}", ENTRIES[0], ENTRIES[i]), format!("{} visit={} other={}", txt(ENTRIES[i]), out_text(&outs[0].0), out_text(&o.0)));
        }
        if complete && (o.1 != outs[0].1 || o.2 != outs[0].2) {
            return viol(format!("{:?} and {:?} leave the stream at different places", ENTRIES[0], ENTRIES[i]), txt(ENTRIES[i]));
        }
    }
    // the two metadata entry points report header type, misc and sample id like the visitor
    if let (Out::Ok(a), Out::Ok(m), Out::Ok(h)) = (&outs[0].0, &outs[4].0, &outs[5].0) {
        for x in [m, h] {
            if x.meta != a.meta || x.sid != a.sid {
                return viol("metadata differs between entry points", txt(Entry::Meta));
            }
        }
        // the enum remembers the type of records it does not know
        if kind_name(a.meta.unwrap().0) == "unknown" {
            let ty = with_end!(end, cfg.attr(), |c| guarded(|| {
                let rec: Record = Parser::new(&v[..], c).parse()?;
                Ok(match rec {
                    Record::Unknown { ty, .. } => Some(ty),
                    _ => None,
                })
            }));
            ctx.eval();
            match ty {
                Out::Ok(t) if t == a.meta.map(|m| m.0) => ctx.n("unknown_type_kept"),
                o => return viol(format!("record enum holds type {o:?} for an unknown record"), txt(Entry::Enum)),
            }
        }
    }
    ctx.n(&format!("{}:{}", kind_name(ty), outs[0].0.tag()));
    ctx.sig(hash2(hash2(b.shape(), v.len() as u64), hstr(outs[0].0.tag())));
    if n % 41 == 0 {
        ctx.sample(|| txt(Entry::Visit));
    }
    Ok(())
}

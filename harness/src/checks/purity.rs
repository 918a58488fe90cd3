//! C23: parsing is a function of bytes, configuration and byte order.

use crate::bufs::*;
use crate::gens::*;
use crate::model::*;
use crate::obs::*;
use crate::run::*;
use crate::util::*;
use crate::with_end;
use perf_event_data::endian::Endian;
use perf_event_data::parse::*;
use perf_event_data::{Record, RecordMetadata};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Barrier;

/// Is `T` Send / Sync?  Decided without making the answer a condition for compiling.
struct Probe<T>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Probe<T> {}
mod yes_send {
    pub struct P<T>(pub std::marker::PhantomData<T>);
    impl<T: Send> P<T> {
        pub const SEND: bool = true;
    }
    impl<T> super::No for P<T> {}
}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
macro_rules! probe {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), <yes_send::P<$t>>::SEND, <Probe<$t>>::SYNC)),*] };
}

fn markers() -> Vec<(&'static str, bool, bool)> {
    use perf_event_data::endian::*;
    use perf_event_data::*;
    probe![
        Record<'static>,
        RecordMetadata,
        Sample<'static>,
        SampleId,
        Mmap<'static>,
        Mmap2<'static>,
        Comm<'static>,
        Exit,
        Throttle,
        Lost,
        LostSamples,
        Read,
        ReadGroup<'static>,
        ReadValue,
        Namespaces<'static>,
        KSymbol<'static>,
        BpfEvent,
        CGroup<'static>,
        TextPoke<'static>,
        Aux,
        ITraceStart,
        SwitchCpuWide,
        AuxOutputHwId,
        ParseConfig<Native>,
        ParseConfig<Dynamic>,
        ParseError,
        Parser<&'static [u8], Native>,
        Parser<&'static [u8], Dynamic>,
    ]
}

/// Lets values cross threads whatever the compiler thinks of them; `markers` judges that part.
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}

#[derive(Clone, Debug)]
enum Via {
    Slice,
    Chunks { cuts: Vec<usize>, mask: u64, hint: bool },
    Reader { cap: usize, sizes: Vec<usize> },
}

struct Job {
    cfg: Cfg,
    end: End,
    entry: Entry,
    via: Via,
    /// one or more records in a row
    data: AlignedBuf,
    records: usize,
    ty: u32,
}

impl Job {
    fn text(&self) -> String {
        format!("{} order={:?} entry={:?} via={:?} records={} bytes={}", self.cfg.text(), self.end, self.entry, self.via, self.records, hex_short(self.data.get()))
    }
    fn sig(&self) -> u64 {
        hash2(self.ty as u64 | (self.records as u64) << 32, fnv(self.data.get()))
    }
}

/// A close relative: the same bytes or the same configuration but for one setting.
fn relative(r: &mut Rng, of: &Job) -> Job {
    let mut j = Job { cfg: of.cfg, end: of.end, entry: r.pick(&ENTRIES), via: of.via.clone(), data: AlignedBuf::new(of.data.get(), of.data.off()), records: of.records, ty: of.ty };
    match r.below(9) {
        0 => j.cfg.sia = !j.cfg.sia,
        7 => j.cfg.bc = !j.cfg.bc,
        1 => j.cfg.hw = !j.cfg.hw,
        2 => j.cfg.rf ^= 1 << r.below(5),
        3 => j.cfg.st ^= 1 << r.below(25),
        4 => j.cfg.ru ^= 1 << r.below(64),
        5 => j.cfg.ri ^= 1 << r.below(64),
        6 => j.end = r.pick(&[End::Native, End::Little, End::Big, End::DynLittle, End::DynBig]),
        _ => {
            // another value in the same place
            let mut b = of.data.get().to_vec();
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] = b[i].wrapping_add(1 + r.below(255) as u8);
            }
            j.data = AlignedBuf::new(&b, of.data.off());
        }
    }
    j
}

fn gen_job(r: &mut Rng, prev: &[Job]) -> Job {
    if !prev.is_empty() && r.bool() {
        let i = r.below(prev.len());
        return relative(r, &prev[i]);
    }
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynLittle, End::DynBig, End::UserLittle, End::UserBig]);
    let cfg = match prev.last() {
        // the same configuration for another record
        Some(j) if r.one_in(3) => j.cfg,
        _ if r.one_in(6) => gen_wild_cfg(r),
        _ => gen_cfg(r),
    };
    let mut ty = 0;
    let mut records = 1;
    let bytes = match r.below(6) {
        0 => gen_hostile(r, &cfg, end.be()),
        1 => {
            let s = super::delivery::gen_stream(r, &cfg, end.be(), 3);
            records = s.frames.len();
            s.bytes
        }
        k => {
            ty = if k < 4 { T_SAMPLE } else { gen_type(r) };
            let lim = if crate::util::small() { Lim { s: 24, n: 3 } } else { Lim { s: 80, n: 8 } };
            gen_record(r, ty, &cfg, lim).bytes(end.be())
        }
    };
    let via = match r.below(4) {
        0 | 1 => Via::Slice,
        2 => Via::Chunks { cuts: gen_cuts(r, bytes.len()), mask: gen_mask(r), hint: r.bool() },
        _ => Via::Reader { cap: 1 + r.below(64), sizes: vec![1 + r.below(30), 1 + r.below(30)] },
    };
    let skew = if r.bool() { 0 } else { r.below(8) };
    Job { cfg, end, entry: r.pick(&ENTRIES), via, data: AlignedBuf::new(&bytes, skew), records, ty }
}

/// Everything a caller can see of one job: values, errors and their texts.
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Ok(Obs, String),
    Err(String),
    Panic,
}

fn look<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, entry: Entry) -> Seen {
    let r = crate::crash::guard(|| match entry {
        Entry::Enum => p.parse::<Record>().map(|r| (enum_obs(&r), format!("{r:?}"))),
        Entry::Visit => p.parse_record(KeepVisitor).map(|(r, m): (Record, RecordMetadata)| (enum_obs(&r), format!("{m:?} {r:?}"))),
        e => enter(p, e).map(|o| (o, String::new())),
    });
    match r {
        Ok(Ok((o, t))) => Seen::Ok(o, t),
        Ok(Err(e)) => Seen::Err(format!("{:?} {e} {:?}", e.kind(), std::error::Error::source(&e).map(|s| s.to_string()))),
        Err(_) => Seen::Panic,
    }
}

fn drive<'p, B: ParseBuf<'p>>(j: &Job, buf: B) -> Vec<Seen> {
    with_end!(j.end, j.cfg.attr(), |c| {
        let mut p = Parser::new(buf, c);
        (0..j.records).map(|_| look(&mut p, j.entry)).collect()
    })
}

fn run_job(j: &Job) -> Vec<Seen> {
    match &j.via {
        Via::Slice => drive(j, j.data.get()),
        Via::Chunks { cuts, mask, hint } => drive(j, MonBuf::new(j.data.get(), Rc::new(cuts.clone()), *mask, *hint)),
        Via::Reader { cap, sizes } => drive(j, std::io::BufReader::with_capacity(*cap, ShortReader::new(j.data.get(), sizes.clone()))),
    }
}

/// A source that parses something else every time it is asked for data.
struct Nested<'j, B> {
    inner: B,
    jobs: &'j [Job],
    next: usize,
    left: u32,
    seen: &'j std::cell::RefCell<Vec<(usize, Vec<Seen>)>>,
}
unsafe impl<'p, B: ParseBuf<'p>> ParseBuf<'p> for Nested<'_, B> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        if self.left > 0 {
            self.left -= 1;
            let i = self.next % self.jobs.len();
            self.next += 1;
            let s = run_job(&self.jobs[i]);
            self.seen.borrow_mut().push((i, s));
        }
        self.inner.chunk()
    }
    fn advance(&mut self, n: usize) {
        self.inner.advance(n)
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.inner.remaining_hint()
    }
}

fn diff(a: &[Seen], b: &[Seen]) -> Option<String> {
    if a == b {
        return None;
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            let short = |s: &Seen| format!("{s:?}").chars().take(600).collect::<String>();
            return Some(format!("record {i}: first {} then {}", short(x), short(y)));
        }
    }
    Some(format!("{} results, then {}", a.len(), b.len()))
}

/// Metadata first, then the body: `a` and `b` step by step between each other.
fn interleave(a: &Job, b: &Job, back: bool) -> Option<String> {
    use perf_event_data::endian::Dynamic;
    fn mk(j: &Job) -> Parser<&[u8], Dynamic> {
        let c: ParseConfig<perf_event_data::endian::Native> = ParseConfig::from(j.cfg.attr());
        Parser::new(j.data.get(), c.with_endian(if j.end.be() { Dynamic::Big } else { Dynamic::Little }))
    }
    type Step = Result<Result<(Rec, String), String>, String>;
    let err = |e: ParseError| format!("{:?} {e}", e.kind());
    macro_rules! open { ($p:expr) => { crate::crash::guard(|| $p.parse_metadata()) } }
    macro_rules! body {
        ($o:expr) => {
            match $o {
                Ok(Ok((mut p, m))) => crate::crash::guard(|| parse_body(m.ty(), &mut p).map(|r| (r, format!("{m:?}"))).map_err(err)),
                Ok(Err(e)) => Ok(Err(err(e))),
                Err(p) => Err(p),
            }
        };
    }
    let alone = |j: &Job| -> Step {
        let mut p = mk(j);
        body!(open!(p))
    };
    let want = (alone(a), alone(b));
    let (mut pa, mut pb) = (mk(a), mk(b));
    let oa = open!(pa);
    let ob = open!(pb);
    let got: (Step, Step) = if back {
        let y = body!(ob);
        (body!(oa), y)
    } else {
        let x = body!(oa);
        (x, body!(ob))
    };
    let show = |s: &Step| format!("{s:?}").chars().take(600).collect::<String>();
    if want.0 != got.0 {
        return Some(format!("a parse gave another result next to an open parser: {} then {}", show(&want.0), show(&got.0)));
    }
    if want.1 != got.1 {
        return Some(format!("a parse gave another result next to an open parser: {} then {}", show(&want.1), show(&got.1)));
    }
    None
}

pub fn c23(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 23, n);
    if n % 4096 == 0 {
        for (t, send, sync) in markers() {
            ctx.eval();
            if !send || !sync {
                return viol(format!("{t} cannot be {} between threads", if send { "shared" } else { "moved" }), "compile-time markers");
            }
        }
        ctx.n("types_send_and_sync");
    }
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..2 + r.below(4) {
        let j = gen_job(&mut r, &jobs);
        jobs.push(j);
    }
    let all = |i: usize| {
        let mut s = format!("job {i}: {}", jobs[i].text());
        for (k, j) in jobs.iter().enumerate() {
            s.push_str(&format!("\n  job {k}: {}", j.text()));
        }
        s
    };
    let first: Vec<Vec<Seen>> = jobs.iter().map(run_job).collect();
    let mut sig = 0;
    for j in &jobs {
        sig = hash2(sig, j.sig());
    }

    // other histories in the same thread
    for _ in 0..r.below(2 * jobs.len()) + 1 {
        let i = r.below(jobs.len());
        ctx.eval();
        if let Some(d) = diff(&first[i], &run_job(&jobs[i])) {
            return viol(format!("the same parse gave another result later: {d}"), all(i));
        }
    }
    ctx.n("histories");

    // two parsers alive at once: both records opened, then their bodies read in either order
    if r.one_in(2) {
        let (i, k) = (r.below(jobs.len()), r.below(jobs.len()));
        let back = r.bool();
        ctx.eval();
        if let Some(d) = interleave(&jobs[i], &jobs[k], back) {
            return viol(d, all(i));
        }
        ctx.n("interleaved");
    }

    // other bytes at the same addresses
    if r.one_in(3) {
        let room = jobs.iter().map(|j| j.data.get().len()).max().unwrap_or(0);
        let off = jobs[0].data.off();
        let mut buf = AlignedBuf::new(&vec![0; room], off);
        for _ in 0..3 {
            let i = r.below(jobs.len());
            let j = &jobs[i];
            let bytes = j.data.get();
            let own = AlignedBuf::new(bytes, off);
            let want = drive(j, own.get());
            buf.fill(bytes);
            let got = drive(j, &buf.get()[..bytes.len()]);
            ctx.eval();
            if let Some(d) = diff(&want, &got) {
                return viol(format!("the result depends on what the buffer held before: {d}"), all(i));
            }
        }
        ctx.n("buffers_reused");
    }

    // parses nested inside the data source of another parse
    if r.one_in(3) {
        let i = r.below(jobs.len());
        let seen = std::cell::RefCell::new(vec![]);
        let left = if crate::util::small() { 3 } else { 12 };
        macro_rules! nest { ($b:expr) => { drive(&jobs[i], Nested { inner: $b, jobs: &jobs, next: r.below(7), left, seen: &seen }) } }
        let outer = match &jobs[i].via {
            Via::Slice => nest!(jobs[i].data.get()),
            Via::Chunks { cuts, mask, hint } => nest!(MonBuf::new(jobs[i].data.get(), Rc::new(cuts.clone()), *mask, *hint)),
            Via::Reader { cap, sizes } => nest!(std::io::BufReader::with_capacity(*cap, ShortReader::new(jobs[i].data.get(), sizes.clone()))),
        };
        ctx.eval();
        ctx.n("nested");
        if let Some(d) = diff(&first[i], &outer) {
            return viol(format!("a parse gave another result while its source was parsing: {d}"), all(i));
        }
        for (k, s) in seen.into_inner() {
            ctx.eval();
            if let Some(d) = diff(&first[k], &s) {
                return viol(format!("a parse inside a data source gave another result: {d}"), all(k));
            }
        }
    }

    // several threads at once on the same inputs
    let slot = crate::crash::slot();
    if r.one_in(if crate::util::small() { 2 } else { 4 }) {
        let t = 2 + r.below(if crate::util::small() { 2 } else { 4 });
        let plans: Vec<Vec<usize>> = (0..t).map(|_| (0..1 + r.below(4)).map(|_| r.below(jobs.len())).collect()).collect();
        let gate = Barrier::new(t);
        let shared = Any(&jobs);
        let bad: Vec<Option<(usize, String)>> = std::thread::scope(|s| {
            let hs: Vec<_> = plans
                .iter()
                .enumerate()
                .map(|(k, plan)| {
                    let (gate, shared, first) = (&gate, &shared, &first);
                    s.spawn(move || {
                        crate::crash::set_slot(8 + (slot * 6 + k) % 56);
                        crate::crash::set_case(n);
                        let jobs = shared;
                        gate.wait();
                        for &i in plan {
                            if let Some(d) = diff(&first[i], &run_job(&jobs.0[i])) {
                                return Some((i, d));
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        ctx.add("threads", t as u64);
        for (p, b) in plans.iter().zip(bad) {
            for &i in p {
                ctx.eval();
                sig = hash2(sig, i as u64);
            }
            if let Some((i, d)) = b {
                return viol(format!("a parse in another thread gave another result: {d}"), all(i));
            }
        }
        ctx.n("thread_rounds");
    }

    // one record and one configuration shared by, then moved to, other threads
    if r.one_in(if crate::util::small() { 2 } else { 6 }) {
        let i = r.below(jobs.len());
        let j = &jobs[i];
        let bad: Option<String> = with_end!(j.end, j.cfg.attr(), |c| share(j, c, slot, n, ctx));
        if let Some(d) = bad {
            return viol(d, all(i));
        }
    }
    ctx.sig(sig);
    ctx.sample(|| all(0));
    Ok(())
}

fn share<E: Endian>(j: &Job, c: ParseConfig<E>, slot: usize, n: u64, ctx: &mut Ctx) -> Option<String> {
    type Got<'a> = ParseResult<(Record<'a>, RecordMetadata)>;
    fn see(g: &Got) -> Result<(Obs, String), String> {
        match g {
            Ok((r, m)) => Ok((enum_obs(r), format!("{m:?} {r:?}"))),
            Err(e) => Err(format!("{:?} {e}", e.kind())),
        }
    }
    let data = j.data.get();
    let c = Any(c);
    let text = |c: &ParseConfig<E>| format!("{:?} {:?} {} {}", c.sample_type(), c.read_format(), c.regs_user(), c.regs_intr());
    let ctext = text(&c.0);
    let Ok(mut got) = crate::crash::guard(|| Parser::new(data, c.0.clone()).parse_record(KeepVisitor)) else { return None };
    // a panic while reading is for other properties to judge
    let Ok(want) = crate::crash::guard(|| see(&got)) else { return None };
    let shared = Any(&mut got);
    let gate = Barrier::new(2);
    let mut bad = None;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..2)
            .map(|k| {
                let (gate, shared, want, c, ctext, text) = (&gate, &shared, &want, &c, &ctext, Any(&text));
                s.spawn(move || {
                    crate::crash::set_slot(8 + (slot * 6 + k) % 56);
                    crate::crash::set_case(n);
                    let (shared, c, text) = (shared, c, &text);
                    gate.wait();
                    crate::crash::guard(|| {
                        if see(&*shared.0) != *want {
                            return Some("a shared record reads differently in another thread");
                        }
                        if let Ok((r, m)) = &*shared.0 {
                            let copy: Got = Ok((r.clone(), m.clone()));
                            if see(&copy) != *want {
                                return Some("a clone made in another thread reads differently");
                            }
                        }
                        let again: Got = Parser::new(data, c.0.clone()).parse_record(KeepVisitor);
                        if see(&again) != *want {
                            return Some("a parse with a shared configuration gave another result in another thread");
                        }
                        if (text.0)(&c.0) != *ctext {
                            return Some("a shared configuration reads differently in another thread");
                        }
                        None
                    })
                    .unwrap_or(Some("panic on a shared record"))
                })
            })
            .collect();
        for h in hs {
            bad = bad.or(h.join().unwrap());
        }
    });
    ctx.eval();
    if bad.is_none() {
        // moved: read and dropped elsewhere
        let moved = Any(got);
        let want = &want;
        let ok = std::thread::scope(|s| {
            s.spawn(move || {
                crate::crash::set_slot(8 + slot * 6 % 56);
                crate::crash::set_case(n);
                let m = moved;
                crate::crash::guard(|| {
                    let same = see(&m.0) == *want;
                    drop(m);
                    same
                })
                .unwrap_or(false)
            })
            .join()
            .unwrap()
        });
        ctx.eval();
        if !ok {
            bad = Some("a record moved to another thread reads differently");
        }
        ctx.n("records_shared_and_moved");
    }
    bad.map(|b| b.to_string())
}

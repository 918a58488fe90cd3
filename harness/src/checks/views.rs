use super::decode::case_text;
use super::robust::owned_rec;
use crate::bufs::*;
use crate::gens::*;
use crate::model::*;
use crate::obs::*;
use crate::run::*;
use crate::util::*;
use crate::{with_delivery, with_end};
use perf_event_data::endian::{Dynamic, Native};
use perf_event_data::parse::*;
use perf_event_data::*;
use std::borrow::Cow;
use std::collections::VecDeque;
use std::rc::Rc;

// ---------------------------------------------------------------- C14

/// A record still borrowing from the input, with the value it must keep.
type Live<'p> = (Record<'p>, Rec);

fn check(rec: &Record, want: &Rec, what: &str) -> Result<(), String> {
    match r_record(rec).diff(want) {
        Some(d) => Err(format!("after {what}: {d}")),
        None => Ok(()),
    }
}

fn sid_of(want: &Rec) -> Rec {
    let g = |k: &str| match want.get(k) {
        Some(Val::U(v)) => Some(*v),
        _ => None,
    };
    sid_rec(g("pid"), g("tid"), g("time"), g("id"), g("stream_id"), g("cpu"))
}

fn plain_of(want: &Rec) -> Rec {
    let mut r = Rec::new("mmap");
    for k in ["pid", "tid", "addr", "len", "pgoff", "filename"] {
        r.f.extend(want.f.iter().find(|(n, _)| *n == k).cloned());
    }
    r
}

/// Overwrite the variable parts a caller can reach, as a user may.
fn mutate(rec: &mut Record) -> bool {
    fn ch(c: &mut Cow<[u8]>) {
        for b in c.to_mut() {
            *b ^= 0x5A;
        }
    }
    match rec {
        Record::Mmap(m) => ch(&mut m.filename),
        Record::Mmap2(m) => ch(&mut m.filename),
        Record::Comm(m) => ch(&mut m.comm),
        Record::KSymbol(m) => ch(&mut m.name),
        Record::CGroup(m) => ch(&mut m.path),
        Record::TextPoke(m) => {
            ch(&mut m.old_bytes);
            ch(&mut m.new_bytes)
        }
        Record::Unknown { data, .. } => ch(data),
        Record::Namespaces(m) => m.namespaces.to_mut().iter_mut().for_each(|e| e.dev ^= 1),
        _ => return false,
    }
    true
}

/// Random history of clones, conversions, mutations and drops.  `keep` receives owned results.
fn history<'p>(first: Record<'p>, want: &Rec, r: &mut Rng, keep: &mut Vec<(Record<'static>, Rec)>, trace: &mut u64, ops: &mut u64) -> Result<(), String> {
    let mut pool: Vec<Live<'p>> = vec![(first, want.clone())];
    check(&pool[0].0, want, "parse")?;
    let steps = 3 + r.below(12);
    for _ in 0..steps {
        if pool.is_empty() {
            break;
        }
        let i = r.below(pool.len());
        let op = r.below(11);
        *trace = hash2(*trace, op as u64 * 16 + i as u64);
        *ops += 1;
        match op {
            0..=2 => {
                let c = pool[i].0.clone();
                check(&c, &pool[i].1, "clone")?;
                let w = pool[i].1.clone();
                pool.push((c, w));
            }
            3 => {
                // clone then drop the original first
                let c = pool[i].0.clone();
                let (old, w) = pool.swap_remove(i);
                drop(old);
                check(&c, &w, "clone, original dropped")?;
                pool.push((c, w));
            }
            4 => {
                // overwrite through clone_from
                let src = pool[i].0.clone();
                let j = r.below(pool.len());
                pool[j].0.clone_from(&src);
                pool[j].1 = pool[i].1.clone();
                check(&pool[j].0, &pool[j].1.clone(), "clone_from")?;
            }
            5 => {
                let c = pool[i].0.clone();
                if let Some(o) = owned_rec(c) {
                    check(&o, &pool[i].1, "conversion to owned")?;
                    keep.push((o, pool[i].1.clone()));
                }
            }
            6 => {
                let (c, w) = pool.swap_remove(i);
                if let Record::Mmap2(m) = c {
                    let a = m.to_mmap();
                    if let Some(d) = r_mmap(&a).diff(&plain_of(&w)) {
                        return Err(format!("after to_mmap: {d}"));
                    }
                    let a2 = a.clone();
                    drop(a);
                    let b = if r.bool() { m.into_mmap() } else { Mmap::from(m) };
                    if let Some(d) = r_mmap(&b).diff(&plain_of(&w)) {
                        return Err(format!("after into_mmap: {d}"));
                    }
                    if let Some(d) = r_mmap(&a2).diff(&plain_of(&w)) {
                        return Err(format!("plain mapping after its source was consumed: {d}"));
                    }
                    keep.push((Record::Mmap(b.into_owned()), plain_of(&w)));
                } else {
                    pool.push((c, w));
                }
            }
            7 => {
                if let Record::Sample(s) = &pool[i].0 {
                    let want = sid_of(&pool[i].1);
                    for (k, id) in [SampleId::from_sample(s), SampleId::from(&**s), SampleId::from((**s).clone())].into_iter().enumerate() {
                        let copy = id.clone();
                        for x in [&id, &copy] {
                            if let Some(d) = r_sid(x).diff(&want) {
                                return Err(format!("sample identity extracted from a sample (way {k}): {d}"));
                            }
                        }
                    }
                    if let Some(g) = s.values() {
                        let o = g.clone().into_owned();
                        let (a, b) = (group_rows(&o), group_rows(g));
                        if a != b || o.time_enabled() != g.time_enabled() || o.time_running() != g.time_running() {
                            return Err(format!("owned group differs: {a:x?} vs {b:x?}"));
                        }
                    }
                    if let Some(x) = s.regs_user() {
                        let y = x.clone();
                        if y.abi.0 != x.abi.0 || y.mask != x.mask || y.regs != x.regs {
                            return Err("cloned registers differ".into());
                        }
                    }
                }
            }
            8 => {
                // a clone must not share storage with its source
                let mut c = pool[i].0.clone();
                if mutate(&mut c) {
                    for (x, w) in &pool {
                        check(x, w, "writing to a clone")?;
                    }
                }
            }
            9 => {
                // Record::from(inner) keeps type and value
                let (c, w) = pool.swap_remove(i);
                let c: Record = match c {
                    Record::Mmap(m) => m.into(),
                    Record::Lost(m) => m.into(),
                    Record::Comm(m) => m.into(),
                    Record::Read(m) => m.into(),
                    Record::Sample(m) => (*m).into(),
                    Record::Mmap2(m) => m.into(),
                    Record::Aux(m) => m.into(),
                    Record::ITraceStart(m) => m.into(),
                    Record::LostSamples(m) => m.into(),
                    Record::SwitchCpuWide(m) => m.into(),
                    Record::Namespaces(m) => m.into(),
                    Record::KSymbol(m) => m.into(),
                    Record::BpfEvent(m) => m.into(),
                    Record::CGroup(m) => m.into(),
                    Record::TextPoke(m) => m.into(),
                    Record::AuxOutputHwId(m) => m.into(),
                    o => o,
                };
                check(&c, &w, "conversion into Record")?;
                pool.push((c, w));
            }
            _ => {
                let _ = pool.swap_remove(i);
                for (x, w) in &pool {
                    check(x, w, "dropping another copy")?;
                }
            }
        }
    }
    // consume one in place, drop the rest in random order
    if !pool.is_empty() && r.bool() {
        let i = r.below(pool.len());
        let (x, w) = pool.swap_remove(i);
        if let Some(o) = owned_rec(x) {
            check(&o, &w, "consuming conversion to owned")?;
            keep.push((o, w));
        }
    }
    while !pool.is_empty() {
        let i = r.below(pool.len());
        drop(pool.swap_remove(i));
        for (x, w) in &pool {
            check(x, w, "dropping another copy")?;
        }
    }
    Ok(())
}

/// Histories over the input types whose storage is reused afterwards.
pub fn c14(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    crate::run::leak_repeats(c14_once, n, ctx)
}

fn c14_once(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 14, n);
    let k = n % 30;
    let ty = match k {
        0..=20 => KNOWN[k as usize],
        21 => gen_unknown_type(&mut r),
        22..=24 => T_SAMPLE,
        25 | 26 => T_MMAP2,
        _ => r.pick(&[T_TEXT_POKE, T_NAMESPACES, T_COMM, T_CGROUP, T_KSYMBOL, T_MMAP]),
    };
    let cfg = gen_cfg(&mut r);
    let b = gen_record(&mut r, ty, &cfg, if cfg!(miri) { Lim { s: 24, n: 4 } } else { Lim { s: 80, n: 9 } });
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynBig]);
    let bytes = b.bytes(end.be());
    // a plain slice half of the time, else temporary and borrowed pieces
    let d = if r.bool() { Delivery::Slice { align: r.below(8) } } else { gen_delivery(&mut r, bytes.len()) }.calm(end);
    let (mut trace, mut ops) = (0u64, 0u64);
    let win = crate::alloc::start();
    let res = {
        let mut keep: Vec<(Record<'static>, Rec)> = vec![];
        let out = crate::crash::guard(|| -> Result<(), String> {
            match &d {
                Delivery::Slice { align } => {
                    let mut store = AlignedBuf::new(&bytes, *align);
                    with_end!(end, b.cfg.attr(), |c| {
                        let rec = Parser::new(store.get(), c).parse::<Record>().map_err(|e| format!("parse failed: {e:?}"))?;
                        history(rec, &b.rec, &mut r, &mut keep, &mut trace, &mut ops)?;
                    });
                    store.scribble(0xDB);
                    for (x, w) in &keep {
                        check(x, w, "overwriting the input")?;
                    }
                    drop(store);
                }
                d => with_delivery!(d, &bytes, |buf| with_end!(end, b.cfg.attr(), |c| {
                    let rec = {
                        let mut p = Parser::new(buf, c);
                        p.parse::<Record>().map_err(|e| format!("parse failed: {e:?}"))?
                    };
                    history(rec, &b.rec, &mut r, &mut keep, &mut trace, &mut ops)?;
                })),
            }
            for (x, w) in &keep {
                check(x, w, "dropping the input")?;
            }
            // owned records survive further cloning and dropping
            while !keep.is_empty() {
                let i = r.below(keep.len());
                let (x, w) = keep.swap_remove(i);
                let y = x.clone();
                drop(x);
                check(&y, &w, "cloning an owned record and dropping the original")?;
                for (x, w) in &keep {
                    check(x, w, "dropping another owned record")?;
                }
            }
            Ok(())
        });
        drop(keep);
        match out {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(p) => Some(format!("panic: {p}")),
        }
    };
    if let Some(m) = res {
        return viol(format!("{}: {m}", kind_name(ty)), format!("delivery={} {}", d.text(), case_text(&b, &bytes, end)));
    }
    let st = win.stats();
    if st.live != 0 || st.blocks != 0 {
        return viol(
            format!("{}: {} bytes in {} blocks are still allocated after everything was dropped", kind_name(ty), st.live, st.blocks),
            format!("delivery={} {}", d.text(), case_text(&b, &bytes, end)),
        );
    }
    for _ in 0..ops.max(1) {
        ctx.eval();
    }
    ctx.add("history_steps", ops);
    ctx.n(kind_name(ty));
    ctx.n(d.name());
    ctx.add("allocations_balanced", st.count);
    if !ctx.sigs.contains(&0) || ops > 0 {
        ctx.sig(hash2(b.shape(), trace));
    }
    ctx.sample(|| format!("{} over {}: {} steps, {} allocations all released", kind_name(ty), d.name(), ops, st.count));
    if n % 8 == 3 {
        return parser_clone(n, ctx);
    }
    Ok(())
}

/// A cloned parser continues independently from the same position.
fn parser_clone(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 1014, n);
    let cfg = gen_cfg(&mut r);
    let mut bytes = vec![];
    let mut want = vec![];
    for _ in 0..4 {
        let ty = gen_type(&mut r);
        let b = gen_record(&mut r, ty, &Cfg { rf: cfg.rf & !F_GROUP, ..cfg }, Lim { s: 40, n: 4 });
        bytes.extend(b.bytes(!HOST_BE));
        want.push(b.rec);
    }
    let cfg = Cfg { rf: cfg.rf & !F_GROUP, ..cfg };
    let cut = r.below(4);
    let out = crate::crash::guard(|| -> Result<(), String> {
        {
            // not the host's order: nothing here depends on addresses
            let c = ParseConfig::<Native>::from(cfg.attr()).with_endian(if HOST_BE { Dynamic::Little } else { Dynamic::Big });
            let mut p = Parser::new(&bytes[..], c);
            let go = |p: &mut Parser<&[u8], Dynamic>, i: usize, who: &str| -> Result<(), String> {
                let o = enter(p, Entry::Visit).map_err(|e| format!("{who}: record {i} failed: {e:?}"))?;
                match o.rec.diff(&want[i]) {
                    Some(d) => Err(format!("{who}: record {i}: {d}")),
                    None => Ok(()),
                }
            };
            for i in 0..cut {
                go(&mut p, i, "original")?;
            }
            let mut q = p.clone();
            // interleave
            let (mut i, mut j) = (cut, cut);
            while i < 4 || j < 4 {
                if j >= 4 || (i < 4 && r.bool()) {
                    go(&mut p, i, "original")?;
                    i += 1;
                } else {
                    go(&mut q, j, "clone")?;
                    j += 1;
                }
            }
            Ok(())
        }
    });
    ctx.eval();
    ctx.n("parser_clones");
    match out {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => viol(format!("cloned parser: {m}"), format!("clone after record {cut} {} {}", cfg.text(), hex_short(&bytes))),
        Err(m) => viol(format!("cloned parser: panic {m}"), hex_short(&bytes)),
    }
}

// ---------------------------------------------------------------- C15

type Row = (u64, Option<u64>, Option<u64>);

fn row(e: &GroupEntry) -> Row {
    (e.value(), e.id(), e.lost())
}

fn iter_history(g: &ReadGroup, rows: &[Row], r: &mut Rng, trace: &mut u64, steps_done: &mut u64) -> Result<(), String> {
    let mut m: VecDeque<Row> = rows.iter().copied().collect();
    let mut it = g.entries();
    let steps = rows.len() + 3 + r.below(6);
    for s in 0..steps {
        *steps_done += 1;
        let len = m.len();
        if it.len() != len || it.size_hint() != (len, Some(len)) {
            return Err(format!("step {s}: len {} size_hint {:?}, {} entries are left", it.len(), it.size_hint(), len));
        }
        let k = match r.below(5) {
            0 => len,
            1 => len.wrapping_sub(1).min(1 << 20),
            2 => usize::MAX,
            _ => r.below(3),
        };
        let op = r.below(11);
        *trace = hash2(*trace, (op * 8 + k.min(7)) as u64);
        let (got, want, what) = match op {
            0..=2 => (it.next(), m.pop_front(), "next()".to_string()),
            3..=5 => (it.next_back(), m.pop_back(), "next_back()".to_string()),
            6 => {
                let g = it.nth(k);
                for _ in 0..k.min(m.len()) {
                    m.pop_front();
                }
                (g, m.pop_front(), format!("nth({k})"))
            }
            7 => {
                let g = it.nth_back(k);
                for _ in 0..k.min(m.len()) {
                    m.pop_back();
                }
                (g, m.pop_back(), format!("nth_back({k})"))
            }
            8 => {
                let c = it.clone().count();
                if c != len {
                    return Err(format!("step {s}: count() is {c}, {len} entries are left"));
                }
                (it.clone().last(), m.back().copied(), "last()".into())
            }
            9 => {
                let fwd: Vec<Row> = it.clone().map(|e| row(&e)).collect();
                let mut bwd: Vec<Row> = it.clone().rev().map(|e| row(&e)).collect();
                bwd.reverse();
                let want: Vec<Row> = m.iter().copied().collect();
                if fwd != want || bwd != want {
                    return Err(format!("step {s}: forward {fwd:x?} backward {bwd:x?} expected {want:x?}"));
                }
                continue;
            }
            _ => {
                let st = 1 + r.below(3);
                let skip = r.below(3);
                let a: Vec<Row> = it.clone().skip(skip).step_by(st).map(|e| row(&e)).collect();
                let b: Vec<Row> = m.iter().copied().skip(skip).step_by(st).collect();
                if a != b {
                    return Err(format!("step {s}: skip({skip}).step_by({st}) gives {a:x?} expected {b:x?}"));
                }
                continue;
            }
        };
        let got = got.map(|e| row(&e));
        if got != want {
            return Err(format!("step {s}: {what} returned {got:x?}, expected {want:x?} with {len} entries left"));
        }
    }
    Ok(())
}

fn views(g: &ReadGroup, en: Option<u64>, ru: Option<u64>, rows: &[Row], rf: u64, r: &mut Rng, trace: &mut u64, ops: &mut u64) -> Result<(), String> {
    let n = rows.len();
    if g.len() != n || g.is_empty() != (n == 0) {
        return Err(format!("len {} is_empty {} for {n} entries", g.len(), g.is_empty()));
    }
    if g.time_enabled() != en || g.time_running() != ru {
        return Err(format!("times {:x?} {:x?} expected {en:x?} {ru:x?}", g.time_enabled(), g.time_running()));
    }
    for (_, id, lost) in rows {
        assert_eq!(id.is_some(), rf & F_ID != 0);
        assert_eq!(lost.is_some(), rf & F_LOST != 0);
    }
    for i in (0..n + 3).chain([usize::MAX, usize::MAX / 3, (1u64 << 61) as usize]) {
        let got = g.get(i).map(|e| row(&e));
        if got != rows.get(i).copied() {
            return Err(format!("get({i}) is {got:x?}, expected {:x?}", rows.get(i)));
        }
    }
    let mut ids: Vec<u64> = rows.iter().filter_map(|x| x.1).collect();
    ids.extend([0, 1, 5, u64::MAX, r.u64()]);
    ids.extend(rows.iter().take(3).map(|x| x.0));
    ids.extend(rows.iter().take(3).filter_map(|x| x.2));
    for id in ids {
        let got = g.get_by_id(id).map(|e| row(&e));
        let want = rows.iter().find(|x| x.1 == Some(id)).copied();
        if got != want {
            return Err(format!("get_by_id({id:#x}) is {got:x?}, expected {want:x?}"));
        }
    }
    for _ in 0..2 {
        iter_history(g, rows, r, trace, ops)?;
    }
    for (i, x) in rows.iter().enumerate() {
        let e = g.get(i).unwrap();
        let v = ReadValue::from_group_and_entry(g, &e);
        let want = read_rec(x.0, en, ru, x.1, x.2);
        if let Some(d) = r_readvalue(&v).diff(&want) {
            return Err(format!("from_group_and_entry({i}): {d}"));
        }
        // and back to a group of one
        let one: ReadGroup = v.clone().into();
        single(&one, &want, x, en, ru)?;
    }
    match ReadValue::try_from(g.clone()) {
        Ok(v) => {
            if n != 1 {
                return Err(format!("a group of {n} entries converted to a single reading"));
            }
            if let Some(d) = r_readvalue(&v).diff(&read_rec(rows[0].0, en, ru, rows[0].1, rows[0].2)) {
                return Err(format!("single reading from group: {d}"));
            }
        }
        Err(e) => {
            if n == 1 {
                return Err("a one-entry group did not convert to a single reading".into());
            }
            let _ = e.to_string();
        }
    }
    Ok(())
}

fn single(one: &ReadGroup, want: &Rec, x: &Row, en: Option<u64>, ru: Option<u64>) -> Result<(), String> {
    let got: Vec<Row> = one.entries().map(|e| row(&e)).collect();
    if got != [*x] || one.time_enabled() != en || one.time_running() != ru || one.len() != 1 || one.is_empty() {
        return Err(format!("group made from a single reading holds {got:x?} times {:x?} {:x?}, expected {x:x?}", one.time_enabled(), one.time_running()));
    }
    if let Some(id) = x.1 {
        if one.get_by_id(id).map(|e| row(&e)) != Some(*x) {
            return Err("group made from a single reading does not find its id".into());
        }
    }
    let back = ReadValue::try_from(one.clone()).map_err(|_| "group made from a single reading does not convert back".to_string())?;
    match r_readvalue(&back).diff(want) {
        Some(d) => Err(format!("single reading to group and back: {d}")),
        None => Ok(()),
    }
}

pub fn c15(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 15, n);
    let rf = n % 32;
    let cfg = Cfg { st: S_READ | if r.bool() { gen_cfg(&mut r).st & !S_READ } else { 0 }, rf, ..gen_cfg(&mut r) };
    let end = r.pick(&[End::Native, End::Little, End::Big, End::DynBig]);
    let be = end.be();
    let (mut trace, mut ops) = (0u64, 0u64);
    let max = if cfg!(miri) {
        5
    } else if r.one_in(64) {
        r.pick(&[300, 600, 2600])
    } else {
        14
    };
    let want_n = match (n / 32) % 4 {
        0 => r.below(3),
        _ => r.below(max),
    };
    let (res, txt, shape) = if rf & F_GROUP != 0 {
        // regenerate until the group has the wanted number of entries: build it directly
        let (ws, en, ru, rows) = exact_group(&mut r, &cfg, want_n);
        let rows: Vec<Row> = rows.iter().map(|x| (x[0], (x[1] == 1).then_some(x[2]), (x[3] == 1).then_some(x[4]))).collect();
        let in_sample = r.bool();
        let mut bytes = encode(&ws, be);
        let c = if in_sample { Cfg { st: S_READ | S_IP, ..cfg } } else { cfg };
        if in_sample {
            let mut v = vec![];
            put(&mut v, 8, 7, be);
            v.extend(bytes);
            bytes = v;
        }
        let d = gen_delivery(&mut r, bytes.len()).calm(end);
        let out = with_delivery!(&d, &bytes, |buf| with_end!(end, c.attr(), |pc| crate::crash::guard(|| -> Result<(), String> {
            let mut p = Parser::new(buf, pc);
            if in_sample {
                let s: Sample = p.parse().map_err(|e| format!("sample did not parse: {e:?}"))?;
                let g = s.values().ok_or("sample has no values")?;
                views(g, en, ru, &rows, rf, &mut r, &mut trace, &mut ops)
            } else {
                let g: ReadGroup = p.parse().map_err(|e| format!("group did not parse: {e:?}"))?;
                let g = if r.bool() { g.into_owned() } else { g };
                views(&g, en, ru, &rows, rf, &mut r, &mut trace, &mut ops)
            }
        })));
        let shape = hash2(hash2(rf, rows.len() as u64), in_sample as u64);
        ctx.n(match rows.len() {
            0 => "group_empty",
            1 => "group_of_one",
            _ => "group_of_many",
        });
        (out, format!("delivery={} {} {}", d.text(), c.text(), hex_short(&bytes)), shape)
    } else {
        let (ws, want) = gen_read(&mut r, &cfg);
        let bytes = encode(&ws, be);
        let g = |k: &str| match want.get(k) {
            Some(Val::U(v)) => Some(*v),
            _ => None,
        };
        let x: Row = (g("value").unwrap(), g("id"), g("lost"));
        let (en, ru) = (g("time_enabled"), g("time_running"));
        let d = gen_delivery(&mut r, bytes.len()).calm(end);
        let as_sample = r.bool();
        let c = Cfg { st: if as_sample { S_READ } else { cfg.st }, ..cfg };
        let out = with_delivery!(&d, &bytes, |buf| with_end!(end, c.attr(), |pc| crate::crash::guard(|| -> Result<(), String> {
            let mut p = Parser::new(buf, pc);
            if as_sample {
                let s: Sample = p.parse().map_err(|e| format!("sample did not parse: {e:?}"))?;
                let gr = s.values().ok_or("sample has no values")?;
                single(gr, &want, &x, en, ru)?;
                return views(gr, en, ru, &[x], rf, &mut r, &mut trace, &mut ops);
            }
            let v: ReadValue = p.parse().map_err(|e| format!("reading did not parse: {e:?}"))?;
            if let Some(d) = r_readvalue(&v).diff(&want) {
                return Err(d);
            }
            let gr: ReadGroup = v.clone().into();
            single(&gr, &want, &x, en, ru)?;
            views(&gr, en, ru, &[x], rf, &mut r, &mut trace, &mut ops)
        })));
        ctx.n("single_reading");
        (out, format!("delivery={} {} {}", d.text(), c.text(), hex_short(&bytes)), hash2(rf, 77))
    };
    for _ in 0..ops.max(1) {
        ctx.eval();
    }
    ctx.add("iterator_steps", ops);
    ctx.sig(hash2(shape, trace));
    ctx.sample(|| format!("read_format={rf:#x}: {ops} iterator steps agreed with the model; {txt}"));
    match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => viol(m, txt),
        Err(m) => viol(format!("panic: {m}"), txt),
    }
}

fn exact_group(r: &mut Rng, c: &Cfg, n: usize) -> (Vec<W>, Option<u64>, Option<u64>, Vec<Vec<u64>>) {
    let mut w = vec![W::U64(n as u64)];
    let opt = |w: &mut Vec<W>, f: u64, r: &mut Rng| {
        (c.rf & f != 0).then(|| {
            let v = if f == F_ID && r.bool() { r.below(6) as u64 } else { r.v64() };
            w.push(W::U64(v));
            v
        })
    };
    let en = opt(&mut w, F_ENABLED, r);
    let ru = opt(&mut w, F_RUNNING, r);
    let mut rows = vec![];
    for _ in 0..n {
        let v = r.v64();
        w.push(W::U64(v));
        let id = opt(&mut w, F_ID, r);
        let lost = opt(&mut w, F_LOST, r);
        rows.push(entry_row(v, id, lost));
    }
    (w, en, ru, rows)
}

// ---------------------------------------------------------------- C21

struct Span {
    name: &'static str,
    lo: usize,
    len: usize,
    words: bool,
    cow_owned: bool,
}

fn spans(rec: &Record) -> Vec<Span> {
    let mut v = vec![];
    fn b(v: &mut Vec<Span>, name: &'static str, c: &[u8], owned: bool) {
        v.push(Span { name, lo: c.as_ptr() as usize, len: c.len(), words: false, cow_owned: owned });
    }
    fn w<T>(v: &mut Vec<Span>, name: &'static str, c: &[T], owned: bool) {
        v.push(Span { name, lo: c.as_ptr() as usize, len: std::mem::size_of_val(c), words: true, cow_owned: owned });
    }
    fn o<T: Clone>(c: &Cow<[T]>) -> bool {
        matches!(c, Cow::Owned(_))
    }
    match rec {
        Record::Mmap(m) => b(&mut v, "filename", &m.filename, o(&m.filename)),
        Record::Mmap2(m) => b(&mut v, "filename", &m.filename, o(&m.filename)),
        Record::Comm(m) => b(&mut v, "comm", &m.comm, o(&m.comm)),
        Record::KSymbol(m) => b(&mut v, "name", &m.name, o(&m.name)),
        Record::CGroup(m) => b(&mut v, "path", &m.path, o(&m.path)),
        Record::TextPoke(m) => {
            b(&mut v, "old_bytes", &m.old_bytes, o(&m.old_bytes));
            b(&mut v, "new_bytes", &m.new_bytes, o(&m.new_bytes));
        }
        Record::Unknown { data, .. } => b(&mut v, "data", data, o(data)),
        Record::Namespaces(m) => w(&mut v, "namespaces", &m.namespaces, o(&m.namespaces)),
        Record::Sample(s) => {
            for (n, x) in [("raw", s.raw()), ("stack_user", s.stack_user()), ("aux", s.aux())] {
                if let Some(x) = x {
                    b(&mut v, n, x, false);
                }
            }
            if let Some(x) = s.callchain() {
                w(&mut v, "callchain", x, false);
            }
            if let Some(x) = s.lbr() {
                w(&mut v, "lbr", x, false);
            }
            for (n, x) in [("regs_user", s.regs_user()), ("regs_intr", s.regs_intr())] {
                if let Some(x) = x {
                    w(&mut v, n, &x.regs, o(&x.regs));
                }
            }
        }
        _ => (),
    }
    v
}

pub fn c21(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 21, n);
    let ty = match n % 20 {
        0..=8 => T_SAMPLE,
        9 => T_MMAP,
        10 => T_MMAP2,
        11 => T_COMM,
        12 => T_KSYMBOL,
        13 => T_CGROUP,
        14 | 15 => T_TEXT_POKE,
        16 | 17 => T_NAMESPACES,
        _ => gen_unknown_type(&mut r),
    };
    let mut cfg = gen_cfg(&mut r);
    if ty == T_SAMPLE && r.bool() {
        cfg.st |= r.pick(&[S_CALLCHAIN, S_RAW, S_BRANCH, S_REGS_USER, S_STACK_USER, S_REGS_INTR, S_AUX]);
    }
    let lim = pick_lim(&mut r);
    let b = gen_record(&mut r, ty, &cfg, lim);
    let end = r.pick(&[End::Native, End::Native, End::Little, End::DynLittle, End::Big, End::DynBig]);
    let rec_bytes = b.bytes(end.be());
    // surroundings in the same allocation: the record need not start at the front
    let lead = 8 * r.below(3);
    // word arrays of host order: aligned ones only (see kf)
    let calm = end.host() && matches!(ty, T_SAMPLE | T_NAMESPACES);
    let align = if r.bool() || calm { 0 } else { r.below(8) };
    let mut bytes = r.bytes(lead);
    bytes.extend(&rec_bytes);
    let tail = r.below(32);
    bytes.extend(r.bytes(tail));
    let store = AlignedBuf::new(&bytes, align);
    let base = store.get().as_ptr() as usize + lead;
    let how = r.below(5);
    let entry = r.below(4);
    // cuts: whole input, or the record in a chunk of its own
    let data: &[u8] = &store.get()[lead..];
    let one = Rc::new(vec![data.len()]);
    let own: Rc<Vec<usize>> = Rc::new(if rec_bytes.len() < data.len() { vec![rec_bytes.len(), data.len()] } else { vec![data.len()] });
    fn run<'p, B: ParseBuf<'p>, E: perf_event_data::endian::Endian>(buf: B, c: ParseConfig<E>, entry: usize) -> ParseResult<Record<'p>> {
        // the parser (and with it the source) is gone before the record is looked at
        let mut p = Parser::new(buf, c);
        match entry {
            0 => p.parse_record(KeepVisitor).map(|x| x.0),
            1 => p.parse::<Record>(),
            2 => {
                let h = p.parse()?;
                Record::parse_with_header(&mut p, h)
            }
            _ => {
                let h = p.parse()?;
                p.parse_record_with_header(KeepVisitor, h).map(|x| x.0)
            }
        }
    }
    let out = with_end!(end, b.cfg.attr(), |c| guarded(|| match how {
        0 | 1 => run(data, c, entry),
        2 => run(MonBuf::new(data, one, 0, true), c, entry),
        3 => run(MonBuf::new(data, one, 0, false), c, entry),
        _ => run(MonBuf::new(data, own, 0, r.bool()), c, entry),
    }));
    let src = ["slice", "slice", "one chunk, size hint", "one chunk, no size hint", "record in its own chunk"][how];
    let txt = format!("source={src} address%8={align} entry={entry} {}", case_text(&b, &rec_bytes, end));
    let rec = match out {
        Out::Ok(x) => x,
        o => return viol(format!("{}: well-formed record {}", kind_name(ty), o.tag()), txt),
    };
    if let Some(d) = r_record(&rec).diff(&b.rec) {
        return viol(format!("{}: {d}", kind_name(ty)), txt);
    }
    let host = end.be() == HOST_BE;
    let mut seen = 0;
    for s in spans(&rec) {
        if s.len == 0 {
            continue;
        }
        let inside = s.lo >= base && s.lo + s.len <= base + rec_bytes.len();
        let must = !s.words || (host && align == 0);
        ctx.n(match (s.words, must, inside) {
            (false, _, _) => "byte_fields",
            (true, true, _) => "word_arrays_aligned_host_order",
            (true, false, true) => "word_arrays_borrowed_anyway",
            (true, false, false) => "word_arrays_copied_as_allowed",
        });
        ctx.eval();
        seen = hash2(seen, hstr(s.name) ^ s.len as u64);
        if must && (!inside || s.cow_owned) {
            return viol(format!("{}: {} ({} bytes) was copied although the record lies in one borrowed chunk", kind_name(ty), s.name, s.len), txt);
        }
    }
    if seen != 0 {
        ctx.sig(hash2(hash2(b.shape(), align as u64), hash2(how as u64 * 8 + entry as u64, end as u64)));
        ctx.sample(|| format!("{} from {src}: fields refer to the input; {txt}", kind_name(ty)));
    }
    drop(rec);
    if n % 4 == 0 {
        return primitive_spans(&mut r, ctx);
    }
    Ok(())
}

/// Byte runs and aligned host-order slices read with the primitives.
fn primitive_spans(r: &mut Rng, ctx: &mut Ctx) -> Result<(), Viol> {
    let n = 8 * (1 + r.below(20));
    let data = r.bytes(n);
    let store = AlignedBuf::new(&data, 0);
    let base = store.get().as_ptr() as usize;
    let host = if r.bool() { End::Native } else if HOST_BE { End::Big } else { End::Little };
    let buf = store.get();
    let slice_src = r.bool();
    let hint = r.bool();
    fn go<'p, B: ParseBuf<'p>, E: perf_event_data::endian::Endian>(buf: B, c: ParseConfig<E>, r: &mut Rng, n: usize, base: usize, evals: &mut u64) -> ParseResult<Option<String>> {
        let mut p = Parser::new(buf, c);
        let mut at = 0;
        while at < n {
            let left = n - at;
            let (lo, len, what): (usize, usize, &str) = match r.below(4) {
                0 => {
                    let k = 1 + r.below(left);
                    let b = p.parse_bytes(k)?;
                    if matches!(b, Cow::Owned(_)) {
                        return Ok(Some(format!("parse_bytes({k}) at {at} was copied")));
                    }
                    (b.as_ptr() as usize, b.len(), "parse_bytes")
                }
                1 if at % 8 == 0 && left >= 8 => {
                    let k = 1 + r.below(left / 8);
                    let b = unsafe { p.parse_slice::<u64>(k)? };
                    if matches!(b, Cow::Owned(_)) {
                        return Ok(Some(format!("parse_slice::<u64>({k}) at aligned {at} was copied")));
                    }
                    (b.as_ptr() as usize, b.len() * 8, "parse_slice")
                }
                2 if at % 4 == 0 && left >= 4 => {
                    let k = 1 + r.below(left / 4);
                    match unsafe { p.parse_slice_direct::<u32>(k)? } {
                        Some(b) => (b.as_ptr() as usize, b.len() * 4, "parse_slice_direct"),
                        None => return Ok(Some(format!("parse_slice_direct::<u32>({k}) at aligned {at} declined"))),
                    }
                }
                3 if r.one_in(3) => {
                    let b = p.parse_rest()?;
                    if matches!(b, Cow::Owned(_)) {
                        return Ok(Some(format!("parse_rest at {at} was copied")));
                    }
                    (b.as_ptr() as usize, b.len(), "parse_rest")
                }
                _ => {
                    p.parse_u8()?;
                    at += 1;
                    continue;
                }
            };
            *evals += 1;
            if lo != base + at || lo + len > base + n {
                return Ok(Some(format!("{what} at {at} does not refer to the input bytes")));
            }
            at += len;
        }
        Ok(None)
    }
    let mut evals = 0;
    let out = with_end!(host, perf_event_open_sys::bindings::perf_event_attr::default(), |c| guarded(|| if slice_src {
        go(buf, c, r, n, base, &mut evals)
    } else {
        go(MonBuf::new(buf, Rc::new(vec![n]), 0, hint), c, r, n, base, &mut evals)
    }));
    ctx.add("primitive_reads", evals);
    ctx.evals += evals;
    match out {
        Out::Ok(None) => Ok(()),
        Out::Ok(Some(m)) => viol(m, hex_short(&data)),
        o => viol(format!("primitive reads within the input: {}", o.tag()), hex_short(&data)),
    }
}

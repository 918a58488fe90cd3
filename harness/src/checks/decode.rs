use crate::bufs::*;
use crate::gens::*;
use crate::kf::{self, Geo, Verdict};
use crate::model::*;
use crate::obs::*;
use crate::refdec::{self, RefOut};
use crate::run::*;
use crate::util::*;
use crate::with_end;
use perf_event_data::parse::*;
use perf_event_data::{ReadGroup, ReadValue, SampleId};
use std::rc::Rc;

pub fn case_text(b: &Built, bytes: &[u8], end: End) -> String {
    format!("type={} misc={:#x} {} order={:?} bytes={}", b.ty, b.misc, b.cfg.text(), end, hex_short(bytes))
}

/// Parse a well-formed record contiguously and compare everything with the model.
fn expect_exact(b: &Built, end: End, align: usize, ctx: &mut Ctx) -> Result<(), Viol> {
    let bytes = b.bytes(end.be());
    let a = AlignedBuf::new(&bytes, align);
    let out = parse_slice_obs(a.get(), &b.cfg, end, Entry::Visit);
    ctx.eval();
    match &out {
        Out::Ok(o) if o.rec.diff(&b.rec).is_none() => (),
        _ if kf::verdict(&bytes, 0, &b.cfg, end, &Geo::flat(align), &out) == Verdict::Known => ctx.known(),
        Out::Ok(o) => {
            let d = o.rec.diff(&b.rec).unwrap();
            return viol(format!("{}: {d}", kind_name(b.ty)), format!("address%8={align} {}", case_text(b, &bytes, end)));
        }
        _ => return viol(format!("well-formed {} record not decoded: {}", kind_name(b.ty), out_text(&out)), case_text(b, &bytes, end)),
    }
    Ok(())
}

fn pick_end(r: &mut Rng) -> End {
    r.pick(&[End::Native, End::Native, End::Little, End::Big, End::DynLittle, End::DynBig, End::UserLittle, End::UserBig])
}

pub fn c02(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 2, n);
    let types: Vec<u32> = KNOWN.iter().copied().filter(|t| *t != T_SAMPLE).collect();
    let i = (n % (types.len() as u64 + 2)) as usize;
    let ty = if i < types.len() { types[i] } else { gen_unknown_type(&mut r) };
    let cfg = gen_cfg(&mut r);
    let lim = pick_lim(&mut r);
    let b = gen_record(&mut r, ty, &cfg, lim);
    self_check(&b)?;
    let end = pick_end(&mut r);
    expect_exact(&b, end, r.below(8), ctx)?;
    ctx.n(&format!("type:{}", kind_name(ty)));
    ctx.n(&format!("order:{end:?}"));
    if b.rec.f.iter().any(|(_, v)| matches!(v, Val::B(x) if x.is_empty()) || matches!(v, Val::L(x) if x.is_empty())) {
        ctx.n("records_with_empty_part");
    }
    ctx.peak("largest_record_bytes", b.size() as u64);
    ctx.sig(b.shape());
    if n % 7 == 0 {
        ctx.sample(|| case_text(&b, &b.bytes(end.be()), end));
    }
    Ok(())
}

/// The two halves of the model must agree, otherwise the harness is broken (not the crate).
fn self_check(b: &Built) -> Result<(), Viol> {
    let be = b.size() % 3 == 0;
    match refdec::decode(&b.bytes(be), be, &b.cfg) {
        RefOut::Ok(d) => {
            assert!(d.rec.diff(&b.rec).is_none() && d.sid.diff(&b.sid).is_none(), "model self-check: {:?}", d.rec.diff(&b.rec));
            assert!(d.ty == b.ty && d.misc == b.misc);
            Ok(())
        }
        RefOut::Err(k) => panic!("model self-check: reference decoder refuses {} {:?} {}", b.ty, k, b.cfg.text()),
    }
}

/// Sample configurations: systematic ones first, random afterwards.
fn sample_cfg(n: u64, r: &mut Rng) -> Cfg {
    let mut c = gen_cfg(r);
    let pairs: u64 = 25 * 25;
    if n < pairs {
        let (a, b) = (n / 25, n % 25);
        c.st = 1 << a | 1 << b;
    } else if n < pairs + 25 {
        c.st = S_ALL & !(1 << (n - pairs));
    } else if n < pairs + 25 + 64 {
        // READ under every read format
        c.rf = (n - pairs - 25) % 32;
        c.st |= S_READ;
    }
    if c.st & S_WEIGHT != 0 && c.st & S_WEIGHT_STRUCT != 0 {
        c.st &= if n % 2 == 0 { !S_WEIGHT } else { !S_WEIGHT_STRUCT };
    }
    c
}

pub fn c03(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 3, n);
    let cfg = sample_cfg(n, &mut r);
    let lim = pick_lim(&mut r);
    let b = gen_record(&mut r, T_SAMPLE, &cfg, lim);
    self_check(&b)?;
    let end = pick_end(&mut r);
    expect_exact(&b, end, r.below(8), ctx)?;
    for (k, v) in &b.rec.f {
        match v {
            Val::No => (),
            Val::B(x) if x.is_empty() => ctx.n(&format!("empty:{k}")),
            Val::L(x) if x.is_empty() => ctx.n(&format!("empty:{k}")),
            _ => ctx.n(&format!("present:{k}")),
        }
    }
    ctx.sig(b.shape());
    if n % 7 == 0 {
        ctx.sample(|| case_text(&b, &b.bytes(end.be()), end));
    }
    Ok(())
}

pub fn c07(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 7, n);
    let mut cfg = gen_cfg(&mut r);
    // all 64 subsets of the trailer fields, crossed with the record types
    let bits = [S_TID, S_TIME, S_ID, S_STREAM_ID, S_CPU, S_IDENTIFIER];
    let sub = n % 64;
    cfg.st &= !S_ID_FLAGS;
    for (i, b) in bits.iter().enumerate() {
        if sub >> i & 1 == 1 {
            cfg.st |= b;
        }
    }
    if r.below(4) != 0 {
        cfg.sia = true;
    }
    let k = (n / 64) % 24;
    let ty = if k < 21 { KNOWN[k as usize] } else { gen_unknown_type(&mut r) };
    let b = gen_record(&mut r, ty, &cfg, SMALL);
    let end = pick_end(&mut r);
    let be = end.be();
    let bytes = b.bytes(be);
    let txt = || case_text(&b, &bytes, end);

    // 1. metadata values, and the body is what the model says
    let a = AlignedBuf::new(&bytes, if end.host() { 0 } else { r.below(8) });
    let out = parse_slice_obs(a.get(), &b.cfg, end, Entry::Visit);
    ctx.eval();
    match &out {
        Out::Ok(o) => {
            if let Some(d) = o.sid.as_ref().unwrap().diff(&b.sid) {
                return viol(format!("{} sample id: {d}", kind_name(ty)), txt());
            }
            if let Some(d) = o.rec.diff(&b.rec) {
                return viol(format!("{} body with trailer: {d}", kind_name(ty)), txt());
            }
        }
        _ => return viol(format!("well-formed {} record with trailer not decoded: {}", kind_name(ty), out_text(&out)), txt()),
    }

    // 2. metadata first: the returned sub-parser holds exactly the body bytes, and the trailer
    //    values are the same through a chunked source
    let cuts = Rc::new(gen_cuts(&mut r, bytes.len()));
    let (mask, hint) = (gen_mask(&mut r), r.bool());
    let got = with_end!(end, b.cfg.attr(), |c| guarded(|| {
        let mut p = Parser::new(MonBuf::new(&bytes, cuts.clone(), mask, hint), c);
        let (mut q, m) = p.parse_metadata()?;
        let sid = r_sid(m.sample_id());
        let want = wlen(&b.body);
        // read byte by byte; stop well past the expected end
        let mut body = vec![];
        while body.len() <= want + 64 {
            match q.parse_u8() {
                Ok(x) => body.push(x),
                Err(e) if e.kind() == ErrorKind::Eof => break,
                Err(e) => return Err(e),
            }
        }
        Ok((sid, body))
    }));
    ctx.eval();
    match got {
        Out::Ok((sid, body)) => {
            if let Some(d) = sid.diff(&b.sid) {
                return viol(format!("{} sample id via parse_metadata: {d}", kind_name(ty)), txt());
            }
            let want = encode(&b.body, be);
            if body != want {
                return viol(
                    format!("{} body handed out by parse_metadata is {} bytes, expected {}", kind_name(ty), body.len(), want.len()),
                    txt(),
                );
            }
        }
        o => return viol(format!("parse_metadata failed on a well-formed {} record: {}", kind_name(ty), o.tag()), txt()),
    }

    // 3. advertised length == bytes taken == ABI length
    let sid_bytes = encode(&gen_sid(&mut r, &b.cfg).0, be);
    let mut stream = sid_bytes.clone();
    stream.extend(r.bytes(16));
    let cuts = Rc::new(gen_cuts(&mut r, stream.len()));
    let mb = MonBuf::new(&stream, cuts, mask, hint);
    let st = mb.stats.clone();
    let est = with_end!(end, b.cfg.attr(), |c| guarded(|| {
        let e = SampleId::estimate_len(&c);
        let _: SampleId = Parser::new(mb, c).parse()?;
        Ok(e)
    }));
    ctx.eval();
    match est {
        Out::Ok(e) => {
            if e != sid_bytes.len() || st.consumed.get() != e {
                return viol(
                    format!("trailer length: advertised {e}, taken {}, ABI {}", st.consumed.get(), sid_bytes.len()),
                    format!("{} order={end:?}", b.cfg.text()),
                );
            }
        }
        o => return viol(format!("SampleId refused a complete trailer: {}", o.tag()), b.cfg.text()),
    }
    ctx.n(&format!("type:{}", kind_name(ty)));
    ctx.n(if b.cfg.sia { "sample_id_all:on" } else { "sample_id_all:off" });
    ctx.peak("longest_trailer_bytes", sid_bytes.len() as u64);
    ctx.sig(hash2(hash2(ty as u64, sub * 2 + b.cfg.sia as u64), b.size() as u64));
    if n % 501 == 0 {
        ctx.sample(txt);
    }
    Ok(())
}

/// Judge one input with the reference decoder.
fn judge(bytes: &[u8], cfg: &Cfg, end: End, strict_kind: bool, what: &str, ctx: &mut Ctx) -> Result<(), Viol> {
    let want = refdec::decode(bytes, end.be(), cfg);
    // mostly aligned, so that most host-order cases are judged in full
    let align = if bytes.len() % 4 == 0 { 0 } else { bytes.len() / 8 % 8 };
    let a = AlignedBuf::new(bytes, align);
    let got = parse_slice_obs(a.get(), cfg, end, Entry::Visit);
    ctx.eval();
    if end.host() && kf::verdict(bytes, 0, cfg, end, &Geo::flat(align), &got) == Verdict::Known {
        ctx.known();
        return Ok(());
    }
    let txt = || format!("{what}: {} order={end:?} bytes={}", cfg.text(), hex_short(bytes));
    match (&want, &got) {
        (RefOut::Ok(d), Out::Ok(o)) => {
            if let Some(x) = o.rec.diff(&d.rec) {
                return viol(format!("accepted with wrong values after {what}: {x}"), txt());
            }
            if let Some(x) = o.sid.as_ref().unwrap().diff(&d.sid) {
                return viol(format!("accepted with wrong sample id after {what}: {x}"), txt());
            }
            ctx.n(&format!("{what}:accepted"));
        }
        (RefOut::Err(_), Out::Ok(_)) => {
            return viol(format!("incomplete or inconsistent record accepted after {what}"), format!("{} got {}", txt(), out_text(&got)))
        }
        (RefOut::Ok(_), _) => {
            return viol(format!("complete and consistent record refused after {what}: {}", out_text(&got)), txt());
        }
        (RefOut::Err(k), Out::Err(g)) => {
            let known = || match refdec::decode_q(bytes, end.be(), cfg, Some((&Geo::flat(align), 0))) {
                RefOut::Err(q) => end.host() && q.contains(g),
                _ => false,
            };
            if strict_kind && !k.contains(g) && known() {
                ctx.known();
            } else if strict_kind && !k.contains(g) {
                return viol(format!("wrong error kind after {what}: got {g:?}, expected one of {k:?}"), txt());
            }
            ctx.n(&format!("{what}:{}", got.tag()));
        }
        (RefOut::Err(_), Out::Panic(m)) => return viol(format!("panic instead of an error after {what}: {m}"), txt()),
    }
    ctx.sig(hash2(hash2(hstr(what), cfg.sig()), hash2(bytes.len() as u64, hstr(got.tag()))));
    Ok(())
}

pub fn c08(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 8, n);
    let cfg0 = gen_cfg(&mut r);
    let ty = if n % 3 == 0 { T_SAMPLE } else { gen_type(&mut r) };
    let lim = if r.one_in(24) { BIG } else { Lim { s: 60, n: 6 } };
    let b = gen_record(&mut r, ty, &cfg0, lim);
    self_check(&b)?;
    let cfg = b.cfg;
    let end = pick_end(&mut r);
    let be = end.be();
    let (bytes, pos) = encode_pos(&b.program(), be);
    let body = encode(&b.body, be);
    let tr = encode(&b.trailer, be);
    if n % 97 == 0 {
        ctx.sample(|| case_text(&b, &bytes, end));
    }
    let frame = |ty: u32, misc: u16, size: u64, parts: &[&[u8]]| {
        let mut v = vec![];
        put(&mut v, 4, ty as u64, be);
        put(&mut v, 2, misc as u64, be);
        put(&mut v, 2, size, be);
        for p in parts {
            v.extend_from_slice(p);
        }
        v
    };

    // the record itself, and with unread bytes at its end
    judge(&bytes, &cfg, end, true, "valid", ctx)?;
    if body.len() + tr.len() + 8 + 40 < 65535 {
        let nx = 1 + r.below(40);
        let extra = r.bytes(nx);
        let v = frame(b.ty, b.misc, (8 + body.len() + extra.len() + tr.len()) as u64, &[&body, &extra, &tr]);
        judge(&v, &cfg, end, true, "extra_bytes", ctx)?;
    }
    // body cut short, header and trailer consistent
    let lens: Vec<usize> = if body.len() <= 96 { (0..body.len()).collect() } else { (0..40).map(|_| r.below(body.len())).collect() };
    for l in lens {
        let v = frame(b.ty, b.misc, (8 + l + tr.len()) as u64, &[&body[..l], &tr]);
        judge(&v, &cfg, end, true, "body_cut", ctx)?;
    }
    // stream ends early
    for _ in 0..6 {
        let l = r.below(bytes.len());
        judge(&bytes[..l], &cfg, end, true, "stream_cut", ctx)?;
    }
    // header size field
    for _ in 0..4 {
        let s = match r.below(4) {
            0 => r.below(8) as u64,
            1 => 8 + r.below(48) as u64,
            2 => (bytes.len() as u64).saturating_sub(r.below(16) as u64),
            _ => r.v16() as u64,
        };
        let v = frame(b.ty, b.misc, s, &[&body, &tr]);
        judge(&v, &cfg, end, true, "header_size", ctx)?;
    }
    // frame smaller than its trailer
    if !tr.is_empty() {
        for _ in 0..2 {
            let l = r.below(tr.len());
            let v = frame(b.ty, b.misc, 8 + l as u64, &[&tr[..l]]);
            judge(&v, &cfg, end, true, "trailer_cut", ctx)?;
        }
    }
    // embedded counts
    for k in &pos {
        for _ in 0..4 {
            let mut v = bytes.clone();
            let rem = v.len() - k.off - k.width as usize;
            let nv = if k.unit == 0 { r.pick(&[0u64, 1, 19, 20, 21, 22, 40, 127, 128, 255]) } else { hostile_count(&mut r, k, rem) };
            set_count(&mut v, k, 0, nv, be);
            judge(&v, &cfg, end, true, "count_edit", ctx)?;
        }
    }
    // configurations that cannot describe the record
    if ty == T_READ || (ty == T_SAMPLE && cfg.has(S_READ)) {
        let mut c = cfg;
        c.rf |= 1 << (5 + r.below(59));
        judge(&bytes, &c, end, true, "unknown_read_format", ctx)?;
        if ty == T_READ {
            let mut c = cfg;
            c.rf |= F_GROUP;
            judge(&bytes, &c, end, true, "group_read_record", ctx)?;
        }
    }
    // readings parsed directly under the other kind of format
    if n % 4 == 1 {
        let by = r.bytes(96);
        let rf = r.below(32) as u64;
        let unknown = r.one_in(4).then(|| 1 << (5 + r.below(59))).unwrap_or(0u64);
        let c = Cfg { rf: rf | unknown, ..Default::default() };
        let got = with_end!(end, c.attr(), |pc| {
            let k1 = crate::crash::guard(|| Parser::new(&by[..], pc.clone()).parse::<ReadValue>().map(|_| ()).map_err(|e| e.kind()));
            let k2 = crate::crash::guard(|| Parser::new(&by[..], pc.clone()).parse::<ReadGroup>().map(|_| ()).map_err(|e| e.kind()));
            (k1, k2)
        });
        let group = rf & F_GROUP != 0;
        for (what, g, refused) in [("single reading", got.0, group || unknown != 0), ("group reading", got.1, !group || unknown != 0)] {
            ctx.eval();
            let bad = match &g {
                Ok(Err(ErrorKind::UnsupportedConfig)) => !refused,
                // random bytes: a group may claim any number of entries
                Ok(Ok(())) => refused,
                Ok(Err(_)) => refused || what == "single reading",
                Err(_) => true,
            };
            if bad {
                return viol(format!("{what} parsed with read format {:#x}: {g:?}", c.rf), format!("order={end:?} bytes={}", hex_short(&by)));
            }
            ctx.n(if refused { "direct_reading:refused" } else { "direct_reading:tried" });
        }
    }
    // dynamic stack size beyond the captured stack
    if ty == T_SAMPLE && cfg.has(S_STACK_USER) {
        let mut b2 = b.clone();
        if let Some(i) = stack_dyn_index(&b2.body, &cfg) {
            if let (W::N(_, size, _), W::U64(_)) = (b2.body[i - 2].clone(), b2.body[i].clone()) {
                for d in [size, size.wrapping_add(1), u64::MAX, (1 << 32) | size, (1 << 63) | (size / 2), size + 8] {
                    b2.body[i] = W::U64(d);
                    judge(&b2.bytes(be), &cfg, end, true, "dyn_size", ctx)?;
                }
            }
        }
    }
    // random damage: the accept/refuse verdict and the values still have to match
    for _ in 0..6 {
        let mut v = bytes.clone();
        let k = 1 + r.below(4);
        for _ in 0..k {
            let i = r.below(v.len());
            v[i] = if r.bool() { r.u8() } else { v[i] ^ (1 << r.below(8)) };
        }
        judge(&v, &cfg, end, false, "random_damage", ctx)?;
    }
    Ok(())
}

/// Index of the dyn_size word in a SAMPLE program, if its stack is non-empty.
fn stack_dyn_index(body: &[W], _c: &Cfg) -> Option<usize> {
    // a stack part is N(8, size, 1), Bytes(size), U64(dyn); AUX is N(8, size, 1), Bytes at the end
    (2..body.len()).find(|&i| matches!((&body[i - 2], &body[i - 1], &body[i]), (W::N(8, n, 1), W::Bytes(b), W::U64(_)) if *n > 0 && b.len() as u64 == *n))
}

//! Independent reference decoder: decides for *arbitrary* bytes whether a record must be
//! accepted, with which values, or refused, with which error kinds.

use crate::kf::Geo;
use crate::model::*;
use perf_event_data::parse::ErrorKind;

#[derive(Clone, Debug)]
pub struct Decoded {
    pub ty: u32,
    pub misc: u16,
    pub sid: Rec,
    pub rec: Rec,
}

#[derive(Clone, Debug)]
pub enum RefOut {
    Ok(Decoded),
    /// Refused; the acceptable kinds.
    Err(Vec<ErrorKind>),
}

struct Rd<'a> {
    d: &'a [u8],
    at: usize,
    be: bool,
    /// predict the known finding: where the bytes lie, and the stream offset of `d`
    q: Option<(&'a Geo, usize)>,
}

#[derive(Clone, Debug)]
enum Fault {
    Missing,
    /// so large that reporting either missing data or an invalid count is right
    Absurd,
}

impl<'a> Rd<'a> {
    fn take(&mut self, n: u64) -> Result<&'a [u8], Fault> {
        if n > (self.d.len() - self.at) as u64 {
            return Err(if n >= 1 << 31 { Fault::Absurd } else { Fault::Missing });
        }
        let s = &self.d[self.at..self.at + n as usize];
        self.at += n as usize;
        Ok(s)
    }
    fn int(&mut self, n: usize) -> Result<u64, Fault> {
        let s = self.take(n as u64)?;
        let mut v = 0u64;
        if self.be {
            for &b in s {
                v = v << 8 | b as u64;
            }
        } else {
            for &b in s.iter().rev() {
                v = v << 8 | b as u64;
            }
        }
        Ok(v)
    }
    fn u64(&mut self) -> Result<u64, Fault> {
        self.int(8)
    }
    /// a length or a number of items
    fn count(&mut self) -> Result<u64, Fault> {
        let n = self.u64()?;
        if usize::try_from(n).is_err() {
            // more than a host of this word size can hold
            return Err(Fault::Absurd);
        }
        Ok(n)
    }
    fn u32(&mut self) -> Result<u32, Fault> {
        Ok(self.int(4)? as u32)
    }
    fn u16(&mut self) -> Result<u16, Fault> {
        Ok(self.int(2)? as u16)
    }
    fn opt(&mut self, on: bool) -> Result<Option<u64>, Fault> {
        if on {
            Ok(Some(self.u64()?))
        } else {
            Ok(None)
        }
    }
    /// check that n items of `unit` bytes are there
    fn room(&self, n: u64, unit: u64) -> Result<(), Fault> {
        let have = (self.d.len() - self.at) as u64;
        match n.checked_mul(unit) {
            Some(t) if t <= have => Ok(()),
            Some(t) if t < 1 << 31 => Err(Fault::Missing),
            _ => Err(Fault::Absurd),
        }
    }
    /// Before `n` items of `unit` bytes are read as one slice.
    fn slice(&mut self, n: u64, unit: u64) -> Result<(), Fault> {
        self.room(n, unit)?;
        if let Some((g, base)) = self.q {
            let len = (n * unit) as usize;
            if g.misaligned(base + self.at, len, std::mem::align_of::<u64>()) {
                self.at += len;
                self.room(n, unit)?;
            }
        }
        Ok(())
    }
    fn list(&mut self, n: u64) -> Result<Vec<Vec<u64>>, Fault> {
        self.slice(n, 8)?;
        (0..n).map(|_| Ok(vec![self.u64()?])).collect()
    }
    fn rest_trim(&mut self) -> &'a [u8] {
        let mut s = &self.d[self.at..];
        self.at = self.d.len();
        while let [h @ .., 0] = s {
            s = h;
        }
        s
    }
}

/// Result of decoding one body: values, or problems found.
struct Body {
    rec: Result<Rec, Fault>,
    /// the record is inconsistent (reported as invalid) even though bytes may be there
    invalid: bool,
    /// the configuration cannot describe this record
    unsupported: bool,
}

pub fn decode(data: &[u8], be: bool, c: &Cfg) -> RefOut {
    decode_q(data, be, c, None)
}

/// `q`: predict what the known finding does to a record at this place.
pub fn decode_q(data: &[u8], be: bool, c: &Cfg, q: Option<(&Geo, usize)>) -> RefOut {
    let mut h = Rd { d: data, at: 0, be, q: None };
    let hdr = (|| Ok::<_, Fault>((h.u32()?, h.u16()?, h.u16()?)))();
    let Ok((ty, misc, size)) = hdr else {
        return RefOut::Err(vec![ErrorKind::Eof]);
    };
    decode_frame(&data[8..], ty, misc, size, be, c, q.map(|(g, o)| (g, o + 8)))
}

pub fn decode_frame(data: &[u8], ty: u32, misc: u16, size: u16, be: bool, c: &Cfg, q: Option<(&Geo, usize)>) -> RefOut {
    if size < 8 {
        return RefOut::Err(vec![ErrorKind::InvalidRecord]);
    }
    let n = size as usize - 8;
    let trailer = if ty == T_MMAP || ty == T_SAMPLE { 0 } else { c.sid_len() };
    if data.len() < n {
        let mut k = vec![ErrorKind::Eof];
        if trailer > n {
            k.push(ErrorKind::InvalidRecord);
        }
        return RefOut::Err(k);
    }
    if trailer > n {
        return RefOut::Err(vec![ErrorKind::InvalidRecord]);
    }
    let body = &data[..n - trailer];
    let sid = decode_sid(&data[n - trailer..n], be, c, trailer != 0);
    let b = decode_body(body, ty, misc, be, c, q);
    let mut kinds = vec![];
    match &b.rec {
        Err(Fault::Missing) => kinds.push(ErrorKind::Eof),
        Err(Fault::Absurd) => kinds.extend([ErrorKind::Eof, ErrorKind::InvalidRecord]),
        Ok(_) => (),
    }
    if b.invalid {
        kinds.push(ErrorKind::InvalidRecord);
    }
    if b.unsupported {
        kinds.push(ErrorKind::UnsupportedConfig);
    }
    match b.rec {
        Ok(rec) if kinds.is_empty() => RefOut::Ok(Decoded { ty, misc, sid, rec }),
        _ => RefOut::Err(kinds),
    }
}

fn decode_sid(d: &[u8], be: bool, c: &Cfg, present: bool) -> Rec {
    if !present {
        return empty_sid();
    }
    let mut p = Rd { d, at: 0, be, q: None };
    let mut f = || -> Result<Rec, Fault> {
        let (mut pid, mut tid, mut cpu) = (None, None, None);
        if c.has(S_TID) {
            pid = Some(p.u32()? as u64);
            tid = Some(p.u32()? as u64);
        }
        let time = p.opt(c.has(S_TIME))?;
        let id = p.opt(c.has(S_ID))?;
        let stream = p.opt(c.has(S_STREAM_ID))?;
        if c.has(S_CPU) {
            cpu = Some(p.u32()? as u64);
            p.u32()?;
        }
        let ident = p.opt(c.has(S_IDENTIFIER))?;
        Ok(sid_rec(pid, tid, time, id.or(ident), stream, cpu))
    };
    f().expect("trailer length was checked")
}

fn decode_body(d: &[u8], ty: u32, misc: u16, be: bool, c: &Cfg, q: Option<(&Geo, usize)>) -> Body {
    let mut p = Rd { d, at: 0, be, q };
    let mut invalid = false;
    let bad_rf = c.rf & !F_ALL != 0;
    let unsupported = match ty {
        T_READ => bad_rf || c.rf & F_GROUP != 0,
        T_SAMPLE => c.has(S_READ) && bad_rf,
        _ => false,
    };
    let rec = body_rec(&mut p, ty, misc, c, &mut invalid);
    Body { rec, invalid, unsupported }
}

fn body_rec(p: &mut Rd, ty: u32, misc: u16, c: &Cfg, invalid: &mut bool) -> Result<Rec, Fault> {
    let r = Rec::new(kind_name(ty));
    Ok(match ty {
        T_MMAP => {
            let r = r.u("pid", p.u32()?).u("tid", p.u32()?).u("addr", p.u64()?).u("len", p.u64()?).u("pgoff", p.u64()?);
            r.b("filename", p.rest_trim())
        }
        T_LOST => r.u("id", p.u64()?).u("lost", p.u64()?),
        T_COMM => r.u("pid", p.u32()?).u("tid", p.u32()?).b("comm", p.rest_trim()),
        T_EXIT | T_FORK => r.u("pid", p.u32()?).u("ppid", p.u32()?).u("tid", p.u32()?).u("ptid", p.u32()?).u("time", p.u64()?),
        T_THROTTLE | T_UNTHROTTLE => r.u("time", p.u64()?).u("id", p.u64()?).u("stream_id", p.u64()?),
        T_READ => {
            let mut r = r.u("pid", p.u32()?).u("tid", p.u32()?);
            let (v, e, n, i, l) = read_single(p, c)?;
            r.f.extend(read_rec(v, e, n, i, l).f);
            r
        }
        T_MMAP2 => {
            let r = r.u("pid", p.u32()?).u("tid", p.u32()?).u("addr", p.u64()?).u("len", p.u64()?).u("pgoff", p.u64()?);
            let r = if misc & MISC_BUILD_ID != 0 {
                let n = p.int(1)? as usize;
                p.take(3)?;
                let id = p.take(20)?;
                if n > 20 {
                    *invalid = true;
                }
                r.o("maj", None).o("min", None).o("ino", None).o("ino_generation", None).ob("build_id", Some(&id[..n.min(20)]))
            } else {
                r.u("maj", p.u32()?).u("min", p.u32()?).u("ino", p.u64()?).u("ino_generation", p.u64()?).ob("build_id", None)
            };
            r.u("prot", p.u32()?).u("flags", p.u32()?).b("filename", p.rest_trim())
        }
        T_AUX => {
            let r = r.u("aux_offset", p.u64()?).u("aux_size", p.u64()?);
            let f = p.u64()?;
            r.u("flags", f).u("pmu_format", (f >> 8) & 0xff)
        }
        T_ITRACE => r.u("pid", p.u32()?).u("tid", p.u32()?),
        T_LOST_SAMPLES => r.u("lost", p.u64()?),
        T_SWITCH => r,
        T_SWITCH_CPU => r.u("pid", p.u32()?).u("tid", p.u32()?).u("out", (misc & MISC_SWITCH_OUT != 0) as u64),
        T_NAMESPACES => {
            let (pid, tid, n) = (p.u32()?, p.u32()?, p.u64()?);
            p.slice(n, 16)?;
            let e = (0..n).map(|_| Ok((p.u64()?, p.u64()?))).collect::<Result<Vec<_>, Fault>>()?;
            ns_rec(pid, tid, &e)
        }
        T_KSYMBOL => r.u("addr", p.u64()?).u("len", p.u32()?).u("ksym_type", p.u16()?).u("flags", p.u16()?).b("name", p.rest_trim()),
        T_BPF => r.u("ty", p.u16()?).u("flags", p.u16()?).u("id", p.u32()?).b("tag", p.take(8)?),
        T_CGROUP => r.u("id", p.u64()?).b("path", p.rest_trim()),
        T_TEXT_POKE => {
            let r = r.u("addr", p.u64()?);
            let (a, b) = (p.u16()? as u64, p.u16()? as u64);
            let r = r.b("old_bytes", p.take(a)?).b("new_bytes", p.take(b)?);
            p.take((8 - (12 + a + b) % 8) % 8)?;
            r
        }
        T_AUX_HW => r.u("hw_id", p.u64()?),
        T_SAMPLE => sample(p, c, invalid)?,
        _ => {
            let n = (p.d.len() - p.at) as u64;
            r.b("data", p.take(n)?)
        }
    })
}

#[allow(clippy::type_complexity)]
fn read_single(p: &mut Rd, c: &Cfg) -> Result<(u64, Option<u64>, Option<u64>, Option<u64>, Option<u64>), Fault> {
    Ok((p.u64()?, p.opt(c.rf & F_ENABLED != 0)?, p.opt(c.rf & F_RUNNING != 0)?, p.opt(c.rf & F_ID != 0)?, p.opt(c.rf & F_LOST != 0)?))
}

fn regs(p: &mut Rd, on: bool, mask: u64) -> Result<Option<(u64, u64, Vec<Vec<u64>>)>, Fault> {
    if !on {
        return Ok(None);
    }
    let abi = p.u64()?;
    let l = p.list(if abi == 0 { 0 } else { mask.count_ones() as u64 })?;
    Ok(Some((abi, mask, l)))
}

fn sample(p: &mut Rd, c: &Cfg, invalid: &mut bool) -> Result<Rec, Fault> {
    let mut s = SampleVals::default();
    let ident = p.opt(c.has(S_IDENTIFIER))?;
    s.ip = p.opt(c.has(S_IP))?;
    if c.has(S_TID) {
        s.pid = Some(p.u32()? as u64);
        s.tid = Some(p.u32()? as u64);
    }
    s.time = p.opt(c.has(S_TIME))?;
    s.addr = p.opt(c.has(S_ADDR))?;
    s.id = p.opt(c.has(S_ID))?.or(ident);
    s.stream = p.opt(c.has(S_STREAM_ID))?;
    if c.has(S_CPU) {
        s.cpu = Some(p.u32()? as u64);
        p.u32()?;
    }
    s.period = p.opt(c.has(S_PERIOD))?;
    if c.has(S_READ) {
        if c.rf & F_GROUP != 0 {
            let n = p.count()?;
            let e = p.opt(c.rf & F_ENABLED != 0)?;
            let t = p.opt(c.rf & F_RUNNING != 0)?;
            let (wi, wl) = (c.rf & F_ID != 0, c.rf & F_LOST != 0);
            p.slice(n, 8 * (1 + wi as u64 + wl as u64))?;
            let mut rows = vec![];
            for _ in 0..n {
                rows.push(entry_row(p.u64()?, p.opt(wi)?, p.opt(wl)?));
            }
            s.values = Some((e, t, rows));
        } else {
            let (v, e, t, i, l) = read_single(p, c)?;
            s.values = Some((e, t, vec![entry_row(v, i, l)]));
        }
    }
    if c.has(S_CALLCHAIN) {
        let n = p.count()?;
        s.chain = Some(p.list(n)?);
    }
    if c.has(S_RAW) {
        let n = p.u32()? as u64;
        s.raw = Some(p.take(n)?.to_vec());
        p.take((8 - (4 + n) % 8) % 8)?;
    }
    if c.has(S_BRANCH) {
        let n = p.count()?;
        s.hw_idx = p.opt(c.hw)?;
        p.slice(n, 24)?;
        let mut rows = vec![];
        for _ in 0..n {
            rows.push(branch_row(p.u64()?, p.u64()?, p.u64()?));
        }
        s.lbr = Some(rows);
        if c.bc {
            // the library has no field for the counts
            for _ in 0..n {
                p.u64()?;
            }
        }
    }
    s.ru = regs(p, c.has(S_REGS_USER), c.ru)?;
    if c.has(S_STACK_USER) {
        let n = p.count()?;
        let d = p.take(n)?;
        let dynsz = if n == 0 { 0 } else { p.u64()? };
        if dynsz > n {
            *invalid = true;
        }
        s.stack = Some(d[..dynsz.min(n) as usize].to_vec());
    }
    s.weight = p.opt(c.has(S_WEIGHT) || c.has(S_WEIGHT_STRUCT))?;
    s.dsrc = p.opt(c.has(S_DATA_SRC))?.map(datasrc_row);
    s.txn = p.opt(c.has(S_TRANSACTION))?;
    s.ri = regs(p, c.has(S_REGS_INTR), c.ri)?;
    s.phys = p.opt(c.has(S_PHYS_ADDR))?;
    s.cgroup = p.opt(c.has(S_CGROUP))?;
    s.dps = p.opt(c.has(S_DATA_PAGE))?;
    s.cps = p.opt(c.has(S_CODE_PAGE))?;
    if c.has(S_AUX) {
        let n = p.count()?;
        s.aux = Some(p.take(n)?.to_vec());
    }
    Ok(sample_rec(s))
}

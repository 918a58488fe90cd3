use super::decode::case_text;
use super::delivery::ATTR_SIZES;
use crate::bufs::*;
use crate::gens::*;
use crate::model::*;
use crate::obs::*;
use crate::run::*;
use crate::util::*;
use crate::{with_delivery, with_end};
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_attr;
use std::error::Error;

// ---------------------------------------------------------------- reader for Debug output

/// Tree read back from `{:?}` or `{:#?}` text.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Atom(String),
    Str(Vec<u8>),
    List(Vec<T>),
    Struct(String, Vec<(String, T)>),
    Tuple(String, Vec<T>),
}

struct Rd<'a> {
    s: &'a [char],
    i: usize,
}

impl Rd<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        self.ws();
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {c:?} at {} of the text, found {:?}", self.i, self.peek()))
        }
    }
    fn dots(&mut self) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(&['.', '.']) {
            self.i += 2;
            true
        } else {
            false
        }
    }
    fn value(&mut self) -> Result<T, String> {
        self.ws();
        match self.peek() {
            Some('"') => self.string(),
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == Some(']') {
                        self.i += 1;
                        return Ok(T::List(v));
                    }
                    v.push(self.value()?);
                    self.ws();
                    if self.peek() == Some(',') {
                        self.i += 1;
                    }
                }
            }
            _ => {
                let st = self.i;
                while let Some(c) = self.peek() {
                    if matches!(c, ',' | '{' | '(' | '}' | ')' | ']' | '[' | '"') {
                        break;
                    }
                    self.i += 1;
                }
                let name: String = self.s[st..self.i].iter().collect::<String>().trim().to_string();
                match self.peek() {
                    Some('{') => {
                        self.i += 1;
                        let mut f = vec![];
                        loop {
                            self.ws();
                            if self.peek() == Some('}') {
                                self.i += 1;
                                return Ok(T::Struct(name, f));
                            }
                            if self.dots() {
                                continue;
                            }
                            let ks = self.i;
                            while let Some(c) = self.peek() {
                                if c == ':' {
                                    break;
                                }
                                if !(c.is_alphanumeric() || c == '_') {
                                    return Err(format!("bad field name at {} of the text", self.i));
                                }
                                self.i += 1;
                            }
                            let k: String = self.s[ks..self.i].iter().collect();
                            self.eat(':')?;
                            f.push((k, self.value()?));
                            self.ws();
                            if self.peek() == Some(',') {
                                self.i += 1;
                            }
                        }
                    }
                    Some('(') => {
                        self.i += 1;
                        let mut v = vec![];
                        loop {
                            self.ws();
                            if self.peek() == Some(')') {
                                self.i += 1;
                                return Ok(T::Tuple(name, v));
                            }
                            v.push(self.value()?);
                            self.ws();
                            if self.peek() == Some(',') {
                                self.i += 1;
                            }
                        }
                    }
                    None if name.is_empty() => Err("text ends early".into()),
                    _ => Ok(T::Atom(name)),
                }
            }
        }
    }
    /// A quoted byte string: the inverse of escape_debug and escape_ascii.
    fn string(&mut self) -> Result<T, String> {
        self.eat('"')?;
        let mut out: Vec<u8> = vec![];
        let push = |out: &mut Vec<u8>, c: char| {
            let mut b = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        };
        loop {
            let c = self.peek().ok_or("unterminated string")?;
            self.i += 1;
            if c == '"' {
                return Ok(T::Str(out));
            }
            if c != '\\' {
                push(&mut out, c);
                continue;
            }
            let e = self.peek().ok_or("unterminated escape")?;
            self.i += 1;
            match e {
                'n' => out.push(b'\n'),
                't' => out.push(b'\t'),
                'r' => out.push(b'\r'),
                '0' => out.push(0),
                '\\' | '"' | '\'' => push(&mut out, e),
                'x' => {
                    let h: String = self.s[self.i..(self.i + 2).min(self.s.len())].iter().collect();
                    out.push(u8::from_str_radix(&h, 16).map_err(|_| format!("bad escape \\x{h}"))?);
                    self.i += 2;
                }
                'u' => {
                    self.eat('{')?;
                    let st = self.i;
                    while self.peek().map(|c| c != '}').unwrap_or(false) {
                        self.i += 1;
                    }
                    let h: String = self.s[st..self.i].iter().collect();
                    self.eat('}')?;
                    let c = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or(format!("bad escape \\u{{{h}}}"))?;
                    push(&mut out, c);
                }
                c => return Err(format!("unknown escape \\{c}")),
            }
        }
    }
}

pub fn read(text: &str) -> Result<T, String> {
    let s: Vec<char> = text.chars().collect();
    let mut r = Rd { s: &s, i: 0 };
    let t = r.value()?;
    r.ws();
    if r.i != s.len() {
        return Err(format!("text continues after the value at {}", r.i));
    }
    Ok(t)
}

// ---------------------------------------------------------------- expectations

enum X {
    Int(u64),
    Bytes(Vec<u8>),
    Hex(Vec<u8>),
    Ints(Vec<u64>),
    /// the text of a part is checked through the part's own Debug text
    Same(T),
    Fields(Vec<(&'static str, X)>),
    Items(Vec<X>),
}

fn dbg(v: &dyn std::fmt::Debug) -> X {
    X::Same(read(&format!("{v:?}")).unwrap_or_else(|e| T::Atom(format!("<unreadable part: {e}>"))))
}

fn int(a: &str) -> Option<u64> {
    match a.strip_prefix("0x").or(a.strip_prefix("0X")) {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => a.parse().ok(),
    }
}

fn matches_x(t: &T, x: &X, known: &[&'static str]) -> Result<(), String> {
    match (t, x) {
        (T::Atom(a), X::Int(v)) if int(a) == Some(*v) => Ok(()),
        (T::Str(s), X::Bytes(b)) if s == b => Ok(()),
        // byte fields that are not text are lists of numbers
        (T::List(l), X::Bytes(b)) => matches_x(&T::List(l.clone()), &X::Ints(b.iter().map(|&v| v as u64).collect()), known),
        (T::Atom(a), X::Hex(b)) => {
            let want: String = b.iter().map(|v| format!("{v:02X}")).collect();
            if *a == want {
                Ok(())
            } else {
                Err(format!("shows {a}, expected {want}"))
            }
        }
        (T::List(l), X::Ints(v)) => {
            if l.len() != v.len() {
                return Err(format!("shows {} numbers, expected {}", l.len(), v.len()));
            }
            for (i, (a, b)) in l.iter().zip(v).enumerate() {
                matches_x(a, &X::Int(*b), known).map_err(|e| format!("item {i}: {e}"))?;
            }
            Ok(())
        }
        (T::List(l), X::Items(v)) => {
            if l.len() != v.len() {
                return Err(format!("shows {} items, expected {}", l.len(), v.len()));
            }
            for (i, (a, b)) in l.iter().zip(v).enumerate() {
                matches_x(a, b, known).map_err(|e| format!("item {i}: {e}"))?;
            }
            Ok(())
        }
        (t, X::Same(w)) if t == w => Ok(()),
        (T::Struct(_, f), X::Fields(want)) => {
            for (k, x) in want {
                let hits: Vec<&T> = f.iter().filter(|(n, _)| n == k).map(|(_, t)| t).collect();
                match hits[..] {
                    [] => return Err(format!("field {k} is not shown")),
                    [t] => matches_x(t, x, known).map_err(|e| format!("field {k}: {e}"))?,
                    _ => return Err(format!("field {k} is shown {} times", hits.len())),
                }
            }
            for (k, _) in f {
                if !want.iter().any(|(n, _)| n == k) && known.contains(&k.as_str()) {
                    return Err(format!("absent field {k} is shown"));
                }
            }
            Ok(())
        }
        (t, X::Int(v)) => Err(format!("shows {t:?}, expected {v} ({v:#x})")),
        (t, X::Bytes(b)) => Err(format!("shows {t:?}, expected the bytes {b:x?}")),
        (t, _) => Err(format!("shows {t:?} in an unexpected form")),
    }
}

/// Names of optional fields.
const OPTIONAL: [&str; 40] = [
    "ip", "pid", "tid", "time", "addr", "id", "stream_id", "cpu", "period", "values", "callchain", "raw", "lbr_hw_index", "lbr", "regs_user", "stack_user", "weight",
    "data_src", "transaction", "regs_intr", "phys_addr", "aux", "cgroup", "data_page_size", "code_page_size", "maj", "min", "ino", "ino_generation", "build_id",
    "time_enabled", "time_running", "lost", "value", "entries", "abi", "mask", "regs", "filename", "comm",
];

fn sid_x(s: &SampleId) -> X {
    let mut v = vec![];
    let mut o = |k, x: Option<u64>| {
        if let Some(x) = x {
            v.push((k, X::Int(x)));
        }
    };
    o("pid", s.pid().map(|v| v as u64));
    o("tid", s.tid().map(|v| v as u64));
    o("time", s.time());
    o("id", s.id());
    o("stream_id", s.stream_id());
    o("cpu", s.cpu().map(|v| v as u64));
    X::Fields(v)
}

fn reading_x(v: &ReadValue) -> X {
    let mut f = vec![("value", X::Int(v.value()))];
    for (k, x) in [("time_enabled", v.time_enabled()), ("time_running", v.time_running()), ("id", v.id()), ("lost", v.lost())] {
        if let Some(x) = x {
            f.push((k, X::Int(x)));
        }
    }
    X::Fields(f)
}

fn entry_x(e: &GroupEntry) -> X {
    let mut f = vec![("value", X::Int(e.value()))];
    for (k, x) in [("id", e.id()), ("lost", e.lost())] {
        if let Some(x) = x {
            f.push((k, X::Int(x)));
        }
    }
    X::Fields(f)
}

fn group_x(g: &ReadGroup) -> X {
    let mut f = vec![("entries", X::Items(g.entries().map(|e| entry_x(&e)).collect()))];
    for (k, x) in [("time_enabled", g.time_enabled()), ("time_running", g.time_running())] {
        if let Some(x) = x {
            f.push((k, X::Int(x)));
        }
    }
    X::Fields(f)
}

fn data_source_x(d: &DataSource) -> X {
    X::Fields(vec![
        ("mem_op", dbg(&d.mem_op())),
        ("mem_lvl", dbg(&d.mem_lvl())),
        ("mem_snoop", dbg(&d.mem_snoop())),
        ("mem_lock", dbg(&d.mem_lock())),
        ("mem_dtlb", dbg(&d.mem_dtlb())),
        ("mem_lvl_num", dbg(&d.mem_lvl_num())),
        ("mem_remote", dbg(&d.mem_remote())),
        ("mem_blk", dbg(&d.mem_blk())),
        ("mem_hops", X::Int(d.mem_hops() as u64)),
    ])
}

fn sample_x(s: &Sample) -> X {
    let mut f: Vec<(&'static str, X)> = vec![];
    for (k, x) in [
        ("ip", s.ip()),
        ("pid", s.pid().map(|v| v as u64)),
        ("tid", s.tid().map(|v| v as u64)),
        ("time", s.time()),
        ("addr", s.addr()),
        ("id", s.id()),
        ("stream_id", s.stream_id()),
        ("cpu", s.cpu().map(|v| v as u64)),
        ("period", s.period()),
        ("lbr_hw_index", s.lbr_hw_index()),
        ("weight", s.weight()),
        ("phys_addr", s.phys_addr()),
        ("cgroup", s.cgroup()),
        ("data_page_size", s.data_page_size()),
        ("code_page_size", s.code_page_size()),
    ] {
        if let Some(x) = x {
            f.push((k, X::Int(x)));
        }
    }
    for (k, x) in [("raw", s.raw()), ("stack_user", s.stack_user()), ("aux", s.aux())] {
        if let Some(x) = x {
            f.push((k, X::Bytes(x.to_vec())));
        }
    }
    if let Some(x) = s.values() {
        f.push(("values", group_x(x)));
    }
    if let Some(x) = s.callchain() {
        f.push(("callchain", X::Ints(x.to_vec())));
    }
    if let Some(x) = s.lbr() {
        f.push(("lbr", X::Items(x.iter().map(|b| dbg(b)).collect())));
    }
    if let Some(x) = s.data_src() {
        f.push(("data_src", data_source_x(&x)));
    }
    if let Some(x) = s.transaction() {
        f.push(("transaction", dbg(&x)));
    }
    for (k, x) in [("regs_user", s.regs_user()), ("regs_intr", s.regs_intr())] {
        if let Some(x) = x {
            f.push((k, X::Fields(vec![("abi", dbg(&x.abi)), ("mask", X::Int(x.mask)), ("regs", X::Ints(x.regs.to_vec()))])));
        }
    }
    X::Fields(f)
}

fn record_x(r: &Record) -> Option<X> {
    let i = |v: u64| X::Int(v);
    Some(X::Fields(match r {
        Record::Mmap(m) => vec![
            ("pid", i(m.pid as u64)),
            ("tid", i(m.tid as u64)),
            ("addr", i(m.addr)),
            ("len", i(m.len)),
            ("pgoff", i(m.pgoff)),
            ("filename", X::Bytes(m.filename.to_vec())),
        ],
        Record::Mmap2(m) => {
            let mut v = vec![
                ("pid", i(m.pid as u64)),
                ("tid", i(m.tid as u64)),
                ("addr", i(m.addr)),
                ("len", i(m.len)),
                ("pgoff", i(m.pgoff)),
                ("prot", i(m.prot as u64)),
                ("flags", i(m.flags as u64)),
                ("filename", X::Bytes(m.filename.to_vec())),
            ];
            for (k, x) in [("maj", m.maj().map(|v| v as u64)), ("min", m.min().map(|v| v as u64)), ("ino", m.ino()), ("ino_generation", m.ino_generation())] {
                if let Some(x) = x {
                    v.push((k, i(x)));
                }
            }
            if let Some(b) = m.build_id() {
                v.push(("build_id", X::Hex(b.to_vec())));
            }
            v
        }
        Record::Lost(m) => vec![("id", i(m.id)), ("lost", i(m.lost))],
        Record::Comm(m) => vec![("pid", i(m.pid as u64)), ("tid", i(m.tid as u64)), ("comm", X::Bytes(m.comm.to_vec()))],
        Record::Exit(m) | Record::Fork(m) => vec![
            ("pid", i(m.pid as u64)),
            ("ppid", i(m.ppid as u64)),
            ("tid", i(m.tid as u64)),
            ("ptid", i(m.ptid as u64)),
            ("time", i(m.time)),
        ],
        Record::Throttle(m) | Record::Unthrottle(m) => vec![("time", i(m.time)), ("id", i(m.id)), ("stream_id", i(m.stream_id))],
        Record::Read(m) => vec![("pid", i(m.pid as u64)), ("tid", i(m.tid as u64)), ("values", reading_x(&m.values))],
        Record::Sample(s) => return Some(sample_x(s)),
        Record::Aux(m) => vec![("aux_offset", i(m.aux_offset)), ("aux_size", i(m.aux_size)), ("flags", dbg(&m.flags))],
        Record::ITraceStart(m) => vec![("pid", i(m.pid as u64)), ("tid", i(m.tid as u64))],
        Record::LostSamples(m) => vec![("lost", i(m.lost))],
        Record::SwitchCpuWide(m) => vec![("pid", i(m.pid() as u64)), ("tid", i(m.tid() as u64))],
        Record::Namespaces(m) => vec![
            ("pid", i(m.pid as u64)),
            ("tid", i(m.tid as u64)),
            ("namespaces", X::Items(m.namespaces.iter().map(|e| X::Fields(vec![("dev", i(e.dev)), ("inode", i(e.inode))])).collect())),
        ],
        Record::KSymbol(m) => vec![
            ("addr", i(m.addr)),
            ("len", i(m.len as u64)),
            ("ksym_type", dbg(&m.ksym_type)),
            ("flags", dbg(&m.flags)),
            ("name", X::Bytes(m.name.to_vec())),
        ],
        Record::BpfEvent(m) => vec![("ty", dbg(&m.ty)), ("flags", i(m.flags as u64)), ("id", i(m.id as u64)), ("tag", X::Bytes(m.tag.to_vec()))],
        Record::CGroup(m) => vec![("id", i(m.id)), ("path", X::Bytes(m.path.to_vec()))],
        Record::TextPoke(m) => vec![("addr", i(m.addr)), ("old_bytes", X::Bytes(m.old_bytes.to_vec())), ("new_bytes", X::Bytes(m.new_bytes.to_vec()))],
        Record::AuxOutputHwId(m) => vec![("hw_id", i(m.hw_id))],
        Record::Unknown { ty, data } => vec![("ty", i(*ty as u64)), ("data", X::Bytes(data.to_vec()))],
        _ => return None,
    }))
}

fn cfg_x<E>(c: &ParseConfig<E>, want: &Cfg, misc: u16) -> X {
    X::Fields(vec![
        ("read_format", dbg(&c.read_format())),
        ("sample_type", dbg(&c.sample_type())),
        ("sample_id_all", dbg(&want.sia)),
        ("branch_hw_index", dbg(&want.hw)),
        ("misc", X::Int(misc as u64)),
        ("regs_user", X::Int(want.ru)),
        ("regs_intr", X::Int(want.ri)),
    ])
}

fn check_text(what: &str, text: &str, x: &X) -> Result<(), String> {
    let mut t = read(text).map_err(|e| format!("{what}: text cannot be read back: {e}: {}", cut(text)))?;
    // variants of the record enum wrap their record
    while let T::Tuple(_, v) = &t {
        if v.len() != 1 {
            break;
        }
        t = v[0].clone();
    }
    matches_x(&t, x, &OPTIONAL).map_err(|e| format!("{what}: {e}; text: {}", cut(text)))
}

fn cut(s: &str) -> String {
    let mut e = s.len().min(600);
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    s[..e].to_string()
}

pub fn c17(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 17, n);
    if n % 10 == 9 {
        return errors(n, ctx);
    }
    // counted without the cases above, so that every type has its turn
    let k = (n - n / 10) % 30;
    let ty = match k {
        0..=20 => KNOWN[k as usize],
        21 => gen_unknown_type(&mut r),
        22..=24 => T_SAMPLE,
        25 | 26 => T_MMAP2,
        27 => T_READ,
        _ => r.pick(&[T_MMAP, T_COMM, T_CGROUP, T_KSYMBOL]),
    };
    let cfg = gen_cfg(&mut r);
    let b = gen_record(&mut r, ty, &cfg, Lim { s: 60, n: 8 });
    let end = r.pick(&[End::Native, End::Big]);
    let bytes = b.bytes(end.be());
    let d = gen_delivery(&mut r, bytes.len()).calm(end);
    let txt = || format!("delivery={} {}", d.text(), case_text(&b, &bytes, end));
    let mut fields = 0u64;
    let out = with_delivery!(&d, &bytes, |buf| with_end!(end, b.cfg.attr(), |c| crate::crash::guard(|| -> Result<(), String> {
        let mut p = Parser::new(buf, c);
        let (rec, md) = p.parse_record(KeepVisitor).map_err(|e| format!("parse failed: {e:?}"))?;
        if let Some(d) = r_record(&rec).diff(&b.rec) {
            return Err(format!("parsed value: {d}"));
        }
        for (style, text) in [("{:?}", format!("{rec:?}")), ("{:#?}", format!("{rec:#?}"))] {
            if let Some(x) = record_x(&rec) {
                check_text(&format!("{} as {style}", kind_name(ty)), &text, &x)?;
                if let X::Fields(f) = &x {
                    fields += f.len() as u64;
                }
            } else if text.trim() != "Switch" {
                return Err(format!("switch record is shown as {}", cut(&text)));
            }
        }
        for (style, text) in [("{:?}", format!("{:?}", md.sample_id())), ("{:#?}", format!("{:#?}", md.sample_id()))] {
            check_text(&format!("sample id as {style}"), &text, &sid_x(md.sample_id()))?;
            fields += 1;
        }
        // the metadata and the configuration
        check_text("metadata", &format!("{md:?}"), &X::Fields(vec![("ty", X::Int(md.ty() as u64)), ("misc", X::Int(md.misc() as u64)), ("sample_id", sid_x(md.sample_id()))]))?;
        check_text("configuration", &format!("{:?}", p.config()), &cfg_x(p.config(), &b.cfg, 0))?;
        check_text("configuration", &format!("{:#?}", p.config()), &cfg_x(p.config(), &b.cfg, 0))?;
        fields += 10;
        if let Record::Sample(s) = &rec {
            let id = SampleId::from_sample(s);
            check_text("sample id of a sample", &format!("{id:?}"), &sid_x(&id))?;
            // without the wrapping variant
            check_text("sample", &format!("{s:?}"), &sample_x(s))?;
            if let Some(g) = s.values() {
                check_text("group", &format!("{g:?}"), &group_x(g))?;
                if let Some(e) = g.get(0) {
                    check_text("entry", &format!("{e:?}"), &entry_x(&e))?;
                    let v = ReadValue::from_group_and_entry(g, &e);
                    check_text("reading", &format!("{v:#?}"), &reading_x(&v))?;
                }
            }
        }
        Ok(())
    })));
    let out = match out {
        Ok(Ok(())) if r.below(4) == 0 => with_end!(end, b.cfg.attr(), |c| crate::crash::guard(|| -> Result<(), String> {
            let mut p = Parser::new(&bytes[..], c);
            let (sub, md) = p.parse_metadata().map_err(|e| format!("metadata failed: {e:?}"))?;
            check_text("configuration of the body parser", &format!("{:?}", sub.config()), &cfg_x(sub.config(), &b.cfg, md.misc()))
        })),
        o => o,
    };
    ctx.evals += fields.max(1);
    ctx.n(kind_name(ty));
    ctx.add("fields_read_back", fields);
    ctx.sig(b.shape());
    match out {
        Ok(Ok(())) => {
            ctx.sample(|| format!("{} rendered, {fields} fields read back; {}", kind_name(ty), txt()));
            Ok(())
        }
        Ok(Err(m)) => viol(m, txt()),
        Err(m) => viol(format!("panic while rendering: {m}"), txt()),
    }
}

/// Error text: category, then ": " and the message.
fn errors(n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    let mut r = Rng::new(ctx.seed, 1017, n);
    let msg: String = match r.below(6) {
        0 => String::new(),
        1 => "{} {0} %s : \": \"".into(),
        2 => "line\nbreak é 漢".into(),
        3 => ": leading".into(),
        _ => format!("message {}", r.u32()),
    };
    // one error of every kind that can be produced from outside, with and without message
    let mut list: Vec<(&str, ParseError)> = vec![];
    list.push(("eof", ParseError::eof()));
    list.push(("external", ParseError::new(msg.clone())));
    list.push(("external", ParseError::new(SourceError(n))));
    list.push(("external", make_fault(FaultKind::Boxed, n)));
    list.push(("external", ParseError::from(std::io::Error::new(std::io::ErrorKind::Other, msg.clone()))));
    list.push(("eof", ParseError::from(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, msg.clone()))));
    let le = |a: perf_event_attr| -> ParseConfig<Little> { ParseConfig::from(a) };
    let mut parsed: Vec<ParseError> = vec![];
    // truncated record
    let b = gen_record(&mut r, T_LOST, &Cfg::default(), SMALL);
    let by = b.bytes(false);
    parsed.extend(Parser::new(&by[..by.len() - 1 - r.below(15)], le(Default::default())).parse::<Record>().err());
    // header smaller than itself
    let mut small = by.clone();
    small[6] = r.below(8) as u8;
    small[7] = 0;
    parsed.extend(Parser::new(&small[..], le(Default::default())).parse::<Record>().err());
    // frame too small for the trailer
    let c = Cfg { st: S_TIME | S_ID | S_CPU, sia: true, ..Default::default() };
    parsed.extend(Parser::new(&by[..], le(c.attr())).parse::<Record>().err());
    // group read on a READ record
    let c = Cfg { rf: F_GROUP, ..Default::default() };
    let rd = encode(&[W::U32(T_READ), W::U16(0), W::U16(24), W::U64(1), W::U64(2)], false);
    parsed.extend(Parser::new(&rd[..], le(c.attr())).parse::<Record>().err());
    // attr from the future
    let sz = ATTR_SIZES[8] as usize + 8;
    let mut a = vec![0u8; sz];
    a[4..8].copy_from_slice(&(sz as u32).to_le_bytes());
    a[sz - 1] = 1;
    parsed.extend(Parser::new(&a[..], le(Default::default())).parse::<perf_event_attr>().err());
    let nparsed = parsed.len();
    for e in parsed {
        let k = match e.kind() {
            ErrorKind::Eof => "eof",
            ErrorKind::InvalidRecord => "invalid",
            ErrorKind::UnsupportedConfig => "config",
            ErrorKind::UnsupportedData => "data",
            ErrorKind::External => "external",
            _ => "other",
        };
        list.push((k, e));
    }
    let mut cats: Vec<(&str, String)> = vec![];
    for (k, e) in &list {
        ctx.eval();
        let shown = match crate::crash::guard(|| (e.to_string(), format!("{e:?}{e:#?}"))) {
            Ok((s, _)) => s,
            Err(m) => return viol(format!("panic while displaying an error: {m}"), format!("{k}")),
        };
        let message = e.source().map(|s| s.to_string());
        let cat = match (*k, &message) {
            ("external", Some(m)) => {
                if shown != *m {
                    return viol(format!("external error shows {shown:?}, its message is {m:?}"), String::new());
                }
                ctx.n("error_external");
                ctx.sig(hash2(1717, hstr(m)));
                continue;
            }
            ("external", None) => continue,
            (_, Some(m)) => match shown.strip_suffix(m.as_str()).and_then(|s| s.strip_suffix(": ")) {
                Some(c) => c.to_string(),
                None => return viol(format!("{k} error shows {shown:?}; expected its category, \": \" and {m:?}"), String::new()),
            },
            (_, None) => shown.clone(),
        };
        ctx.n(&format!("error_{k}"));
        ctx.sig(hash2(1718, hstr(&shown)));
        if cat.trim().is_empty() {
            return viol(format!("{k} error shows {shown:?} without a category"), String::new());
        }
        if let Some((_, c)) = cats.iter().find(|(x, _)| x == k) {
            if *c != cat {
                return viol(format!("{k} errors show different categories {c:?} and {cat:?}"), String::new());
            }
        }
        if let Some((x, _)) = cats.iter().find(|(x, c)| x != k && *c == cat) {
            return viol(format!("{k} and {x} errors show the same category {cat:?}"), String::new());
        }
        cats.push((k, cat));
    }
    ctx.add("errors_from_parsing", nparsed as u64);
    Ok(())
}

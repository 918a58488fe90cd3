//! Deliveries (how the same bytes reach the parser) and hostile inputs.

use crate::bufs::*;
use crate::model::*;
use crate::util::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Delivery {
    /// contiguous slice at `align` bytes past an 8-byte boundary
    Slice { align: usize },
    /// chunked source
    Mon { cuts: Rc<Vec<usize>>, mask: u64, hint: bool, skew: usize },
    /// BufReader over a reader with short reads
    Reader { cap: usize, sizes: Vec<usize> },
}

impl Delivery {
    pub fn sig(&self) -> u64 {
        match self {
            Delivery::Slice { align } => hash2(1, *align as u64),
            Delivery::Mon { cuts, mask, hint, skew } => {
                let mut h = hash2(2, *hint as u64 + 2 * *skew as u64);
                for (i, c) in cuts.iter().enumerate() {
                    h = hash2(h, *c as u64 * 2 + (mask >> (i % 64) & 1));
                }
                h
            }
            Delivery::Reader { cap, sizes } => {
                let mut h = hash2(3, *cap as u64);
                for s in sizes {
                    h = hash2(h, *s as u64);
                }
                h
            }
        }
    }
    /// The same delivery with every byte at an address congruent to its stream offset when the
    /// input is in host byte order (see `kf`): for checks whose subject is not alignment.
    pub fn calm(mut self, end: crate::obs::End) -> Delivery {
        if end.host() {
            match &mut self {
                Delivery::Slice { align } => *align = 0,
                Delivery::Mon { skew, .. } => *skew = 0,
                Delivery::Reader { .. } => (),
            }
        }
        self
    }
    /// Where the bytes lie.
    pub fn geo(&self) -> crate::kf::Geo {
        match self {
            Delivery::Slice { align } => crate::kf::Geo::flat(*align),
            Delivery::Mon { cuts, mask, skew, .. } => crate::kf::Geo::chunks(cuts.clone(), *mask, *skew),
            Delivery::Reader { .. } => crate::kf::Geo::none(),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Delivery::Slice { align: 0 } => "slice_aligned",
            Delivery::Slice { .. } => "slice_misaligned",
            Delivery::Mon { cuts, mask, .. } if cuts.len() <= 1 => {
                if mask & 1 == 1 {
                    "one_temporary_chunk"
                } else {
                    "one_borrowed_chunk"
                }
            }
            Delivery::Mon { mask: 0, .. } => "borrowed_chunks",
            Delivery::Mon { mask: u64::MAX, .. } => "temporary_chunks",
            Delivery::Mon { .. } => "mixed_chunks",
            Delivery::Reader { .. } => "reader",
        }
    }
    pub fn text(&self) -> String {
        match self {
            Delivery::Mon { cuts, mask, hint, skew } => {
                let c = if cuts.len() > 24 { format!("{:?}..({} chunks)", &cuts[..24], cuts.len()) } else { format!("{cuts:?}") };
                format!("Mon cuts={c} temp_mask={mask:#x} hint={hint} address_skew={skew}")
            }
            d => format!("{d:?}"),
        }
    }
}

pub fn gen_mask(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => 0,
        1 => u64::MAX,
        _ => r.u64(),
    }
}

pub fn gen_delivery(r: &mut Rng, n: usize) -> Delivery {
    match r.below(8) {
        0 => Delivery::Slice { align: r.below(8) },
        1 => {
            let k = r.below(4);
            Delivery::Reader {
                cap: match r.below(4) {
                    0 => 1 + r.below(8),
                    1 => 8192,
                    _ => 1 + r.below(200),
                },
                sizes: (0..k).map(|_| if r.bool() { 1 + r.below(9) } else { 1 + r.below(120) }).collect(),
            }
        }
        _ => {
            let cuts = gen_cuts(r, n);
            Delivery::Mon { cuts: Rc::new(cuts), mask: gen_mask(r), hint: r.bool(), skew: if r.bool() { 0 } else { r.below(8) } }
        }
    }
}

/// Build the source for a delivery and bind it.
#[macro_export]
macro_rules! with_delivery {
    ($d:expr, $data:expr, |$b:ident| $body:expr) => {{
        match $d {
            $crate::gens::Delivery::Slice { align } => {
                let __a = $crate::bufs::AlignedBuf::new($data, *align);
                let $b = __a.get();
                $body
            }
            $crate::gens::Delivery::Mon { cuts, mask, hint, skew } => {
                let __parts = $crate::bufs::split_parts($data, cuts, *skew);
                let $b = $crate::bufs::MonBuf::split($data, &__parts, cuts.clone(), *mask, *hint);
                $body
            }
            $crate::gens::Delivery::Reader { cap, sizes } => {
                let $b = std::io::BufReader::with_capacity(*cap, $crate::bufs::ShortReader::new($data, sizes.clone()));
                $body
            }
        }
    }};
}

/// Overwrite an embedded count in encoded bytes.
pub fn set_count(bytes: &mut [u8], c: &CountPos, base: usize, v: u64, be: bool) {
    let mut t = vec![];
    put(&mut t, c.width, v, be);
    let o = base + c.off;
    bytes[o..o + c.width as usize].copy_from_slice(&t);
}

/// Interesting replacement for a count: near the truth, near what is left, huge, random.
pub fn hostile_count(r: &mut Rng, c: &CountPos, remaining: usize) -> u64 {
    let max = if c.width == 8 { u64::MAX } else { (1u64 << (8 * c.width as u32)) - 1 };
    let unit = c.unit.max(1) as u64;
    let v = match r.below(14) {
        0 => c.val.wrapping_add(1),
        1 => c.val.wrapping_sub(1),
        2 => 0,
        3 => max,
        4 => max - r.below(64) as u64,
        5 => 1 << r.below(64),
        6 => (1 << r.below(64)) + r.below(9) as u64,
        7 => remaining as u64 / unit,
        8 => remaining as u64 / unit + 1,
        9 => (u64::MAX / unit).wrapping_add(r.below(3) as u64),
        10 => (1 << 32) + c.val,
        11 => (1 << 61) + c.val,
        12 => r.v64(),
        _ => c.val.wrapping_add(r.below(20) as u64).wrapping_sub(10),
    };
    v & max
}

/// Any configuration, including ones the kernel would refuse.
pub fn gen_wild_cfg(r: &mut Rng) -> Cfg {
    let mut c = gen_cfg(r);
    match r.below(8) {
        0 => c.st = r.u64(),
        1 => c.rf = r.u64(),
        2 => c.st |= S_WEIGHT | S_WEIGHT_STRUCT,
        3 => c.rf |= 1 << (5 + r.below(59)),
        _ => (),
    }
    c
}

/// Hostile bytes for a configuration: valid, mutated, spliced, random.
pub fn gen_hostile(r: &mut Rng, c: &Cfg, be: bool) -> Vec<u8> {
    let ty = if r.bool() { T_SAMPLE } else { gen_type(r) };
    let mut safe = *c;
    safe.st &= S_ALL;
    let lim = pick_lim(r);
    let b = gen_record(r, ty, &safe, lim);
    let (mut v, pos) = encode_pos(&b.program(), be);
    let how = r.below(12);
    if how == 0 {
        return v;
    }
    if how <= 4 && !pos.is_empty() {
        let k = pos[r.below(pos.len())];
        let rem = v.len() - k.off - k.width as usize;
        let nv = hostile_count(r, &k, rem);
        set_count(&mut v, &k, 0, nv, be);
        if how > 2 {
            return v;
        }
    }
    if how <= 6 {
        let flips = 1 + r.below(6);
        for _ in 0..flips {
            let i = r.below(v.len());
            v[i] = match r.below(3) {
                0 => 0xff,
                1 => 0,
                _ => r.u8(),
            };
        }
    }
    if how == 7 || r.one_in(6) {
        // shrink or grow the frame, header size adjusted
        let n = 8 + r.below(v.len());
        v.resize(n.max(8), r.u8());
        let mut t = vec![];
        put(&mut t, 2, v.len().min(65535) as u64, be);
        v[6..8].copy_from_slice(&t);
    }
    if how == 8 {
        let n = r.below(v.len() + 1);
        v.truncate(n);
    }
    if how == 9 {
        let mut t = vec![];
        let s = if r.bool() { r.below(24) as u64 } else { r.v16() as u64 };
        put(&mut t, 2, s, be);
        v[6..8].copy_from_slice(&t);
    }
    if how == 10 {
        let n = r.below(120);
        v = r.bytes(n);
    }
    if how == 11 {
        let n = 8 + r.below(300);
        let body = r.bytes(n - 8);
        v = encode(&[W::U32(ty), W::U16(r.u16()), W::U16(n as u16), W::Bytes(body)], be);
    }
    v
}

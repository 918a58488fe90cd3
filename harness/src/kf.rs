//! Known finding KF1 (see KNOWN_FINDINGS): `Parser::parse_slice_direct` consumes its bytes even
//! when it declines because they are not aligned for the element type, so `parse_slice` then
//! reads the elements *behind* the right ones.
//!
//! It happens exactly when the input is in host byte order, the slice is not empty and lies
//! entirely in one borrowed chunk, at an address that is not aligned for the element.  `Geo`
//! knows the addresses of a delivery, the reference decoder predicts from it what KF1 makes of a
//! record, and a discrepancy counts as KF1 only if the outcome is exactly that prediction.

use crate::model::Cfg;
use crate::obs::*;
use crate::refdec::{self, RefOut};
use crate::run::Ctx;
use std::rc::Rc;

/// Where the bytes of a delivery lie: offset `o` is at an address congruent to `o + skew` mod 8.
#[derive(Clone, Debug)]
pub struct Geo {
    skew: usize,
    chunks: Option<(Rc<Vec<usize>>, u64)>,
    borrowed: bool,
}

impl Geo {
    /// one borrowed chunk
    pub fn flat(skew: usize) -> Geo {
        Geo { skew, chunks: None, borrowed: true }
    }
    /// the bytes of this slice where they are
    pub fn of(data: &[u8]) -> Geo {
        Geo::flat(data.as_ptr() as usize % 8)
    }
    pub fn chunks(cuts: Rc<Vec<usize>>, mask: u64, skew: usize) -> Geo {
        Geo { skew, chunks: Some((cuts, mask)), borrowed: true }
    }
    /// nothing borrowed
    pub fn none() -> Geo {
        Geo { skew: 0, chunks: None, borrowed: false }
    }
    /// Does KF1 apply to `len` bytes at stream offset `off` read as items of this alignment?
    pub fn misaligned(&self, off: usize, len: usize, align: usize) -> bool {
        if !self.borrowed || len == 0 || (off + self.skew) % align == 0 {
            return false;
        }
        match &self.chunks {
            None => true,
            Some((cuts, mask)) => match cuts.iter().position(|c| *c > off) {
                Some(i) => mask >> (i % 64) & 1 == 0 && off + len <= cuts[i],
                None => false,
            },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// what the ABI calls for
    Right,
    /// exactly what KF1 produces here
    Known,
    Wrong,
}

fn matches(want: &RefOut, got: &Out<Obs>) -> bool {
    match (want, got) {
        (RefOut::Ok(d), Out::Ok(o)) => {
            o.rec.diff(&d.rec).is_none()
                && o.sid.as_ref().map(|s| s.diff(&d.sid).is_none()).unwrap_or(true)
                && o.meta.map(|m| m == (d.ty, d.misc)).unwrap_or(true)
                && o.method == d.rec.kind
        }
        (RefOut::Err(_), Out::Err(_)) => true,
        _ => false,
    }
}

/// Judge the outcome of parsing the frame at `at` of a stream delivered like `geo`.
pub fn verdict(stream: &[u8], at: usize, cfg: &Cfg, end: End, geo: &Geo, got: &Out<Obs>) -> Verdict {
    let data = &stream[at.min(stream.len())..];
    if matches(&refdec::decode(data, end.be(), cfg), got) {
        Verdict::Right
    } else if end.host() && matches(&refdec::decode_q(data, end.be(), cfg, Some((geo, at))), got) {
        Verdict::Known
    } else {
        Verdict::Wrong
    }
}

/// Neither outcome is wrong, and one is the known finding.
pub fn pair_known(a: Verdict, b: Verdict) -> bool {
    a != Verdict::Wrong && b != Verdict::Wrong && (a == Verdict::Known || b == Verdict::Known)
}

/// Two deliveries of the same frame disagree: is KF1 all there is to it?
pub fn explains(stream: &[u8], at: usize, cfg: &Cfg, a: (End, &Geo, &Out<Obs>), b: (End, &Geo, &Out<Obs>), ctx: &mut Ctx) -> bool {
    let va = verdict(stream, at, cfg, a.0, a.1, a.2);
    let vb = verdict(stream, at, cfg, b.0, b.1, b.2);
    let k = pair_known(va, vb);
    if k {
        ctx.known();
    }
    k
}

/// Is the finding there? (probe: a declined read of one misaligned word)
pub fn present() -> bool {
    static P: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *P.get_or_init(|| {
        use perf_event_data::endian::Native;
        use perf_event_data::parse::{ParseConfig, Parser};
        let b = crate::bufs::AlignedBuf::new(&[0; 24], 1);
        let mut p = Parser::new(b.get(), ParseConfig::<Native>::default());
        let declined = matches!(guarded(|| Ok(unsafe { p.parse_slice_direct::<u64>(1)? }.is_none())), Out::Ok(true));
        declined && matches!(guarded(|| Ok(p.parse_rest()?.len())), Out::Ok(16))
    })
}

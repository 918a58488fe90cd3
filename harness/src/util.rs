//! PRNG, hashing, hex: everything deterministic and independent of the crate under test.

#[derive(Clone)]
pub struct Rng(u64, u64);

/// Integers that occur in the source of the crate (PEDMON_DICT, set by the driver): thresholds and
/// special values are the ones most worth trying.  Never decides anything.
fn dict() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let t = std::env::var("PEDMON_DICT").unwrap_or_default();
        t.split(',').filter_map(|x| x.parse().ok()).collect()
    })
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64, case: u64) -> Self {
        Rng(mix(mix(seed ^ 0xA5A5_5A5A_1234_4321).wrapping_add(mix(stream)) ^ mix(case.wrapping_mul(0x1000_0001_B3))), 0)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true once in n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// A value from the dictionary or next to one.
    fn word(&mut self) -> u64 {
        match dict() {
            [] => self.u64(),
            d => {
                let v = d[self.below(d.len())];
                match self.below(4) {
                    0 => v.wrapping_sub(1),
                    1 => v.wrapping_add(1),
                    _ => v,
                }
            }
        }
    }
    /// A 64-bit value from a mix of distributions.
    pub fn v64(&mut self) -> u64 {
        let v = match self.below(15) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.below(64),
            3 => self.below(256) as u64,
            4 => u64::MAX << self.below(64),
            5 => self.u32() as u64,
            6 => 0x0102_0304_0506_0708,
            7 => self.word(),
            // small negative numbers: the kernel's callchain markers are among them
            8 => {
                if self.bool() {
                    (self.pick(&[32u64, 128, 512, 2048, 2176, 2560, 4095])).wrapping_neg()
                } else {
                    (self.below(5000) as u64).wrapping_neg()
                }
            }
            9 => self.1,
            _ => self.u64(),
        };
        self.1 = v;
        v
    }
    pub fn v32(&mut self) -> u32 {
        let v = match self.below(13) {
            0 => 0,
            1 => u32::MAX,
            2 => 1 << self.below(32),
            3 => self.below(256) as u32,
            4 => self.word() as u32,
            5 => self.1 as u32,
            6 => u32::MAX << self.below(32),
            _ => self.u32(),
        };
        self.1 = v as u64;
        v
    }
    pub fn v16(&mut self) -> u16 {
        let v = match self.below(10) {
            0 => 0,
            1 => u16::MAX,
            2 => 1 << self.below(16),
            3 => self.below(256) as u16,
            4 => self.word() as u16,
            5 => self.1 as u16,
            _ => self.u16(),
        };
        self.1 = v as u64;
        v
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// A length with a bias to small and to boundary values.
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.below(12) {
            0 => 0,
            1 => 1,
            2..=5 => self.below(9),
            6 | 7 => self.below(40),
            8 => self.below(200),
            // next to a power of two, as far as `max` allows
            9 if max >= 16 => {
                let k = 4 + self.below((usize::BITS - 1 - max.leading_zeros()) as usize - 3);
                (1 << k) - 1 + self.below(3)
            }
            10 => {
                let v = self.word();
                let v = v / self.pick(&[1, 1, 8, 24]);
                if v <= max as u64 {
                    v as usize
                } else {
                    self.below(max + 1)
                }
            }
            _ => self.below(max + 1),
        };
        n.min(max)
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn hstr(s: &str) -> u64 {
    fnv(s.as_bytes())
}

pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn hex_short(b: &[u8]) -> String {
    if b.len() <= 256 {
        hex(b)
    } else {
        format!("{}...({} bytes)", hex(&b[..256]), b.len())
    }
}

pub fn json_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

static SMALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Whether the workload has to be one that an interpreter can run in reasonable time: under an
/// interpreter, and natively when the run is compared with one under an interpreter.
pub fn small() -> bool {
    cfg!(miri) || SMALL.load(std::sync::atomic::Ordering::Relaxed)
}

pub fn set_small() {
    SMALL.store(true, std::sync::atomic::Ordering::Relaxed);
}

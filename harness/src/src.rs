//! A choice sequence: every random decision of a generator is one or more bytes drawn from here.
//! In search mode bytes come from a PRNG and are recorded; in replay/shrink mode they come from a
//! fixed buffer, and reading past its end yields zeros. Zero is always the simplest choice.

pub struct SplitMix(pub u64);
impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    SplitMix(h).next()
}

pub struct Src {
    pub data: Vec<u8>,
    pos: usize,
    rng: Option<SplitMix>,
    most: usize,
}

/// The most entries of long things. The guided search keeps to small ones (the random search makes the
/// long ones); part of a replay file.
static CAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
pub const SMALL: usize = 130;
pub fn set_cap(n: usize) {
    CAP.store(n, std::sync::atomic::Ordering::Relaxed);
}
pub fn cap(n: usize) -> usize {
    n.min(CAP.load(std::sync::atomic::Ordering::Relaxed))
}
pub fn is_capped() -> bool {
    cap(usize::MAX) != usize::MAX
}

const MAX_CHOICES: usize = 1 << 16;

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { data: Vec::new(), pos: 0, rng: Some(SplitMix(seed)), most: MAX_CHOICES }
    }
    pub fn fixed(data: Vec<u8>) -> Src {
        Src { data, pos: 0, rng: None, most: MAX_CHOICES }
    }
    /// Given choices first, then random ones.
    pub fn continued(data: Vec<u8>, seed: u64) -> Src {
        Src { data, pos: 0, rng: Some(SplitMix(seed)), most: 4096 }
    }
    /// Number of choices actually read.
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn byte(&mut self) -> u8 {
        if self.pos < self.data.len() {
            self.pos += 1;
            return self.data[self.pos - 1];
        }
        match &mut self.rng {
            Some(r) if self.data.len() < self.most => {
                let b = (r.next() >> 32) as u8;
                self.data.push(b);
                self.pos += 1;
                b
            }
            _ => 0,
        }
    }
    fn word(&mut self, n: usize) -> u128 {
        let mut v = 0u128;
        for _ in 0..n {
            v = (v << 8) | self.byte() as u128;
        }
        v
    }
    /// Uniform-ish in 0..n (monotone in the choice bytes).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n <= 64 {
            (self.byte() as usize * n) >> 8
        } else if n <= 1 << 14 {
            ((self.word(2) as usize) * n) >> 16
        } else {
            ((self.word(6)) * n as u128 >> 48) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the simplest.
    pub fn ratio(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.byte() >= 128
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut k = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if k < *w {
                return i;
            }
            k -= w;
        }
        ws.len() - 1
    }
    /// A length 0..=max, biased to small.
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let b = self.byte() as usize;
        // 0..=3 with prob 3/4
        let v = if b < 192 { b / 48 } else { 4 + (b - 192) * (max.max(4) - 3) / 64 };
        v.min(max)
    }
    pub fn u128(&mut self) -> u128 {
        self.word(16)
    }
    pub fn u16(&mut self) -> u16 {
        self.word(2) as u16
    }
    pub fn u64(&mut self) -> u64 {
        self.word(8) as u64
    }
    /// An integer of at most `bits` bits with boundary bias.
    pub fn uint(&mut self, bits: u32) -> u128 {
        let max = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        if crate::dict::chance(self, 32) {
            if let Some(n) = crate::dict::num(self, 0, max) {
                return n;
            }
        }
        match self.weighted(&[4, 3, 3, 2, 3]) {
            0 => (self.below(4) as u128).min(max),
            1 => (self.below(300) as u128).min(max),
            2 => {
                // around a power of two
                let k = self.below(bits as usize + 1) as u32;
                let p = if k >= 128 { 0u128 } else { 1u128 << k };
                let d = self.below(3) as u128;
                let v = p.wrapping_add(d).wrapping_sub(1);
                if k >= bits {
                    max - d.min(max)
                } else {
                    v & max
                }
            }
            3 => max - (self.below(4) as u128).min(max),
            _ => {
                let k = 1 + self.below(bits as usize);
                let v = self.u128();
                if k >= 128 { v } else { v & ((1u128 << k) - 1) }
            }
        }
    }
    /// A signed integer of at most `bits` bits.
    pub fn sint(&mut self, bits: u32) -> i128 {
        let m = self.uint(bits - 1) as i128;
        if self.coin() { -m - 1 } else { m }
    }
    /// Random bytes.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// A 256 bit number: small, around a limit of a narrower number, or any.
    pub fn b256(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        match self.weighted(&[3, 3, 2, 4]) {
            0 => b[..16].copy_from_slice(&self.uint(128).to_le_bytes()),
            1 => {
                // the sign bit stretched
                b = [0xff; 32];
                b[..16].copy_from_slice(&self.sint(128).to_le_bytes());
            }
            2 => {
                b = [if self.coin() { 0xff } else { 0 }; 32];
                let k = self.below(32);
                b[k] = self.byte();
            }
            _ => b.iter_mut().for_each(|x| *x = self.byte()),
        }
        b
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 1..xs.len() {
            // zero choice leaves element in place
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

//! Deterministic PRNG: every random choice of the framework comes from VERIF_SEED through here.
/// The second field counts down to the one draw that comes out differently, if any.
#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    for &x in it.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), 0)
    }
    pub fn for_case(seed: u64, phase: &str, idx: u64) -> Rng {
        Rng::new(mix(seed) ^ hash_bytes(phase.as_bytes()) ^ mix(idx.wrapping_add(0x5851_F42D)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        if self.1 > 0 {
            self.1 -= 1;
            if self.1 == 0 {
                z = mix(z);
            }
        }
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// the same sequence, except for the n-th draw from here (n > 0)
    pub fn twisted(&self, n: u64) -> Rng {
        Rng(self.0, n)
    }
    /// draws left until the one that comes out differently
    pub fn until_twist(&self) -> u64 {
        self.1
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.us(hi_incl - lo + 1)
    }
    pub fn u8(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    /// true with probability n/1000
    pub fn permille(&mut self, n: u64) -> bool {
        self.below(1000) < n
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.us(s.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
}

//! Small deterministic generator (splitmix64 seeded xoshiro256**).
#[derive(Clone)]
pub struct Rng([u64; 4]);
fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64, stream: &str, index: u64) -> Self {
        let mut h = seed ^ 0xD1B5_4A32_D192_ED03;
        for b in stream.bytes() {
            h = h.wrapping_mul(0x0000_0100_0000_01B3) ^ u64::from(b);
            sm(&mut h);
        }
        h ^= index.wrapping_mul(0xA24B_AED4_963E_E407);
        let mut h2 = h;
        Self([sm(&mut h2), sm(&mut h2), sm(&mut h2), sm(&mut h2)])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.f()).exp()
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    /// a number with few significant decimal digits (so that every parser reads it exactly alike)
    pub fn short(&mut self, x: f64) -> f64 {
        let digits = 1 + self.below(4) as usize;
        format!("{x:.digits$e}").parse().unwrap()
    }
}

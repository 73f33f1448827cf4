#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// lo..=hi
    pub fn r(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.n(hi - lo + 1)
    }
    /// true with probability p percent
    pub fn p(&mut self, p: u64) -> bool {
        self.n(100) < p
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len() as u64) as usize]
    }
    pub fn w<'a, T>(&mut self, v: &'a [(T, u64)]) -> &'a T {
        let s: u64 = v.iter().map(|x| x.1).sum();
        let mut k = self.n(s);
        for x in v {
            if k < x.1 {
                return &x.0;
            }
            k -= x.1;
        }
        &v[0].0
    }
}

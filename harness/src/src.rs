//! A source of choices that records what it handed out, so that a case can be replayed
//! and made smaller.

pub struct Src {
    state: u64,
    given: Option<Vec<u64>>,
    pos: usize,
    rec: Vec<u64>,
    /// choices past the end of the given ones are random instead of zero
    extend: bool,
}

impl Src {
    pub fn new(seed: u64) -> Self {
        Src { state: seed, given: None, pos: 0, rec: Vec::with_capacity(64), extend: false }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { state: 0, given: Some(choices), pos: 0, rec: Vec::new(), extend: false }
    }
    /// A neighbour of a recorded case: a few choices are changed, and choices past its end are random.
    pub fn neighbour(choices: &[u64], seed: u64) -> Self {
        let mut g = choices.to_vec();
        let mut s = Src { state: seed, given: None, pos: 0, rec: Vec::new(), extend: false };
        for _ in 0..1 + s.raw() % 3 {
            if g.is_empty() {
                break;
            }
            let at = (s.raw() % g.len() as u64) as usize;
            g[at] = match s.raw() % 6 {
                0 => g[at].saturating_add(1),
                1 => g[at].saturating_sub(1),
                2 => s.raw() % 8,
                3 => g[(s.raw() % g.len() as u64) as usize],
                4 => s.raw() % g[at].saturating_mul(2).saturating_add(1).max(1),
                _ => s.raw() >> (s.raw() % 64),
            };
        }
        s.given = Some(g);
        s.extend = true;
        s
    }
    pub fn into_record(self) -> Vec<u64> {
        self.rec
    }
    /// A digest of the choices made so far.
    pub fn hash(&self) -> u64 {
        self.rec.iter().fold(self.rec.len() as u64, |h, &v| crate::mix(h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0 <= result < n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "below(0)");
        assert!(self.rec.len() < 20_000_000, "too many choices");
        let v = match &self.given {
            Some(g) if self.pos < g.len() || !self.extend => {
                let v = g.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
            _ => {
                let r = self.raw();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.rec.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo <= result <= hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// true with probability num/den; false is the simpler choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.us(items.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let mut r = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if r < x as u64 {
                return i;
            }
            r -= x as u64;
        }
        w.len() - 1
    }
    /// A size that is mostly small, sometimes up to max.
    pub fn size(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.below(8) {
            0..=2 => self.urange(0, max.min(4)),
            3..=5 => self.urange(0, max.min(12)),
            6 => self.urange(0, max.min(40)),
            _ => self.urange(0, max),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            // choice 0 keeps the element in place, so that simple replays are unshuffled
            v.swap(i, i - j);
        }
    }
    /// 0.0 <= result < 1.0
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 53) as f64 / (1u64 << 53) as f64
    }
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
}

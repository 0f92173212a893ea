//! Choice tape: every random decision of a case is one draw from the tape, so a case is
//! a function of the tape and shrinking the tape shrinks the case. Draw value 0 is
//! always the simplest choice; an exhausted tape yields zeros.

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, 0);
        s.1 = s.split() | 1;
        s.0 = s.split();
        s
    }
    fn split(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix stream keyed by seed
        self.split() ^ self.1.rotate_left(17)
    }
}

pub struct Tape {
    rng: Option<Rng>,
    data: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), data: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Tape { rng: None, data, pos: 0, rec: vec![] }
    }
    /// A draw in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u64;
        let v = if self.pos < self.data.len() {
            self.data[self.pos] as u64 % n
        } else if let Some(r) = &mut self.rng {
            r.next() as u32 as u64 % n
        } else {
            0
        };
        self.pos += 1;
        self.rec.push(v as u32);
        v as usize
    }
    /// A draw in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability about num/den (false is the simple choice).
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Weighted choice: index of the chosen weight.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
}

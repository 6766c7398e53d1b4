//! Every choice of a run is a draw from one tape, so that a run is a function of its tape.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone, Default)]
pub struct Tape {
    pub rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    rng: u64,
    /// groups of draws that belong together, for the shrinker
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
}
impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        Tape { rng: mix(seed ^ 0x706f646f), ..Tape::default() }
    }
    pub fn replay(v: Vec<u64>) -> Tape {
        Tape { replay: Some(v), ..Tape::default() }
    }
    /// a number below n; 0 is the simplest choice
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).map_or(0, |v| v % n),
            None => {
                self.rng = mix(self.rng);
                self.rng % n
            }
        };
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// true with probability a/b; the simplest choice is false
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.draw(b) >= b - a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    /// a u64 of which the simplest is 0
    pub fn word(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
    pub fn is_open(&self) -> bool {
        !self.open.is_empty()
    }
    pub fn begin(&mut self) {
        self.open.push(self.rec.len());
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            if self.rec.len() > s {
                self.spans.push((s, self.rec.len()));
            }
        }
    }
}

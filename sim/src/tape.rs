//! Every choice of a run is drawn from a tape: a PRNG while searching, a recorded list when
//! replaying or shrinking. 0 is always the simplest choice.

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b).rotate_left(17))
}

/// A counter based generator for bulk data derived from one drawn seed.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut x = self.0;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

#[derive(Clone, Debug)]
pub struct ListRec {
    pub count_pos: usize,
    pub items: Vec<(usize, usize)>,
}

enum Src {
    Rng(Rng),
    Fixed(Vec<u64>),
}

pub struct Tape {
    src: Src,
    pub vals: Vec<u64>,
    pub lists: Vec<ListRec>,
    mirror: Option<(*mut u64, usize)>,
    pub overrun: bool,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape {
            src: Src::Rng(Rng(seed)),
            vals: Vec::new(),
            lists: Vec::new(),
            mirror: None,
            overrun: false,
        }
    }
    pub fn fixed(vals: Vec<u64>) -> Tape {
        Tape {
            src: Src::Fixed(vals),
            vals: Vec::new(),
            lists: Vec::new(),
            mirror: None,
            overrun: false,
        }
    }
    /// Mirrors the drawn values into shared memory so that they survive a crash of the process.
    pub fn mirror_to(&mut self, ptr: *mut u64, cap: usize) {
        self.mirror = Some((ptr, cap));
    }

    /// A number in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let i = self.vals.len();
        let v = match &mut self.src {
            Src::Rng(r) => {
                if n == u64::MAX {
                    r.next()
                } else {
                    r.below(n)
                }
            }
            Src::Fixed(v) => match v.get(i) {
                Some(v) => (*v).min(n - 1),
                None => {
                    self.overrun = true;
                    0
                }
            },
        };
        self.vals.push(v);
        if let Some((ptr, cap)) = self.mirror {
            if i + 1 < cap {
                // SAFETY: the mapping holds `cap` words.
                unsafe {
                    ptr.add(i + 1).write_volatile(v);
                    ptr.write_volatile(i as u64 + 1);
                }
            }
        }
        v
    }

    pub fn seed(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// Inclusive range, the low end is the simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// True with probability num/den, false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u64) as usize].clone()
    }
    /// An index with the given weights, the first is the simplest.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        0
    }
    /// A list of `count` (drawn in `lo..=hi`) elements, the shrinker knows how to remove elements.
    pub fn list<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Tape, usize) -> T) -> Vec<T> {
        let count_pos = self.vals.len();
        let n = self.range(lo, hi);
        let mut out = Vec::with_capacity(n);
        let mut items = Vec::with_capacity(n);
        for i in 0..n {
            let s = self.vals.len();
            out.push(f(self, i));
            items.push((s, self.vals.len()));
        }
        self.lists.push(ListRec { count_pos, items });
        out
    }
    /// Marks for lists whose elements are executed one by one (histories).
    pub fn list_begin(&mut self, lo: usize, hi: usize) -> (usize, ListRec) {
        let count_pos = self.vals.len();
        let n = self.range(lo, hi);
        (n, ListRec { count_pos, items: Vec::new() })
    }
    pub fn list_end(&mut self, rec: ListRec) {
        self.lists.push(rec);
    }
}

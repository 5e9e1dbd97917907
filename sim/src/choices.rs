//! The only source of decisions of a simulated run.
//!
//! A run is a function of its list of choices. In a search the choices come from a seeded
//! generator and are recorded, in a replay they come from the recorded list. 0 is always the
//! simplest choice, so that a list can be minimised without knowledge of its meaning.

pub const MAX_CHOICES: usize = 1 << 15;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    /// SplitMix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xA24B_AED4_963E_E407));
    r.next();
    r.next()
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h, b.len() as u64)
}

enum Source {
    Rng(Rng),
    List(Vec<u32>),
}

// the record is used by one thread at a time
unsafe impl Send for Choices {}

pub struct Choices {
    source: Source,
    /// shared memory: the count and the values, so that they survive the process
    record: *mut u32,
    n: usize,
}

impl Choices {
    /// # Safety
    /// `record` has room for `MAX_CHOICES + 1` values.
    pub unsafe fn from_rng(rng: Rng, record: *mut u32) -> Self {
        record.write(0);
        Choices {
            source: Source::Rng(rng),
            record,
            n: 0,
        }
    }
    /// # Safety
    /// `record` has room for `MAX_CHOICES + 1` values.
    pub unsafe fn from_list(list: Vec<u32>, record: *mut u32) -> Self {
        record.write(0);
        Choices {
            source: Source::List(list),
            record,
            n: 0,
        }
    }
    pub fn drawn(&self) -> usize {
        self.n
    }
    /// The choices made since.
    pub fn recorded(&self, from: usize) -> Vec<u32> {
        (from..self.n).map(|i| unsafe { self.record.add(i + 1).read() }).collect()
    }
    /// A value in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n <= u32::MAX as u64);
        if n <= 1 || self.n >= MAX_CHOICES {
            return 0;
        }
        let v = match &mut self.source {
            Source::Rng(r) => r.below(n),
            Source::List(l) => l.get(self.n).map_or(0, |&v| v as u64 % n),
        };
        unsafe {
            self.record.add(self.n + 1).write(v as u32);
            self.n += 1;
            self.record.write(self.n as u32);
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// A value in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True in `num` of `den` cases.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T {
        &list[self.below(list.len())]
    }
    /// An index, chosen by weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut v = self.draw(w.iter().sum());
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// A number of repetitions: small numbers are likely.
    pub fn count(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(3, 5) {
            n += 1;
        }
        n
    }
    pub fn seed(&mut self) -> u64 {
        let a = self.draw(1 << 31);
        let b = self.draw(1 << 31);
        if a == 0 && b == 0 {
            0
        } else {
            mix(a, b)
        }
    }
    /// A text whose rendering in quotes has about `2^k` bytes.
    pub fn pad(&mut self) -> String {
        let k = self.range(9, 16);
        let exact = self.chance(1, 2);
        let length = if exact {
            // what stands about it in an output: `"`, `["`, `export default "`, `export default ["`
            (1 << k) - *self.pick(&[2, 4, 17, 19])
        } else {
            (1 << k) + 4 - self.below(48)
        };
        // a unit and its length in a file and in an output
        let &(unit, read, written) = self.pick(&[
            ("a", 1, 1),
            ("\u{e9}", 2, 6),
            ("\u{20ac}", 3, 6),
            ("\u{1F600}", 4, 12),
            ("\\", 2, 2),
            ("\"", 2, 2),
            ("\n", 2, 2),
        ]);
        let bytes = if exact { written } else { read };
        // most of it: the unit; or only its end
        let n = if self.chance(1, 2) { length / bytes } else { self.below(8) };
        let fill = "b".repeat(length - n * bytes);
        if self.chance(1, 2) {
            fill + &unit.repeat(n)
        } else {
            unit.repeat(n) + &fill
        }
    }
}

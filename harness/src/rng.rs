//! Deterministic random numbers.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    // FNV-1a followed by a finaliser.
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    splitmix(&mut h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n; 0 if n is 0.
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }

    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// True once in n times.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }

    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }

    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len());
        &s[i]
    }

    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.below(i + 1);
            s.swap(i, j);
        }
    }

    /// A number close to something that matters to encoders.
    pub fn weird(&mut self) -> u64 {
        match self.below(10) {
            0 => self.below(4) as u64,
            1 | 2 => {
                // around powers of two
                let p = self.below(64);
                (1u64 << p).wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            3 => (self.below(300) as u64).wrapping_neg(),
            4 => *self.pick(&[
                0,
                1,
                i32::MAX as u64,
                i32::MIN as i64 as u64,
                u32::MAX as u64,
                i64::MAX as u64,
                i64::MIN as u64,
                u64::MAX,
                0x8000_0000,
                0x1_0000_0000,
                0xFFFF_FFFF_8000_0000,
                0xFFFF_FFFF_7FFF_FFFF,
                127,
                128,
                255,
                256,
                16383,
                16384,
            ]),
            5 => self.below(256) as u64,
            6 => {
                let bits = self.range(1, 64);
                self.next() >> (64 - bits)
            }
            7 => {
                let bits = self.range(1, 64);
                !(self.next() >> (64 - bits))
            }
            8 => self.next() as u32 as u64,
            _ => self.next(),
        }
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(6);
        (0..n)
            .map(|_| match mode {
                0 => 0xff,
                1 => 0x80 | (self.next() as u8),
                2 => (self.next() as u8) & 0x7f,
                3 => *self.pick(&[0u8, 1, 2, 8, 10, 0x7f, 0x80, 0xff]),
                _ => self.next() as u8,
            })
            .collect()
    }
}

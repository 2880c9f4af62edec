//! Small deterministic PRNG (xoshiro256**, seeded with splitmix64).

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng(std::array::from_fn(|_| {
            s = mix(s);
            s
        }))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 33) as usize) % n.max(1)
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// 16-bit value biased to interesting corners
    pub fn corner16(&mut self) -> u16 {
        const C: [u16; 22] = [
            0, 1, 2, 7, 8, 0xf, 0x10, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x101, 0x7ffe, 0x7fff, 0x8000,
            0x8001, 0xff00, 0xff7f, 0xff80, 0xfffe, 0xffff,
        ];
        match self.below(4) {
            0 => *self.pick(&C),
            1 => self.pick(&C).wrapping_add(self.below(7) as u16).wrapping_sub(3),
            _ => self.u16(),
        }
    }
    pub fn corner8(&mut self) -> u8 {
        const C: [u8; 11] = [0, 1, 2, 7, 8, 9, 0x7f, 0x80, 0x81, 0xfe, 0xff];
        if self.bool() {
            *self.pick(&C)
        } else {
            self.u8()
        }
    }
}

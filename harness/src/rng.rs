//! Deterministic generator.  Every case derives its own seed from
//! (VERIF_SEED, check, case index), so a case replays on its own.
pub struct R {
    s: u64,
    /// probability (in 1/256) that an Option field is Some
    pub p_opt: u32,
    /// restrict strings to plain ASCII letters/digits
    pub plain: bool,
    /// restrict f32 to moderately sized values
    pub tame: bool,
    pub depth: u32,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl R {
    pub fn new(seed: u64) -> R {
        R { s: mix(seed, 0x5eed), p_opt: 128, plain: false, tame: false, depth: 0 }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut R) -> T) -> Option<T> {
        if (self.u64() & 255) < self.p_opt as u64 { Some(f(self)) } else { None }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 0x8000_0000,
            4 => 1 << self.below(32),
            5 => self.below(300) as u32,
            _ => self.u64() as u32,
        }
    }
    pub fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    pub fn u16(&mut self) -> u16 {
        self.u32() as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 13) as u8
    }
    /// finite f32, all magnitudes
    pub fn f32(&mut self) -> f32 {
        if self.tame {
            return self.tame_f32();
        }
        match self.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => -1.0,
            4 => f32::MAX,
            5 => f32::from_bits(self.below(0x7f_ffff) as u32 + 1), // subnormal
            6 => {
                let f = f32::from_bits(self.u64() as u32);
                if f.is_finite() { f } else { 0.1 }
            }
            7 => (self.below(2001) as f32 - 1000.0) / 3.0,
            8 => self.below(100000) as f32,
            _ => (self.u64() as i32 as f32) / 65536.0,
        }
    }
    pub fn tame_f32(&mut self) -> f32 {
        (self.below(2_000_001) as f32 - 1_000_000.0) / 1000.0
    }
    /// f32 in [a,b]
    pub fn f32_in(&mut self, a: f32, b: f32) -> f32 {
        a + (b - a) * (self.below(1 << 20) as f32 / (1 << 20) as f32)
    }
    /// value representable by the 8-bit quantisation used for PLST/DILI
    pub fn q8(&mut self) -> f32 {
        vpin::vpx::math::dequantize_unsigned_8(self.u8())
    }
    pub fn small_len(&mut self) -> usize {
        // rarely more than a byte counts
        if !self.plain && self.chance(1, 150) {
            return self.range(100, 300);
        }
        match self.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 3,
            4 => self.below(6),
            _ => self.below(12),
        }
    }
    pub fn word(&mut self) -> String {
        let n = self.range(1, 10);
        (0..n).map(|_| *self.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") as char).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// Latin-1 string without NUL
    pub fn latin(&mut self) -> String {
        if self.plain {
            return self.word();
        }
        // rarely longer than a byte or two bytes count
        if self.chance(1, 400) {
            let n = *self.pick(&[254, 255, 256, 257, 1000, 4097, 32_768, 65_535, 65_536, 70_001]);
            let w = self.word();
            return w.chars().cycle().take(n).collect();
        }
        match self.below(8) {
            0 => String::new(),
            1 | 2 | 3 => self.word(),
            4 => {
                let n = self.range(1, 14);
                (0..n).map(|_| char::from_u32(self.range(1, 255) as u32).unwrap()).collect()
            }
            5 => self.pick(&["ENDB", "FONT", "NAME", "a b c", " lead", "trail ", "\u{e9}\u{ff}\u{80}", "x\r\ny", "\"quoted\"", "back\\slash", "sl/ash", "..", "{}", "\u{1}"]).to_string(),
            6 => {
                let n = self.range(1, 60);
                (0..n).map(|_| char::from_u32(self.range(0x20, 0x7e) as u32).unwrap()).collect()
            }
            _ => {
                let w = self.word();
                format!("{w} {}", self.below(1000))
            }
        }
    }
    pub fn latin_max(&mut self, n: usize) -> String {
        let s = self.latin();
        s.chars().take(n).collect()
    }
    /// any unicode without NUL
    pub fn wide(&mut self) -> String {
        if self.plain {
            return self.word();
        }
        match self.below(6) {
            0 => {
                let n = self.range(1, 8);
                (0..n)
                    .map(|_| loop {
                        let c = match self.below(4) {
                            0 => self.range(1, 0x7f),
                            1 => self.range(0x80, 0x7ff),
                            2 => self.range(0x800, 0xffff),
                            _ => self.range(0x10000, 0x10ffff),
                        };
                        if let Some(c) = char::from_u32(c as u32) {
                            break c;
                        }
                    })
                    .collect()
            }
            1 => self.pick(&["Zażółć gęślą jaźń", "弾球", "🎱 ball", "é", "naïve café"]).to_string(),
            _ => self.latin(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn blob(&mut self) -> Vec<u8> {
        let n = match self.below(5) {
            _ if self.chance(1, 60) => *self.pick(&[255, 256, 4095, 4096, 4097, 8192, 65_535, 65_536, 65_537, 200_000]),
            0 => 0,
            1 => self.below(4),
            2 => self.below(64),
            3 => self.below(700),
            _ => self.below(5000),
        };
        match self.below(3) {
            0 => vec![0u8; n],
            1 => {
                let pat = *self.pick(&["ENDB", "\x04\0\0\0ENDB", "NAME", "ALTx", "abc"]);
                pat.bytes().cycle().take(n).collect()
            }
            _ => self.bytes(n),
        }
    }
}

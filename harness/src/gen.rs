//! Intended operand values, kept apart from the library's own representation.
use crate::rng::Rng;
use baa::{BitVecMutOps, BitVecOps, BitVecValue};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Val {
    pub w: u32,
    pub words: Vec<u64>,
}

pub fn nwords(w: u32) -> usize {
    ((w as usize) + 63) / 64
}
pub fn low_mask(bits: u32) -> u64 {
    if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 }
}

impl Val {
    pub fn zero(w: u32) -> Val {
        Val { w, words: vec![0; nwords(w)] }
    }
    pub fn from_words(w: u32, words: &[u64]) -> Val {
        let mut v = Val::zero(w);
        for (i, x) in words.iter().enumerate().take(v.words.len()) {
            v.words[i] = *x;
        }
        v.mask();
        v
    }
    pub fn from_u64(w: u32, x: u64) -> Val {
        Val::from_words(w, &[x])
    }
    pub fn ones(w: u32) -> Val {
        let mut v = Val { w, words: vec![u64::MAX; nwords(w)] };
        v.mask();
        v
    }
    pub fn mask(&mut self) {
        if self.w % 64 != 0 {
            *self.words.last_mut().unwrap() &= low_mask(self.w % 64);
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        (self.words[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn set(&mut self, i: u32, b: bool) {
        let m = 1u64 << (i % 64);
        if b {
            self.words[(i / 64) as usize] |= m
        } else {
            self.words[(i / 64) as usize] &= !m
        }
    }
    pub fn not(&self) -> Val {
        let mut v = self.clone();
        v.words.iter_mut().for_each(|x| *x = !*x);
        v.mask();
        v
    }
    pub fn inc(&self) -> Val {
        let mut v = self.clone();
        for x in v.words.iter_mut() {
            let (y, o) = x.overflowing_add(1);
            *x = y;
            if !o {
                break;
            }
        }
        v.mask();
        v
    }
    pub fn neg(&self) -> Val {
        self.not().inc()
    }
    pub fn bitlen(&self) -> u32 {
        (0..self.w).rev().find(|i| self.bit(*i)).map(|i| i + 1).unwrap_or(0)
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.words.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    /// the library's value, built by writing the raw words
    pub fn bv(&self) -> BitVecValue {
        let mut v = BitVecValue::zero(self.w);
        v.words_mut().copy_from_slice(&self.words);
        v
    }
    pub fn of<B: BitVecOps>(b: &B) -> Val {
        Val { w: b.width(), words: b.words().to_vec() }
    }
}
pub fn sub1(v: &Val) -> Val {
    // x - 1 = not(not(x) + 1)
    v.not().inc().not()
}

pub const CORNER: [u64; 10] = [
    0,
    1,
    u64::MAX,
    u64::MAX - 1,
    1 << 63,
    (1 << 63) - 1,
    (1 << 63) + 1,
    0x5555_5555_5555_5555,
    0xFFFF_FFFF,
    0xFFFF_FFFF_0000_0000,
];

pub fn word(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=4 => *r.pick(&CORNER),
        5 => 1u64 << r.below(64),
        6 => low_mask(r.below(65) as u32),
        7 => !low_mask(r.below(65) as u32),
        _ => r.next(),
    }
}

pub fn value(r: &mut Rng, w: u32) -> Val {
    let mut v = Val::zero(w);
    if w == 0 {
        return v;
    }
    match r.below(20) {
        0 => {}
        1 => v = Val::ones(w),
        2 => v.set(0, true),
        3 => v.set(w - 1, true),          // most negative
        4 => v = { let mut x = Val::ones(w); x.set(w - 1, false); x }, // most positive
        5 => v.set(r.below(w as u64) as u32, true),
        6 => { v = Val::ones(w); v.set(r.below(w as u64) as u32, false) }
        7 | 8 => {
            let (a, b) = (r.below(w as u64) as u32, r.below(w as u64) as u32);
            for i in a.min(b)..=a.max(b) { v.set(i, true) }
            if r.chance(1, 3) { v = v.not() }
        }
        9 => { // small number
            v.words[0] = r.below(16);
            v.mask();
        }
        10 => { // small negative number
            v.words[0] = r.below(16);
            v.mask();
            v = v.neg();
        }
        11..=15 => {
            for x in v.words.iter_mut() { *x = word(r) }
            v.mask();
        }
        16 => { // number fitting n bits, zero- or sign-extended
            let n = r.below(w as u64 + 1) as u32;
            for x in v.words.iter_mut() { *x = r.next() }
            v.mask();
            let s = n > 0 && r.chance(1, 2);
            for i in n..w { v.set(i, s) }
        }
        _ => {
            for x in v.words.iter_mut() { *x = r.next() }
            v.mask();
        }
    }
    v
}

/// an operand related to `a`
pub fn partner(r: &mut Rng, a: &Val) -> Val {
    let w = a.w;
    match r.below(18) {
        0 => a.clone(),
        16 | 17 => { // one word complemented, the others the same
            let mut b = a.clone();
            let i = r.below(b.words.len() as u64) as usize;
            b.words[i] = !b.words[i];
            b.mask();
            b
        }
        1 => a.inc(),
        2 => sub1(a),
        3 => a.not(),
        4 => a.neg(),
        5 | 6 => {
            let mut b = a.clone();
            let i = r.below(w as u64) as u32;
            b.set(i, !a.bit(i));
            b
        }
        7 | 8 => {
            let mut b = a.clone();
            let i = r.below(b.words.len() as u64) as usize;
            b.words[i] = word(r);
            b.mask();
            b
        }
        9 => { // same but for the sign
            let mut b = a.clone();
            b.set(w - 1, !a.bit(w - 1));
            b
        }
        10 => { // swapped words
            let mut b = a.clone();
            b.words.reverse();
            b.mask();
            b
        }
        _ => value(r, w),
    }
}

pub const SPECIAL: [u32; 46] = [
    1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 62, 63, 64, 65, 66, 72, 95, 96, 97, 100, 120, 126, 127, 128, 129,
    130, 160, 190, 191, 192, 193, 200, 255, 256, 257, 300, 319, 320, 321, 448, 512, 577, 640,
];

pub const LARGE: [u32; 34] = [
    384, 385, 449, 511, 512, 513, 576, 577, 639, 640, 641, 704, 767, 768, 769, 832, 896, 960, 1000, 1023, 1024, 1025, 1088,
    1152, 1279, 1280, 1281, 1536, 1600, 2047, 2048, 2049, 2112, 2240,
];
/// wider than any 16 bit counter, at and next to word boundaries
pub const HUGE: [u32; 8] = [16_384, 16_449, 32_768, 40_001, 65_535, 65_536, 65_600, 70_001];

pub fn width(r: &mut Rng) -> u32 {
    match r.below(100) {
        0..=37 => *r.pick(&SPECIAL),
        38..=62 => r.range(1, 70),
        63..=78 => r.range(60, 200),
        79..=92 => r.range(100, 330),
        93..=96 => *r.pick(&LARGE),
        _ => r.range(300, 1400),
    }
}
/// for a whole session: mostly up to `usual`, every now and then wider
pub fn session_width(r: &mut Rng, usual: u32, most: u32) -> u32 {
    if r.chance(1, 12) { loop { let w = if r.chance(1, 2) { *r.pick(&LARGE) } else { width(r) }; if w > usual.min(200) && w <= most { return w } } }
    width_upto(r, usual)
}
/// widths up to max
pub fn width_upto(r: &mut Rng, max: u32) -> u32 {
    loop {
        let w = width(r);
        if w <= max {
            return w;
        }
    }
}

//! Drivers for the side-effect free public calls.
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use baa::*;
use num_bigint::{BigInt, BigUint, Sign};

/// Evaluates `$body` with `$x` bound to a receiver holding `$v`: owned, borrowed, mutable view, or a
/// reference into the middle of a word store.
#[macro_export]
macro_rules! with_form {
    ($form:expr, $v:expr, $x:ident, $body:expr) => {{
        match $form {
            0 => { let o = $v.bv(); let $x = &o; $body }
            1 => { let o = $v.bv(); let r = baa::BitVecValueRef::from(&o); let $x = &r; $body }
            2 => { let mut o = $v.bv(); let r = baa::BitVecValueMutRef::from(&mut o); let $x = &r; $body }
            3 => {
                let mut st = vec![0xDEAD_BEEF_DEAD_BEEFu64, u64::MAX];
                st.extend_from_slice(&$v.words);
                st.extend_from_slice(&[u64::MAX, 0x0123_4567_89AB_CDEF]);
                let r = st.as_slice().get_ref(baa::BitVecValueIndex::new(2, $v.w));
                let $x = &r;
                $body
            }
            _ => {
                let mut st = vec![u64::MAX];
                st.extend_from_slice(&$v.words);
                st.extend_from_slice(&[u64::MAX, u64::MAX]);
                let r = st.as_mut_slice().get_mut_ref(baa::BitVecValueIndex::new(1, $v.w));
                let $x = &r;
                $body
            }
        }
    }};
}

pub const FORMS: u64 = 5;

pub fn bin_call(op: &str, fa: u64, fb: u64, va: &Val, vb: &Val) -> String {
    with_form!(fa, va, x, with_form!(fb, vb, y, match op {
        "add" => jbv(&x.add(y)),
        "sub" => jbv(&x.sub(y)),
        "mul" => jbv(&x.mul(y)),
        "shl" => jbv(&x.shift_left(y)),
        "lshr" => jbv(&x.shift_right(y)),
        "ashr" => jbv(&x.arithmetic_shift_right(y)),
        "and" => jbv(&x.and(y)),
        "or" => jbv(&x.or(y)),
        "xor" => jbv(&x.xor(y)),
        "concat" => jbv(&x.concat(y)),
        "ugt" => jbool(x.is_greater(y)),
        "uge" => jbool(x.is_greater_or_equal(y)),
        "ult" => jbool(x.is_less(y)),
        "ule" => jbool(x.is_less_or_equal(y)),
        "sgt" => jbool(x.is_greater_signed(y)),
        "sge" => jbool(x.is_greater_or_equal_signed(y)),
        "slt" => jbool(x.is_less_signed(y)),
        "sle" => jbool(x.is_less_or_equal_signed(y)),
        "iseq" => jbool(x.is_equal(y)),
        "isne" => jbool(x.is_not_equal(y)),
        "addop" => { let o = va.bv(); jbv(&(&o + y)) }
        "subop" => { let o = va.bv(); jbv(&(&o - y)) }
        _ => unreachable!("{op}"),
    }))
}

pub fn un_call(op: &str, fa: u64, va: &Val, n: i64, m: i64) -> String {
    with_form!(fa, va, x, match op {
        "neg" => jbv(&x.negate()),
        "not" => jbv(&x.not()),
        "bit" => jbool(x.is_bit_set(n as u32)),
        "slice" => jbv(&x.slice(n as u32, m as u32)),
        "zext" => jbv(&x.zero_extend(n as u32)),
        "sext" => jbv(&x.sign_extend(n as u32)),
        "iszero" => jbool(x.is_zero()),
        "isneg" => jbool(x.is_negative()),
        "istru" => jbool(x.is_tru()),
        "isfals" => jbool(x.is_fals()),
        "tou64" => jopt64(x.to_u64()),
        "toi64" => jopt64(x.to_i64().map(|v| v as u64)),
        "tobool" => match x.to_bool() {
            Some(b) => format!("{{\"some\":1,\"d\":[{}]}}", b as u8),
            None => "{\"some\":0,\"d\":[]}".into(),
        },
        "bitstr" => jtext(&x.to_bit_str()),
        "hexstr" => jtext(&x.to_hex_str()),
        "decstr" => jtext(&x.to_dec_str()),
        "sbitstr" => jtext(&x.to_bit_str_signed()),
        "shexstr" => jtext(&x.to_hex_str_signed()),
        "dbg" => jtext(&x_debug(fa, va)),
        "tobytes" => jbytes(&x.to_bytes_le()),
        "tobui" => { let v = crate::opt::to_big_uint(x); format!("{{\"s\":0,\"m\":{}}}", jbytes(&v.to_bytes_le())) }
        "tobi" => {
            let (s, mag) = crate::opt::to_big_int(x).to_bytes_le();
            format!("{{\"s\":{},\"m\":{}}}", (s == Sign::Minus) as u8, jbytes(&mag))
        }
        "ufix" => jfrac(crate::opt::fixed(x, false, n as u32)),
        "sfix" => jfrac(crate::opt::fixed(x, true, n as u32)),
        _ => unreachable!("{op}"),
    })
}
fn x_debug(fa: u64, va: &Val) -> String {
    let mut o = va.bv();
    let s = match fa % 3 {
        0 => format!("{:?}", o),
        1 => format!("{:?}", BitVecValueRef::from(&o)),
        _ => format!("{:?}", BitVecValueMutRef::from(&mut o)),
    };
    // the digits between the parentheses
    let a = s.find('(').map(|i| i + 1).unwrap_or(0);
    let b = s.rfind(')').unwrap_or(s.len());
    s[a..b].to_string()
}
fn jfrac(f: Option<fraction::Fraction>) -> String {
    match f {
        None => "{\"some\":0,\"neg\":0,\"num\":[],\"den\":[]}".into(),
        Some(f) => {
            let neg = matches!(f.sign(), Some(fraction::Sign::Minus)) as u8;
            match (f.numer(), f.denom()) {
                (Some(n), Some(d)) => format!(
                    "{{\"some\":1,\"neg\":{},\"num\":{},\"den\":{}}}",
                    neg, jbytes(&n.to_le_bytes()), jbytes(&d.to_le_bytes())
                ),
                // NaN or infinity: a denominator of zero is never accepted
                _ => "{\"some\":1,\"neg\":0,\"num\":[],\"den\":[]}".to_string(),
            }
        }
    }
}

pub fn bin(r: &mut Rng, op: &'static str, a: &Val, b: &Val) {
    let (fa, fb) = (r.below(FORMS), r.below(FORMS));
    record(&Ev::new(op).a(a).b(b), || bin_call(op, fa, fb, a, b));
}
pub fn un(r: &mut Rng, op: &'static str, a: &Val, n: i64, m: i64) {
    let fa = r.below(FORMS);
    record(&Ev::new(op).a(a).n(n).m(m), || un_call(op, fa, a, n, m));
}

fn all(w: u32) -> Vec<Val> {
    (0..(1u64 << w)).map(|x| Val::from_u64(w, x)).collect()
}
/// a very wide value with few features
pub fn huge_of(r: &mut Rng, w: u32) -> Val {
    let mut v = match r.below(3) { 0 => Val::zero(w), 1 => Val::ones(w), _ => { let x = word(r) | 1; let mut v = Val { w, words: vec![x; nwords(w)] }; v.mask(); v } };
    for _ in 0..r.below(4) { let i = hugepos(r, w); v.set(i, !v.bit(i)) }
    v
}
pub fn hugepos(r: &mut Rng, w: u32) -> u32 {
    match r.below(4) { 0 => w - 1, 1 => (w - 1).min(65_536 + r.below(3) as u32), 2 => r.range(w / 2, w - 1), _ => r.below(w as u64) as u32 }
}
/// calls on vectors wider than any small counter: only operations that are cheap for the specification
pub fn huge_calls(r: &mut Rng, ops: &[&'static str], n: u64) {
    for k in 0..n {
        let op = ops[k as usize % ops.len()];
        let w = *r.pick(&HUGE);
        huge_call(r, op, w)
    }
}
pub fn huge_call(r: &mut Rng, op: &'static str, w: u32) {
    let a = huge_of(r, w);
    match op {
        "bit" => { let i = hugepos(r, w); let mut v = if r.chance(1, 2) { Val::zero(w) } else { Val::ones(w) }; let j = if r.chance(2, 3) { i } else { hugepos(r, w) }; v.set(j, !v.bit(j)); un(r, "bit", &v, i as i64, 0) }
        "slice" => { let (i, j) = (hugepos(r, w), hugepos(r, w)); un(r, op, &a, i.max(j) as i64, i.min(j) as i64) }
        "zext" | "sext" => { let a = if r.chance(1, 2) { let w = r.range(1, 300); value(r, w) } else { a }; let by = *r.pick(&HUGE) + r.below(65) as u32; un(r, op, &a, by as i64, 0) }
        "concat" => { let w = r.range(1, 300); let b = value(r, w); if r.chance(1, 2) { bin(r, op, &a, &b) } else { bin(r, op, &b, &a) } }
        "shl" | "lshr" | "ashr" => { let k = match r.below(4) { 0 => w as u64, 1 => w as u64 - 1, 2 => 65_536 + r.below(3), _ => hugepos(r, w) as u64 }; let b = Val::from_u64(w, k); bin(r, op, &a, &b) }
        "and" | "or" | "xor" | "add" | "sub" => { let mut b = a.clone(); for _ in 0..3 { let i = hugepos(r, w); b.set(i, !b.bit(i)) } bin(r, op, &a, &b) }
        "ugt" | "uge" | "ult" | "ule" | "sgt" | "sge" | "slt" | "sle" | "iseq" | "isne" => {
            let mut b = a.clone();
            for _ in 0..r.below(3) { let i = hugepos(r, w); b.set(i, !b.bit(i)) }
            bin(r, op, &a, &b)
        }
        "fromu64" => { let x = word(r); record(&Ev::new("fromu64").d(&x.to_le_bytes()).n(w as i64), || jbv(&BitVecValue::from_u64(x, w))) }
        "fromi64" => { let x = word(r); record(&Ev::new("fromi64").d(&x.to_le_bytes()).n(w as i64), || jbv(&BitVecValue::from_i64(x as i64, w))) }
        "frombytes" => { let d: Vec<u8> = a.bytes()[..((w + 7) / 8) as usize].to_vec(); record(&Ev::new(op).d(&d).n(w as i64), || jbv(&BitVecValue::from_bytes_le(&d, w))) }
        "frombui" => { let b = BigUint::from_bytes_le(&a.bytes()); record(&Ev::new(op).d(&a.bytes()).n(w as i64), || jbv(&crate::opt::from_big_uint(&b, w))) }
        "parse2" | "parse16" => { let x = if op == "parse2" { 2 } else { 16 }; let t = numeral(&a.words, x); record(&Ev::new("parse").t(&t).n(x as i64).m(w as i64), || jparse(BitVecValue::from_str_radix(&t, x, w).map_err(|e| format!("{:?}", e.kind)), None)) }
        "mul" => { let b = huge_of(r, w); bin(r, op, &a, &b) }
        "frombi" => { let neg = r.chance(1, 2); let b = big(neg, &a); record(&Ev::new("frombi").d(&a.bytes()).n(w as i64).m((b.sign() == Sign::Minus) as i64), || jbv(&crate::opt::from_big_int(&b, w))) }
        "autobui" => { let b = BigUint::from_bytes_le(&a.bytes()); record(&Ev::new("autobui").d(&a.bytes()), || jbv(&crate::opt::auto_uint(&b))) }
        "autobi" => { let b = big(r.chance(1, 2), &a); let neg = b.sign() == Sign::Minus; record(&Ev::new("autobi").d(&a.bytes()).m(neg as i64), || jbv(&crate::opt::auto_int(&b))) }
        "frombit" | "fromhex" => { let x = if op == "frombit" { 2 } else { 16 }; let t = numeral(&a.words, x); auto_parse(&t, x) }
        "parse10" => { let t = numeral(&a.words, 10); record(&Ev::new("parse").t(&t).n(10).m(w as i64), || jparse(BitVecValue::from_str_radix(&t, 10, w).map_err(|e| format!("{:?}", e.kind)), None)) }
        "decsmall" => { let mut v = Val::zero(w); v.words[r.below(4) as usize] = r.next(); un(r, "decstr", &v, 0, 0) }
        _ => un(r, op, &a, 0, 0),
    }
}
/// every pair of values of the widths 1..=maxw
fn small_pairs(maxw: u32, mut f: impl FnMut(&Val, &Val)) {
    for w in 1..=maxw {
        let vs = all(w);
        for a in &vs {
            for b in &vs {
                f(a, b)
            }
        }
    }
}
/// a value of `words` words all from the corner list
fn corner(r: &mut Rng, w: u32) -> Val {
    let mut v = Val::zero(w);
    for x in v.words.iter_mut() { *x = *r.pick(&CORNER) }
    v.mask();
    v
}
fn pair(r: &mut Rng, w: u32) -> (Val, Val) {
    if r.chance(1, 3) {
        (corner(r, w), corner(r, w))
    } else {
        let a = value(r, w);
        let b = partner(r, &a);
        if r.chance(1, 2) { (a, b) } else { (b, a) }
    }
}
/// cycles through the widths 1..=W so that every width is visited, otherwise random ones
pub struct Widths { next: u32, max: u32 }
impl Widths {
    pub fn new(r: &mut Rng) -> Self { Widths { next: r.range(1, 260), max: 260 } }
    pub fn get(&mut self, r: &mut Rng) -> u32 {
        if r.chance(1, 3) {
            self.next = if self.next >= self.max { 1 } else { self.next + 1 };
            self.next
        } else {
            width(r)
        }
    }
}

pub fn c02(r: &mut Rng, n: u64) {
    const OPS: [&str; 5] = ["add", "sub", "addop", "subop", "mul"];
    small_pairs(4, |a, b| for op in ["add", "sub", "mul"] { bin(r, op, a, b) });
    for w in 1..=5 { for a in all(w) { un(r, "neg", &a, 0, 0) } }
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = ws.get(r);
        let (a, b) = pair(r, w);
        match r.below(10) {
            0..=3 => bin(r, "add", &a, &b),
            4..=6 => bin(r, "sub", &a, &b),
            7 => { let op = *r.pick(&OPS[2..4]); bin(r, op, &a, &b) }
            8 => un(r, "neg", &a, 0, 0),
            _ => {
                if w <= 330 || (w <= 1300 && r.chance(1, 8)) { bin(r, "mul", &a, &b) }
                else { let w = r.range(60, 260); let (a, b) = pair(r, w); bin(r, "mul", &a, &b) }
            }
        }
    }
}

/// interesting shift amounts for width w, as values of width w
fn amount(r: &mut Rng, w: u32) -> Val {
    let k = match r.below(16) {
        0..=2 => (r.below(w as u64 / 64 + 1)) * 64,                       // word multiple
        3..=4 => (r.below(w as u64 / 64 + 1) * 64 + r.below(3)).saturating_sub(1),
        5 => r.below(8) * 8,
        6..=8 => r.below(w as u64),
        9 => w as u64 - 1,
        10 => w as u64,
        11 => w as u64 + r.below(70),
        12 => *r.pick(&[0, 1, 63, 64, 65, 127, 128, 129, 255, 256]),
        13 => 1 << r.below(64),
        14 if w > 64 => { // one bit above the first word, and an amount that looks fine below it
            let mut v = Val::from_u64(w, r.below(w as u64));
            v.set(r.range(64, w - 1), true);
            return v;
        }
        14 => u64::MAX - r.below(2),
        _ => return { // multi-word amounts: small low word, high words set
            let mut v = value(r, w);
            if v.words.len() > 1 && r.chance(2, 3) {
                let low = if r.chance(1, 2) { r.below(w as u64) } else { 0 };
                for x in v.words.iter_mut() { if r.chance(1, 2) { *x = 0 } }
                v.words[0] = low;
                let i = 1 + r.below(v.words.len() as u64 - 1) as usize;
                if v.words[i] == 0 { v.words[i] = 1 << r.below(64) }
                v.mask();
            }
            v
        },
    };
    Val::from_u64(w, k)
}

pub fn c03(r: &mut Rng, n: u64) {
    huge_calls(r, &["shl", "lshr", "ashr"], n / 2200);
    const OPS: [&str; 3] = ["shl", "lshr", "ashr"];
    small_pairs(4, |a, b| for op in OPS { bin(r, op, a, b) });
    // every amount around every word boundary, for a few dense values
    for w in [63u32, 64, 65, 127, 128, 129, 191, 192, 193, 256, 257] {
        let mut ks: Vec<u64> = vec![0, 1, 2, w as u64 - 2, w as u64 - 1, w as u64, w as u64 + 1];
        for b in (64..=w as u64).step_by(64) { ks.extend([b - 1, b, b + 1]) }
        ks.sort(); ks.dedup();
        for k in ks {
            for op in OPS {
                let v = if r.chance(1, 2) { Val::ones(w) } else { let mut v = value(r, w); v.set(w - 1, true); v };
                bin(r, op, &v, &Val::from_u64(w, k));
            }
        }
    }
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = ws.get(r);
        let mut a = value(r, w);
        if r.chance(1, 3) { a.set(w - 1, true) }
        let s = amount(r, w);
        let op = *r.pick(&OPS);
        bin(r, op, &a, &s);
    }
}

pub fn c04(r: &mut Rng, n: u64) {
    huge_calls(r, &["bit", "and", "bit", "or", "bit", "xor", "bit", "not"], n / 1600);
    small_pairs(3, |a, b| for op in ["and", "or", "xor"] { bin(r, op, a, b) });
    for w in 1..=5 { for a in all(w) { un(r, "not", &a, 0, 0); for i in 0..w { un(r, "bit", &a, i as i64, 0) } } }
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = ws.get(r);
        let (a, b) = pair(r, w);
        match r.below(8) {
            0 | 1 => bin(r, "and", &a, &b),
            2 | 3 => bin(r, "or", &a, &b),
            4 => bin(r, "xor", &a, &b),
            5 => un(r, "not", &a, 0, 0),
            _ => {
                let i = match r.below(4) { 0 => w - 1, 1 => (r.below(a.words.len() as u64) * 64) as u32, 2 => ((r.below(a.words.len() as u64) * 64 + 63) as u32).min(w - 1), _ => r.below(w as u64) as u32 };
                // alternate lone bits and lone holes so that a wrong position shows
                let mut v = if r.chance(1, 2) { Val::zero(w) } else { Val::ones(w) };
                if r.chance(1, 3) { v = a } else { let j = if r.chance(1, 2) { i } else { r.below(w as u64) as u32 }; v.set(j, !v.bit(j)) }
                un(r, "bit", &v, i as i64, 0);
            }
        }
    }
}

/// a bit position, biased to word boundaries
fn pos(r: &mut Rng, w: u32) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => w - 1,
        2 | 3 => ((r.below(w as u64 / 64 + 1) * 64 + r.below(3)).saturating_sub(1) as u32).min(w - 1),
        _ => r.below(w as u64) as u32,
    }
}
fn ext(r: &mut Rng, w: u32) -> u32 {
    match r.below(6) {
        0 => r.below(3) as u32,
        1 | 2 => { let k = if r.chance(1, 8) { 20 } else { 3 }; let t = (w / 64 + 1 + r.below(k) as u32) * 64; t - w }     // exactly to a word boundary
        3 => { let t = (w / 64 + 1 + r.below(3) as u32) * 64; t - w + 1 }
        4 => r.below(64) as u32,
        _ => if r.chance(1, 8) { r.below(1200) as u32 } else { r.below(200) as u32 },
    }
}

pub fn c05(r: &mut Rng, n: u64) {
    huge_calls(r, &["slice", "sext", "slice", "zext", "slice", "concat"], n / 1600);
    for w in 1..=4u32 {
        for a in all(w) {
            for hi in 0..w { for lo in 0..=hi { un(r, "slice", &a, hi as i64, lo as i64) } }
            for by in 0..4 { un(r, "zext", &a, by, 0); un(r, "sext", &a, by, 0) }
            for wb in 1..=3u32 { for b in all(wb) { bin(r, "concat", &a, &b) } }
        }
    }
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = ws.get(r);
        let a = value(r, w);
        match r.below(8) {
            0..=2 => { let (x, y) = (pos(r, w), pos(r, w)); un(r, "slice", &a, x.max(y) as i64, x.min(y) as i64) }
            3 => { // width of the slice at a word boundary
                let lo = pos(r, w);
                let most = if r.chance(1, 4) { w as u64 / 64 + 1 } else { 3 };
                let len = ((r.below(most) + 1) * 64 + r.below(3) - 1) as u32;
                un(r, "slice", &a, (lo + len - 1).min(w - 1) as i64, lo as i64)
            }
            4 => { let by = ext(r, w) as i64; un(r, "zext", &a, by, 0) }
            5 => { let by = ext(r, w) as i64; let mut a = a; if r.chance(1, 2) { a.set(w - 1, true) } un(r, "sext", &a, by, 0) }
            _ => {
                let wb = if r.chance(1, 3) { let e = ext(r, w).max(1); e } else { ws.get(r).min(1100) };
                let b = value(r, wb);
                if r.chance(1, 2) { bin(r, "concat", &a, &b) } else { bin(r, "concat", &b, &a) }
            }
        }
    }
}

pub const CMP: [&str; 10] = ["ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle", "iseq", "isne"];
pub fn c06(r: &mut Rng, n: u64) {
    huge_calls(r, &["ult", "sge", "iseq", "sgt", "ule", "isne", "iszero", "isneg"], n / 1600);
    small_pairs(3, |a, b| for op in CMP { bin(r, op, a, b) });
    for w in 1..=4 { for a in all(w) { for op in ["iszero", "isneg", "istru", "isfals"] { un(r, op, &a, 0, 0) } } }
    let mut ws = Widths::new(r);
    for _ in 0..n / 4 {
        let w = ws.get(r);
        let (a, b) = pair(r, w);
        // all predicates of one pair every now and then; otherwise a few
        for _ in 0..3 { let op = *r.pick(&CMP); bin(r, op, &a, &b) }
        let op = *r.pick(&["iszero", "isneg", "istru", "isfals", "iszero", "isneg"]);
        let v = if r.chance(1, 2) { a } else {
            let mut v = Val::zero(w); if r.chance(1, 2) { let j = pos(r, w); v.set(j, true) } v };
        un(r, op, &v, 0, 0);
    }
}

pub fn c08(r: &mut Rng, n: u64) {
    huge_calls(r, &["fromu64", "tou64", "fromi64", "toi64"], n / 2200);
    for w in 1..=5u32 { for a in all(w) { for op in ["tou64", "toi64", "tobool"] { un(r, op, &a, 0, 0) } } }
    for b in [false, true] {
        record(&Ev::new("frombool").n(b as i64), || jbv(&BitVecValue::from_bool(b)));
        record(&Ev::new("frombool").n(b as i64), || jbv(&BitVecValue::from(b)));
    }
    record(&Ev::new("frombool").n(1), || jbv(&BitVecValue::tru()));
    record(&Ev::new("frombool").n(0), || jbv(&BitVecValue::fals()));
    for op in ["tou64", "toi64", "tobool"] { un(r, op, &Val::zero(0), 0, 0) }
    record(&Ev::new("fromu64").d(&[0; 8]).n(0), || jbv(&BitVecValue::from_u64(0, 0)));
    record(&Ev::new("zero").n(0), || jbv(&BitVecValue::zero(0)));
    record(&Ev::new("ones").n(0), || jbv(&BitVecValue::ones(0)));
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = ws.get(r);
        match r.below(10) {
            0..=1 => {
                let mut x = word(r);
                if w < 64 { x &= low_mask(if r.chance(1, 2) { w } else { r.below(w as u64 + 1) as u32 }) }
                if w < 64 && x > low_mask(w) { x = 0 }
                // the assign form on a target with stale contents
                let stale = value(r, w);
                let d = x.to_le_bytes();
                let form = r.below(3);
                record(&Ev::new("fromu64").d(&d).n(w as i64), || match form {
                    0 => jbv(&BitVecValue::from_u64(x, w)),
                    1 => { let mut t = stale.bv(); t.assign_from_u64(x); jbv(&t) }
                    _ => { let mut t = stale.bv(); { let mut m = BitVecValueMutRef::from(&mut t); m.assign_from_u64(x); } jbv(&t) }
                });
            }
            2..=4 => {
                let x = word(r) as i64;
                // reduce into the representable range of w bits
                let x = if w < 64 { let s = 64 - w; match r.below(3) { 0 => -(1i64 << (w - 1)), 1 => (1i64 << (w - 1)) - 1, _ => (x << s) >> s } } else { x };
                let stale = value(r, w);
                let d = x.to_le_bytes();
                let form = r.below(3);
                record(&Ev::new("fromi64").d(&d).n(w as i64), || match form {
                    0 => jbv(&BitVecValue::from_i64(x, w)),
                    1 => { let mut t = stale.bv(); t.assign_from_i64(x); jbv(&t) }
                    _ => { let mut t = stale.bv(); { let mut m = BitVecValueMutRef::from(&mut t); m.assign_from_i64(x); } jbv(&t) }
                });
            }
            5 => {
                record(&Ev::new("zero").n(w as i64), || jbv(&BitVecValue::zero(w)));
                record(&Ev::new("ones").n(w as i64), || jbv(&BitVecValue::ones(w)));
            }
            k => {
                // values around the 64 bit limits, zero- and sign-extended, and with a flaw in the extension
                let mut v = Val::zero(w);
                match r.below(5) {
                    0 => v = value(r, w),
                    4 if w > 64 => { // a word and one bit above it that is not as the rest
                        if r.chance(1, 2) { v = Val::ones(w) }
                        v.words[0] = word(r);
                        let i = r.range(64, w - 1);
                        v.set(i, !v.bit(i));
                    }
                    k2 => {
                        let x = match r.below(3) { 0 => *r.pick(&CORNER), 1 => i64::MIN as u64, _ => word(r) };
                        let neg = if k2 == 1 { false } else if k2 == 2 { true } else { x >> 63 == 1 };
                        for i in 0..w { let b = if i < 64 { (x >> i) & 1 == 1 } else { neg }; v.set(i, b) }
                        if r.chance(1, 4) { let i = pos(r, w); v.set(i, !v.bit(i)) }
                    }
                }
                let op = match k { 6 => "tou64", 7 | 8 => "toi64", _ => *r.pick(&["tobool", "tou64", "toi64"]) };
                un(r, op, &v, 0, 0);
            }
        }
    }
}

pub fn c09(r: &mut Rng, n: u64) {
    huge_calls(r, &["bitstr", "hexstr"], n / 2200);
    const OPS: [&str; 6] = ["bitstr", "hexstr", "decstr", "sbitstr", "shexstr", "dbg"];
    for w in 1..=5u32 { for a in all(w) { for op in OPS { un(r, op, &a, 0, 0) } } }
    for op in ["bitstr", "hexstr", "decstr"] { un(r, op, &Val::zero(0), 0, 0) }
    // both extremes and -1 at every width up to 200
    for w in 1..=200u32 {
        for op in ["sbitstr", "shexstr"] {
            if r.chance(1, 2) { let mut v = Val::zero(w); v.set(w - 1, true); un(r, op, &v, 0, 0) }
            if r.chance(1, 4) { un(r, op, &Val::ones(w), 0, 0) }
            if r.chance(1, 4) { let mut v = Val::ones(w); v.set(w - 1, false); un(r, op, &v, 0, 0) }
        }
    }
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = ws.get(r);
        let mut v = value(r, w);
        let mut op = *r.pick(&OPS);
        if r.chance(1, 4) { op = *r.pick(&["decstr", "sbitstr", "shexstr"]) }
        if op == "decstr" {
            // powers of ten, values around the 64/128 bit limits
            if v.bitlen() > if r.chance(1, 10) { 1300 } else { 400 } || r.chance(1, 4) {
                let keep = *r.pick(&[1, 20, 63, 64, 65, 100, 127, 128]);
                for i in keep..w { v.set(i, false) }
            }
            if r.chance(1, 8) {
                let mut x: u128 = 1;
                for _ in 0..r.below(39) { x *= 10 }
                if r.chance(1, 2) { x -= 1 }
                v = Val::from_words(w, &[x as u64, (x >> 64) as u64]);
                if w > 128 && r.chance(1, 2) { // a large power of ten (or one less)
                    let mut b = BigUint::from(10u32).pow(r.below((w as u64) * 3 / 10) as u32);
                    if r.chance(1, 2) { b -= 1u32 }
                    v = Val::from_words(w, &b.to_u64_digits());
                }
            }
        }
        un(r, op, &v, 0, 0);
    }
}

// ---- parsing ----
/// numeral of the number with the given bits (LSB first words), in a radix, by repeated division
fn numeral(words: &[u64], radix: u32) -> String {
    BigUint::from_slice(&words.iter().flat_map(|w| [*w as u32, (*w >> 32) as u32]).collect::<Vec<_>>()).to_str_radix(radix)
}
fn mixed_case(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
/// a text for parsing into w bits
pub fn text(r: &mut Rng, radix: u32, w: u32) -> String {
    // the magnitude: up to a bit more than w bits
    let mag = match r.below(8) {
        0 | 1 => { let len = w + r.below(3) as u32; let mut v = Val::zero(len.max(1)); v.set(len.max(1) - 1, true); if r.chance(1, 2) { v = sub1(&v) } v }
        2 => { let len = w + r.below(130) as u32; value(r, len.max(1)) }
        3 => Val::from_u64(64, r.below(40)),
        _ => value(r, w.max(1)),
    };
    let mut s = numeral(&mag.words, radix);
    if r.chance(1, 8) {
        // digit patterns: as many digits as fill some words (or one fewer or more)
        let mut per = 0;
        while (radix as u128).pow(per + 1) <= 1u128 << 64 { per += 1 }
        let k = if r.chance(1, 3) { r.below(w as u64 / 64 + 2) } else { r.below(3) };
        let n = (k * per as u64 + r.below(3)).saturating_sub(1).max(1);
        let (lo, hi) = ('0', char::from_digit(radix - 1, radix).unwrap());
        let kind = r.below(4);
        s = (0..n).map(|i| match kind { 0 => hi, 1 => if i == 0 { '1' } else { lo }, 2 => if i == 0 || i == n - 1 { '1' } else { lo },
            _ => char::from_digit(r.below(radix as u64) as u32, radix).unwrap() }).collect();
    }
    s = mixed_case(r, &s);
    if r.chance(1, 4) {
        let z = match r.below(12) { 0..=3 => r.below(3), 4..=7 => r.below(70), 8 => 250 + r.below(400), _ => 64 };
        s = "0".repeat(z as usize) + &s;
    }
    if r.chance(1, 8) { // a flaw somewhere
        let bad = *r.pick(&["g", "G", "z", "/", ":", "@", "`", "[", "{", " ", "_", "-", "+", ".", "x", "2", "8", "9", "a", "\u{e9}", "\u{0}", "\u{ff11}", "\u{661}", "\u{b2}", "\u{ff21}", "\u{212a}", "\u{2212}", "\n", "\t", ",", "'", "0x", "e", "E5", "h", "u8"]);
        let i = r.below(s.len() as u64 + 1) as usize;
        s.insert_str(i, bad);
        if r.chance(1, 3) && s.len() > bad.len() { // replace rather than insert
            let j = i + bad.len();
            if j < s.len() { s.remove(j); }
        }
    }
    if r.chance(1, 40) { s.insert_str(0, *r.pick(&["0x", "0X", "0b", "0B", "0o", "x", "#", "$", "'h", "0h", "\\x", "0_", "0 ", "u"])) }
    let sign = match r.below(10) { 0..=3 => "-", 4 => "+", 5 if r.chance(1, 6) => *r.pick(&["-+", "--", "+-", "++"]), _ => "" };
    if r.chance(1, 60) { return sign.to_string() }
    format!("{sign}{s}")
}
fn jparse(res: Result<BitVecValue, String>, target: Option<&BitVecValue>) -> String {
    match res {
        Ok(v) => format!("{{\"k\":\"ok\",\"v\":{}}}", jbv(&v)),
        Err(k) => format!("{{\"k\":\"{}\",\"v\":{}}}", k, target.map(jbv).unwrap_or("{\"w\":0,\"d\":[]}".into())),
    }
}
pub fn parse_event(r: &mut Rng, t: &str, radix: u32, w: u32) {
    match r.below(5) {
        0..=2 => record(&Ev::new("parse").t(t).n(radix as i64).m(w as i64), || {
            jparse(BitVecValue::from_str_radix(t, radix, w).map_err(|e| format!("{:?}", e.kind)), None)
        }),
        k => {
            if w == 0 { return }
            let stale = value(r, w);
            record(&Ev::new("parsein").a(&stale).t(t).n(radix as i64), || {
                let mut v = stale.bv();
                let res = if k == 3 { v.assign_from_str_radix(t, radix) } else {
                    let mut m = BitVecValueMutRef::from(&mut v);
                    m.assign_from_str_radix(t, radix)
                };
                match res {
                    Ok(()) => jparse(Ok(v), None),
                    Err(e) => jparse(Err(format!("{:?}", e.kind)), Some(&v)),
                }
            })
        }
    }
}
fn auto_parse(t: &str, radix: u32) {
    if radix == 2 {
        record(&Ev::new("frombit").t(t), || jparse(BitVecValue::from_bit_str(t).map_err(|e| format!("{:?}", e.kind)), None))
    } else {
        record(&Ev::new("fromhex").t(t), || jparse(BitVecValue::from_hex_str(t).map_err(|e| format!("{:?}", e.kind)), None))
    }
}
pub fn c10(r: &mut Rng, n: u64) {
    huge_calls(r, &["parse2", "parse16"], n / 2200);
    for sign in ["", "-", "+"] { // more digits than 16 bits count
        let w = *r.pick(&HUGE[5..]);
        let (a, x) = (huge_of(r, w), if r.chance(1, 4) { 16 } else { 2 });
        let t = numeral(&a.words, x);
        auto_parse(&format!("{sign}{}{t}", "0".repeat((w as usize).saturating_sub(t.len()))), x);
    }
    // every text of up to three characters over a small alphabet, into small widths
    let alpha = ["0", "1", "2", "9", "a", "F", "g", "-", "+", " "];
    let mut texts = vec![String::new()];
    let mut prev = texts.clone();
    for _ in 0..3 {
        let mut next = vec![];
        for p in &prev { for c in alpha { next.push(format!("{p}{c}")) } }
        texts.extend(next.iter().cloned());
        prev = next;
    }
    for t in &texts {
        if t.len() < 3 || r.chance(1, 3) {
            let radix = *r.pick(&[2, 10, 16, 8, 36]);
            let w = *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 12]);
            parse_event(r, t, radix, w);
        }
        if t.len() < 3 || r.chance(1, 3) { let x = *r.pick(&[2, 16]); auto_parse(t, x) }
    }
    // short texts into every kind of target
    for t in ["", "-", "+", "0", "1", "-1", "-0", "+0", "+1", "00", "-00", "f", "-f"] {
        for w in [0u32, 1, 4, 63, 64, 65, 128, 129, 192, 200] {
            for radix in [2, 16, 10] { parse_event(r, t, radix, w) }
        }
        auto_parse(t, 2); auto_parse(t, 16);
    }
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = ws.get(r);
        let radix = if w > 330 && !(w <= 1200 && r.chance(1, 8)) { *r.pick(&[2, 16]) }
            else if r.chance(1, 4) { r.range(2, 36) } else { *r.pick(&[2, 10, 16, 16, 2, 10, 8, 3, 7, 36]) };
        let t = text(r, radix, w);
        if r.chance(1, 4) { let x = *r.pick(&[2, 16]); let t = text(r, x, w); auto_parse(&t, x) } else { parse_event(r, &t, radix, w) }
    }
}

// ---- bytes and big integers ----
fn big(sign_neg: bool, mag: &Val) -> BigInt {
    BigInt::from_bytes_le(if sign_neg { Sign::Minus } else { Sign::Plus }, &mag.bytes())
}
pub fn c11(r: &mut Rng, n: u64) {
    huge_calls(r, &["tobytes", "frombytes", "tobui", "frombui"], n / 2200);
    let autou = |v: &Val| {
        let b = BigUint::from_bytes_le(&v.bytes());
        record(&Ev::new("autobui").d(&v.bytes()), || jbv(&crate::opt::auto_uint(&b)));
    };
    let autoi = |neg: bool, v: &Val| {
        let b = big(neg, v);
        let neg = b.sign() == Sign::Minus;
        record(&Ev::new("autobi").d(&v.bytes()).m(neg as i64), || jbv(&crate::opt::auto_int(&b)));
    };
    for w in 1..=5u32 {
        for a in all(w) {
            for op in ["tobytes", "tobui", "tobi"] { un(r, op, &a, 0, 0) }
            autou(&a); autoi(false, &a); autoi(true, &a);
        }
    }
    for op in ["tobytes", "tobui", "tobi"] { un(r, op, &Val::zero(0), 0, 0) }
    record(&Ev::new("frombytes").d(&[]).n(0), || jbv(&BitVecValue::from_bytes_le(&[], 0)));
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = ws.get(r);
        let v = value(r, w);
        match r.below(10) {
            0 => un(r, "tobytes", &v, 0, 0),
            1 => un(r, "tobui", &v, 0, 0),
            2 | 3 => un(r, "tobi", &v, 0, 0),
            4 | 5 => {
                // any number of bytes that the words can hold; short and over-long input included
                let full = v.words.len() * 8;
                let need = ((w + 7) / 8) as usize;
                let len = match r.below(4) { 0 => r.below(full as u64 + 1) as usize, 1 => full, _ => need };
                let d: Vec<u8> = (0..len).map(|_| match r.below(4) { 0 => 0, 1 => 0xff, _ => r.next() as u8 }).collect();
                record(&Ev::new("frombytes").d(&d).n(w as i64), || jbv(&BitVecValue::from_bytes_le(&d, w)));
            }
            6 => {
                let wm = match r.below(3) { 0 => w, 1 => w + r.below(140) as u32, _ => ws.get(r) };
                let m = value(r, wm);
                let b = BigUint::from_bytes_le(&m.bytes());
                record(&Ev::new("frombui").d(&m.bytes()).n(w as i64), || jbv(&crate::opt::from_big_uint(&b, w)));
            }
            7 => {
                let wm = match r.below(3) { 0 => w, 1 => w + r.below(140) as u32, _ => ws.get(r) };
                let m = value(r, wm);
                let b = big(r.chance(1, 2), &m);
                let neg = (b.sign() == Sign::Minus) as i64;
                record(&Ev::new("frombi").d(&m.bytes()).n(w as i64).m(neg), || jbv(&crate::opt::from_big_int(&b, w)));
            }
            8 => autou(&v),
            _ => { let x = r.chance(1, 2); autoi(x, &v) }
        }
    }
}

pub fn c12(r: &mut Rng, n: u64) {
    for w in 1..=4u32 { for a in all(w) { for f in 0..=w { for op in ["ufix", "sfix"] { un(r, op, &a, f as i64, 0) } } } }
    let mut ws = Widths::new(r);
    for _ in 0..n {
        let w = if r.chance(3, 4) { r.range(1, 66) } else { ws.get(r).min(400) };
        let mut v = value(r, w);
        if w > 64 && r.chance(1, 2) { for i in 64..w { v.set(i, false) } }
        // f <= width is the documented contract
        let f = match r.below(5) { 0 => w.min(63), 1 => w.min(64), 2 => w, _ => r.below(w as u64 + 1) as u32 };
        let op = *r.pick(&["ufix", "sfix"]);
        un(r, op, &v, f as i64, 0);
    }
}

/// performs the calls that the specification enumerated (GenCalls.tla); `variant` rotates the kinds of receivers
pub fn script(r: &mut Rng, dir: &str, variant: u64) {
    let text = std::fs::read_to_string(format!("{dir}/script.ndjson")).unwrap();
    let val = |e: &serde_json::Value| -> Val {
        let d: Vec<u8> = e["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let words: Vec<u64> = d.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        Val { w: e["w"].as_u64().unwrap() as u32, words }
    };
    let bytes = |e: &serde_json::Value| -> Vec<u8> { e.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
    for (k, line) in text.lines().enumerate() {
        let e: serde_json::Value = serde_json::from_str(line).unwrap();
        let op: &'static str = Box::leak(e["op"].as_str().unwrap().to_string().into_boxed_str());
        let (a, b, n, m, d) = (val(&e["a"]), val(&e["b"]), e["n"].as_i64().unwrap(), e["m"].as_i64().unwrap(), bytes(&e["d"]));
        let t = String::from_utf8(bytes(&e["t"])).unwrap();
        let f = k as u64 + variant;
        let w = n as u32;
        let stale = |r: &mut Rng, w: u32| if w == 0 { Val::zero(0) } else { value(r, w) };
        match op {
            "add" | "sub" | "mul" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "concat" | "ugt" | "uge" | "ult" | "ule" | "sgt" | "sge" | "slt" | "sle" | "iseq" | "isne" => {
                let op = match (op, f % 7) { ("add", 6) => "addop", ("sub", 6) => "subop", _ => op };
                let (fa, fb) = (f % FORMS, (f / FORMS + variant) % FORMS);
                record(&Ev::new(op).a(&a).b(&b), || bin_call(op, fa, fb, &a, &b));
            }
            "fromu64" | "fromi64" => {
                let x = u64::from_le_bytes(d.as_slice().try_into().unwrap());
                let t = stale(r, w);
                let signed = op == "fromi64";
                record(&Ev::new(op).d(&d).n(n), || match f % 3 {
                    0 => jbv(&if signed { BitVecValue::from_i64(x as i64, w) } else { BitVecValue::from_u64(x, w) }),
                    1 => { let mut t = t.bv(); if signed { t.assign_from_i64(x as i64) } else { t.assign_from_u64(x) } jbv(&t) }
                    _ => { let mut t = t.bv(); { let mut q = BitVecValueMutRef::from(&mut t); if signed { q.assign_from_i64(x as i64) } else { q.assign_from_u64(x) } } jbv(&t) }
                });
            }
            "zero" => {
                let t = stale(r, w);
                record(&Ev::new(op).n(n), || if f % 2 == 0 { jbv(&BitVecValue::zero(w)) } else { let mut t = t.bv(); t.clear(); jbv(&t) })
            }
            "ones" => {
                let t = stale(r, w);
                record(&Ev::new(op).n(n), || if f % 2 == 0 { jbv(&BitVecValue::ones(w)) } else { let mut t = t.bv(); t.assign_ones(); jbv(&t) })
            }
            "parse" => {
                let (x, w) = (n as u32, m as u32);
                if w == 0 || f % 3 == 0 {
                    record(&Ev::new("parse").t(&t).n(n).m(m), || jparse(BitVecValue::from_str_radix(&t, x, w).map_err(|e| format!("{:?}", e.kind)), None));
                } else {
                    let s = stale(r, w);
                    record(&Ev::new("parsein").a(&s).t(&t).n(n), || {
                        let mut v = s.bv();
                        let res = if f % 3 == 1 { v.assign_from_str_radix(&t, x) } else { BitVecValueMutRef::from(&mut v).assign_from_str_radix(&t, x) };
                        match res { Ok(()) => jparse(Ok(v), None), Err(e) => jparse(Err(format!("{:?}", e.kind)), Some(&v)) }
                    });
                }
            }
            "frombit" => auto_parse(&t, 2),
            "fromhex" => auto_parse(&t, 16),
            "frombytes" => record(&Ev::new(op).d(&d).n(n), || jbv(&BitVecValue::from_bytes_le(&d, w))),
            "frombui" | "autobui" => {
                let q = BigUint::from_bytes_le(&d);
                record(&Ev::new(op).d(&d).n(n), || jbv(&if op == "frombui" { crate::opt::from_big_uint(&q, w) } else { crate::opt::auto_uint(&q) }));
            }
            "frombi" | "autobi" => {
                let q = BigInt::from_bytes_le(if m == 1 { Sign::Minus } else { Sign::Plus }, &d);
                let m = (q.sign() == Sign::Minus) as i64;
                record(&Ev::new(op).d(&d).n(n).m(m), || jbv(&if op == "frombi" { crate::opt::from_big_int(&q, w) } else { crate::opt::auto_int(&q) }));
            }
            _ => { let fa = f % FORMS; record(&Ev::new(op).a(&a).n(n).m(m), || un_call(op, fa, &a, n, m)) }
        }
    }
}

//! C01: programs over registers, every result fed back as an operand.
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::with_form;
use baa::*;
use num_bigint::{BigInt, BigUint, Sign};
use std::hash::{Hash, Hasher};

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// The observation of a produced vector: raw words, and whether it behaves like a vector rebuilt from its bits alone.
pub fn observe(v: &BitVecValue) -> String {
    let w = v.width();
    let mut bits = Val::zero(w);
    for i in 0..w {
        bits.set(i, v.is_bit_set(i));
    }
    let fresh = bits.bv();
    let eq = *v == fresh && fresh == *v && BitVecValueRef::from(v) == fresh && v.is_equal(&fresh);
    let hash = hash_of(v) == hash_of(&fresh) && hash_of(&BitVecValueRef::from(v)) == hash_of(&BitVecValueRef::from(&fresh));
    format!("\"r\":{},\"eq\":{},\"hash\":{},\"isz\":{}", jbv(v), eq as u8, hash as u8, v.is_zero() as u8)
}
pub const NOTHING: &str = "\"r\":{\"w\":0,\"d\":[]},\"eq\":1,\"hash\":1,\"isz\":1";

pub fn c01(r: &mut Rng, n: u64) {
    let mut left = n as i64;
    let mut huge = (1 + n / 20_000).min(3);
    while left > 0 {
        let base = session_width(r, 330, 1400);
        // now and then wider than any small counter
        let base = if huge > 0 { huge -= 1; *r.pick(&HUGE) } else { base };
        let mut regs: Vec<BitVecValue> = (0..5)
            .map(|_| { let w = if r.chance(2, 3) { base } else { width_upto(r, 200) }; value(r, w).bv() })
            .collect();
        let wd: Vec<String> = regs.iter().map(|v| v.width().to_string()).collect();
        emit(&format!("{{\"op\":\"reset\",\"wd\":[{}]}}", wd.join(",")));
        let mut interner = ValueInterner::new();
        for _ in 0..40 {
            left -= 1;
            if !step(r, &mut regs, &mut interner) { break }
        }
    }
}

fn step(r: &mut Rng, regs: &mut [BitVecValue], interner: &mut ValueInterner) -> bool {
    let k = regs.len();
    let dst = r.below(k as u64) as usize;
    let s1 = r.below(k as u64) as usize;
    let same: Vec<usize> = (0..k).filter(|i| regs[*i].width() == regs[s1].width()).collect();
    let s2 = *r.pick(&same);
    let any = r.below(k as u64) as usize;
    let (a, b, c) = (Val::of(&regs[s1]), Val::of(&regs[s2]), Val::of(&regs[any]));
    let (w, wc) = (a.w, c.w);
    let (fa, fb) = (r.below(5), r.below(5));
    let mut second = s2;
    let (mut pn, mut pm, mut t) = (0i64, 0i64, String::new());
    type R = Result<BitVecValue, BitVecValue>; // Err: the target of a failed in-place parse, or a dummy
    let op: &'static str;
    let f: Box<dyn FnOnce() -> R + '_>;
    match r.below(30) {
        0..=9 => {
            op = *r.pick(&["add", "sub", "mul", "shl", "shl", "lshr", "ashr", "and", "or", "xor"]);
            let mut b = b;
            if (op == "shl" || op == "lshr" || op == "ashr") && r.chance(2, 3) {
                // a moderate amount, kept in a register of its own: the width is what counts
                let k = match r.below(3) { 0 => r.below(w as u64 / 64 + 1) * 64, 1 => r.below(w as u64), _ => r.below(w as u64 + 3) };
                b = Val::from_u64(w, k);
            }
            f = Box::new(move || Ok(with_form!(fa, a, x, with_form!(fb, b, y, match op {
                "add" => x.add(y), "sub" => x.sub(y), "mul" => x.mul(y), "shl" => x.shift_left(y),
                "lshr" => x.shift_right(y), "ashr" => x.arithmetic_shift_right(y), "and" => x.and(y), "or" => x.or(y), _ => x.xor(y) }))));
        }
        10..=11 => { op = *r.pick(&["neg", "not"]); f = Box::new(move || Ok(with_form!(fa, a, x, if op == "neg" { x.negate() } else { x.not() }))) }
        12..=14 => {
            op = "slice";
            let (x, y) = (r.below(w as u64) as u32, r.below(w as u64) as u32);
            let (mut hi, lo) = (x.max(y), x.min(y));
            if r.chance(1, 3) { hi = (lo + (r.below(3) as u32 + 1) * 64 - 1).min(w - 1) }
            pn = hi as i64; pm = lo as i64;
            f = Box::new(move || Ok(with_form!(fa, a, x, x.slice(hi, lo))));
        }
        15 => {
            if w + wc > 400 && !(w + wc < 2600 && r.chance(1, 6)) { return true }
            op = "concat"; second = any;
            f = Box::new(move || Ok(with_form!(fa, a, x, with_form!(fb, c, y, x.concat(y)))));
        }
        16..=17 => {
            if w > 1400 { return true }
            op = *r.pick(&["zext", "sext"]);
            let by = match r.below(3) { 0 => (64 - w % 64) % 64, 1 => r.below(4) as u32, _ => if r.chance(1, 10) { r.below(1300) as u32 } else { r.below(130) as u32 } };
            pn = by as i64;
            f = Box::new(move || Ok(with_form!(fa, a, x, if op == "zext" { x.zero_extend(by) } else { x.sign_extend(by) })));
        }
        18..=20 => {
            op = *r.pick(&["zero", "ones", "fromu64", "fromi64", "frombytes", "frombui", "frombi", "frombool"]);
            let w = session_width(r, 330, 1400);
            pn = w as i64;
            let mut x = word(r);
            let mut y = word(r) as i64;
            if w < 64 { x &= low_mask(w); y = (y << (64 - w)) >> (64 - w) }
            let words = nwords(w);
            let bytes: Vec<u8> = (0..r.below(words as u64 * 8 + 1)).map(|_| r.next() as u8 | 0x80).collect();
            let wm = session_width(r, 400, 1400);
            let m = value(r, wm);
            let neg = r.chance(1, 2);
            f = Box::new(move || Ok(match op {
                "zero" => BitVecValue::zero(w),
                "ones" => BitVecValue::ones(w),
                "fromu64" => BitVecValue::from_u64(x, w),
                "fromi64" => BitVecValue::from_i64(y, w),
                "frombytes" => BitVecValue::from_bytes_le(&bytes, w),
                "frombui" => crate::opt::from_big_uint(&BigUint::from_bytes_le(&m.bytes()), w),
                "frombi" => crate::opt::from_big_int(&BigInt::from_bytes_le(if neg { Sign::Minus } else { Sign::Plus }, &m.bytes()), w),
                _ => BitVecValue::from_bool(neg),
            }));
        }
        21..=22 => {
            op = *r.pick(&["parse", "frombit", "fromhex", "parsein", "parsein"]);
            let radix = match op { "frombit" => 2, "fromhex" => 16, _ => if r.chance(1, 4) { r.range(2, 36) } else { *r.pick(&[2u32, 16, 10, 16, 8, 7, 36]) } };
            let w = if op == "parsein" { wc } else { session_width(r, 330, 1200) };
            t = crate::calls::text(r, radix, w);
            if (op == "frombit" || op == "fromhex") && crate::canon::derived(&t, radix) == 0 { return true }
            pn = w as i64;
            if op == "parsein" { second = any; }
            let t = t.clone();
            let old = c.clone();
            f = Box::new(move || match op {
                "parse" => BitVecValue::from_str_radix(&t, radix, w).map_err(|_| BitVecValue::zero(0)),
                "frombit" => BitVecValue::from_bit_str(&t).map_err(|_| BitVecValue::zero(0)),
                "fromhex" => BitVecValue::from_hex_str(&t).map_err(|_| BitVecValue::zero(0)),
                _ => { let mut v = old.bv(); match v.assign_from_str_radix(&t, radix) { Ok(()) => Ok(v), Err(_) => Err(v) } }
            });
        }
        23..=25 => {
            op = *r.pick(&["assign", "setones", "clear", "setbit", "clearbit", "setu64", "seti64", "mask"]);
            // the target is register `any`
            second = any;
            let i = r.below(wc as u64) as u32;
            let i = if r.chance(1, 3) { wc - 1 } else { i };
            pn = i as i64;
            let mut x = word(r);
            let mut y = word(r) as i64;
            if wc < 64 { x &= low_mask(wc); y = (y << (64 - wc)) >> (64 - wc) }
            if op == "assign" && w != wc { return true }
            let mutref = r.chance(1, 2);
            f = Box::new(move || {
                let mut v = c.bv();
                fn go<M: BitVecMutOps>(v: &mut M, op: &str, i: u32, x: u64, y: i64, a: &Val) {
                    match op {
                        "assign" => v.assign(&a.bv()), "setones" => v.assign_ones(), "clear" => v.clear(),
                        "setbit" => v.set_bit(i), "clearbit" => v.clear_bit(i), "setu64" => v.assign_from_u64(x),
                        "seti64" => v.assign_from_i64(y), _ => v.mask_msb(),
                    }
                }
                if mutref { let mut m = BitVecValueMutRef::from(&mut v); go(&mut m, op, i, x, y, &a) } else { go(&mut v, op, i, x, y, &a) }
                Ok(v)
            });
        }
        _ => {
            op = *r.pick(&["clone", "ofref", "slab", "intern", "dense", "sparse", "todense", "serde"]);
            let iw = r.below(4) as u32 + 1;
            let i = r.below(1 << iw);
            let def = value(r, w);
            let bincode = r.chance(1, 2);
            let regs_a = regs[s1].clone();
            let mut r3 = r.clone();
            f = Box::new(move || Ok(match op {
                "clone" => { let mut x = def.bv(); if bincode { x = value(&mut r3, wc).bv() } x.clone_from(&regs_a); x }
                "ofref" => BitVecValue::from(BitVecValueRef::from(&regs_a)),
                "intern" => { let ix = interner.get_index(&regs_a); BitVecValue::from(interner.words().get_ref(ix)) }
                "slab" => {
                    let n = nwords(w);
                    let mut st = vec![u64::MAX; n + 3];
                    let ix = BitVecValueIndex::new(1, w);
                    st.as_mut_slice().get_mut_ref(ix).assign(&regs_a);
                    BitVecValue::from(st.as_slice().get_ref(ix))
                }
                "dense" | "sparse" | "todense" => {
                    let mut arr = if op == "dense" { ArrayValue::new_dense(iw, &def.bv()) } else { ArrayValue::new_sparse(iw, &def.bv()) };
                    arr.store(&BitVecValue::from_u64(i, iw), &regs_a);
                    if op == "todense" { arr.make_dense() }
                    arr.select(&BitVecValue::from_u64(i, iw))
                }
                _ => crate::opt::vector(&regs_a, bincode),
            }));
        }
    }
    let inplace = matches!(op, "assign" | "setones" | "clear" | "setbit" | "clearbit" | "setu64" | "seti64" | "mask" | "parsein");
    let dst = if inplace { any } else { dst };
    let head = format!("{{\"op\":\"{op}\",\"dst\":{},\"s1\":{},\"s2\":{},\"n\":{pn},\"m\":{pm},\"t\":{},", dst + 1, s1 + 1, second + 1, jtext(&t));
    // producing and observing the vector both belong to the call
    let res = guard(&head, || f().map(|v| { let s = observe(&v); (v, s) }).map_err(|v| if inplace { let s = observe(&v); Some((v, s)) } else { None }));
    match res {
        Ok(Ok((v, s))) => { emit(&format!("{head}\"o\":\"ok\",{s}}}")); regs[dst] = v; true }
        Ok(Err(Some((v, s)))) => { emit(&format!("{head}\"o\":\"err\",{s}}}")); regs[dst] = v; true }
        Ok(Err(None)) => { emit(&format!("{head}\"o\":\"err\",{NOTHING}}}")); true }
        Err(o) => { emit(&format!("{head}\"o\":\"{o}\",{NOTHING}}}")); false }
    }
}
/// width derived from a text (as documented: digits times bits per digit, one more for a minus)
pub fn derived(t: &str, radix: u32) -> u32 {
    let n = t.len() - (t.starts_with('-') || t.starts_with('+')) as usize;
    n as u32 * if radix == 2 { 1 } else { 4 } + t.starts_with('-') as u32
}

/// calls listed by GenCalls, each in a session of its own: registers 1 and 2 hold the operands, 3 gets the result
pub fn script(r: &mut Rng, dir: &str, variant: u64) {
    let text = std::fs::read_to_string(format!("{dir}/script.ndjson")).unwrap();
    for (k, line) in text.lines().enumerate() {
        let e: serde_json::Value = serde_json::from_str(line).unwrap();
        let op = e["op"].as_str().unwrap();
        let (a, b) = (crate::walks::call_val(&e["a"]), crate::walks::call_val(&e["b"]));
        let (mut n, mut m) = (e["n"].as_i64().unwrap(), e["m"].as_i64().unwrap());
        let bytes = |k: &str| -> Vec<u8> { e[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
        let (d, t) = (bytes("d"), String::from_utf8(bytes("t")).unwrap());
        let f = k as u64 + variant;
        let (fa, fb) = (f % 5, (f / 5 + variant) % 5);
        if (op == "frombit" || op == "fromhex") && derived(&t, if op == "frombit" { 2 } else { 16 }) == 0 { continue }
        let (hi, lo, radix) = (n as u32, m as u32, n as u32);
        if op == "parse" { n = m; m = 0 }
        let w = n as u32;
        let name = match op { "parse" if w > 0 && f % 2 == 0 => "parsein", _ => op };
        let inplace = matches!(op, "fromu64" | "fromi64" | "zero" | "ones") && f % 2 == 0;
        let name = if !inplace { name } else { match op { "fromu64" => "setu64", "fromi64" => "seti64", "zero" => "clear", _ => "setones" } };
        let old = if w == 0 || (name == op) { Val::zero(0) } else { value(r, w) };
        let target = if name == op { b.w } else { w };
        emit(&format!("{{\"op\":\"reset\",\"wd\":[{},{},{target}],\"a\":{},\"b\":{}}}", a.w, if name == op { b.w } else { w }, jval(&a), jval(&b)));
        let x = || u64::from_le_bytes(d.as_slice().try_into().unwrap());
        let head = format!("{{\"op\":\"{name}\",\"dst\":3,\"s1\":1,\"s2\":2,\"n\":{n},\"m\":{m},\"t\":{},", jtext(&t));
        let res: Result<Result<(BitVecValue, String), Option<String>>, &'static str> = guard(&head, || {
            let v: Result<BitVecValue, Option<BitVecValue>> = match name {
                "neg" => Ok(with_form!(fa, a, x, x.negate())),
                "not" => Ok(with_form!(fa, a, x, x.not())),
                "slice" => Ok(with_form!(fa, a, x, x.slice(hi, lo))),
                "zext" => Ok(with_form!(fa, a, x, x.zero_extend(hi))),
                "sext" => Ok(with_form!(fa, a, x, x.sign_extend(hi))),
                "fromu64" => Ok(BitVecValue::from_u64(x(), w)),
                "fromi64" => Ok(BitVecValue::from_i64(x() as i64, w)),
                "zero" => Ok(BitVecValue::zero(w)),
                "ones" => Ok(BitVecValue::ones(w)),
                "frombytes" => Ok(BitVecValue::from_bytes_le(&d, w)),
                "frombui" => Ok(crate::opt::from_big_uint(&BigUint::from_bytes_le(&d), w)),
                "frombi" => Ok(crate::opt::from_big_int(&BigInt::from_bytes_le(if e["m"] == 1 { Sign::Minus } else { Sign::Plus }, &d), w)),
                "parse" => BitVecValue::from_str_radix(&t, radix, w).map_err(|_| None),
                "frombit" => BitVecValue::from_bit_str(&t).map_err(|_| None),
                "fromhex" => BitVecValue::from_hex_str(&t).map_err(|_| None),
                "parsein" | "setu64" | "seti64" | "clear" | "setones" => {
                    let mut v = old.bv();
                    fn go<M: BitVecMutOps>(v: &mut M, name: &str, t: &str, radix: u32, x: u64) -> bool {
                        match name {
                            "setu64" => v.assign_from_u64(x), "seti64" => v.assign_from_i64(x as i64), "clear" => v.clear(),
                            "setones" => v.assign_ones(), _ => return v.assign_from_str_radix(t, radix).is_ok(),
                        }
                        true
                    }
                    let q = if d.len() == 8 { x() } else { 0 };
                    let ok = if f % 4 < 2 { go(&mut v, name, &t, radix, q) } else { go(&mut BitVecValueMutRef::from(&mut v), name, &t, radix, q) };
                    if ok { Ok(v) } else { Err(Some(v)) }
                }
                _ => Ok(with_form!(fa, a, x, with_form!(fb, b, y, match name {
                    "add" => x.add(y), "sub" => x.sub(y), "mul" => x.mul(y), "shl" => x.shift_left(y), "lshr" => x.shift_right(y),
                    "ashr" => x.arithmetic_shift_right(y), "and" => x.and(y), "or" => x.or(y), "xor" => x.xor(y), _ => x.concat(y) }))),
            };
            match v { Ok(v) => { let s = observe(&v); Ok((v, s)) } Err(Some(v)) => Err(Some(observe(&v))), Err(None) => Err(None) }
        });
        match res {
            Ok(Ok((_, s))) => emit(&format!("{head}\"o\":\"ok\",{s}}}")),
            Ok(Err(Some(s))) => emit(&format!("{head}\"o\":\"err\",{s}}}")),
            Ok(Err(None)) => emit(&format!("{head}\"o\":\"err\",{NOTHING}}}")),
            Err(o) => emit(&format!("{head}\"o\":\"{o}\",{NOTHING}}}")),
        }
    }
}

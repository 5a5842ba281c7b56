//! C13 (and C19 for vectors): in-place mutation histories over registers held as owned values, behind mutable
//! views, or side by side in one word store.
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use baa::*;

pub enum Bank {
    /// each register owns its storage
    Owned(Vec<BitVecValue>),
    /// all registers in one store, with unused words around them
    Slab { words: Vec<u64>, idx: Vec<BitVecValueIndex> },
}

impl Bank {
    pub fn new(slab: bool, vals: &[Val], r: &mut Rng) -> Bank {
        if !slab {
            return Bank::Owned(vals.iter().map(|v| v.bv()).collect());
        }
        // layout in random order
        let mut order: Vec<usize> = (0..vals.len()).collect();
        for i in (1..order.len()).rev() { let j = r.below(i as u64 + 1) as usize; order.swap(i, j) }
        let mut words = vec![];
        let mut idx = vec![BitVecValueIndex::new(0, 1); vals.len()];
        for i in order {
            for _ in 0..r.below(3) { words.push(r.next() | 1) }
            idx[i] = BitVecValueIndex::new(words.len() as u32, vals[i].w);
            words.extend_from_slice(&vals[i].words);
        }
        for _ in 0..r.below(3) { words.push(u64::MAX) }
        Bank::Slab { words, idx }
    }
    pub fn get(&self, i: usize) -> Val {
        match self {
            Bank::Owned(v) => Val::of(&v[i]),
            Bank::Slab { words, idx } => Val::of(&words.as_slice().get_ref(idx[i])),
        }
    }
    fn pad(&self) -> Vec<u8> {
        match self {
            Bank::Owned(_) => vec![],
            Bank::Slab { words, idx } => {
                let mut used = vec![false; words.len()];
                for i in idx { for k in i.to_range() { used[k] = true } }
                words.iter().zip(used).filter(|(_, u)| !u).flat_map(|(w, _)| w.to_le_bytes()).collect()
            }
        }
    }
    pub fn log(&self, n: usize) -> String {
        let regs: Vec<String> = (0..n).map(|i| jval(&self.get(i))).collect();
        format!("\"regs\":[{}],\"pad\":{}", regs.join(","), jbytes(&self.pad()))
    }
    fn with_mut<R>(&mut self, d: usize, view: bool, f: impl FnOnce(&mut dyn Target) -> R) -> R {
        match self {
            Bank::Owned(v) => if view { f(&mut BitVecValueMutRef::from(&mut v[d])) } else { f(&mut v[d]) },
            Bank::Slab { words, idx } => {
                let mut m = if view { words.as_mut_slice().get_mut_ref(&idx[d]) } else { words.as_mut_slice().get_mut_ref(idx[d]) };
                f(&mut m)
            }
        }
    }
}
/// object safe form of the mutating operations
pub trait Target {
    fn apply(&mut self, o: &Op) -> &'static str;
    fn assign_val(&mut self, v: &Val, form: u64);
}
pub struct Op { pub name: &'static str, pub n: i64, pub x: u64, pub t: String }
impl<M: BitVecMutOps> Target for M {
    fn apply(&mut self, o: &Op) -> &'static str {
        match o.name {
            "ones" => self.assign_ones(),
            "clear" => self.clear(),
            "setbit" => self.set_bit(o.n as u32),
            "clearbit" => self.clear_bit(o.n as u32),
            "setu64" => self.assign_from_u64(o.x),
            "seti64" => self.assign_from_i64(o.x as i64),
            "mask" => self.mask_msb(),
            "parse" => return match self.assign_from_str_radix(&o.t, o.n as u32) {
                Ok(()) => "ok",
                Err(e) => match format!("{:?}", e.kind).as_str() { "ExceedsWidth" => "ExceedsWidth", "InvalidDigit" => "InvalidDigit", _ => "other" },
            },
            _ => unreachable!(),
        }
        "ok"
    }
    fn assign_val(&mut self, v: &Val, form: u64) {
        let mut o = v.bv();
        match form {
            0 => self.assign(&o),
            1 => self.assign(BitVecValueRef::from(&o)),
            _ => { let st = v.words.clone(); self.assign(st.as_slice().get_ref(BitVecValueIndex::new(0, v.w))); o.clear() }
        }
    }
}

pub fn c13(r: &mut Rng, n: u64) { run(r, n, false) }
pub fn c19(r: &mut Rng, n: u64) { run(r, n, true) }

/// all (value, operation) combinations of small widths, as two-step sessions (set the value, then mutate)
fn small(r: &mut Rng) -> u64 {
    let mut c = 0;
    for w in 1..=3u32 {
        for x in 0..(1u64 << w) {
            let mut ops: Vec<Op> = vec![];
            for name in ["ones", "clear", "mask"] { ops.push(Op { name, n: 0, x: 0, t: String::new() }) }
            for i in 0..w as i64 { for name in ["setbit", "clearbit"] { ops.push(Op { name, n: i, x: 0, t: String::new() }) } }
            for y in 0..(1u64 << w) {
                ops.push(Op { name: "setu64", n: 0, x: y, t: String::new() });
                ops.push(Op { name: "seti64", n: 0, x: (((y << (64 - w)) as i64) >> (64 - w)) as u64, t: String::new() });
                ops.push(Op { name: "parse", n: 2, x: 0, t: format!("{y:b}") });
                ops.push(Op { name: "parse", n: 16, x: 0, t: format!("-{y:x}") });
            }
            let slab = r.chance(1, 2);
            let vals = [Val::from_u64(w, x), Val::from_u64(w, !x)];
            let mut bank = Bank::new(slab, &vals, r);
            emit(&format!("{{\"op\":\"reset\",{}}}", bank.log(2)));
            for o in ops {
                let view = r.chance(1, 2);
                if !perform(&mut bank, 2, 0, view, &o) { break }
                if !assign(&mut bank, 2, 0, view, &vals[0], r.below(3)) { break }
                c += 2;
            }
        }
    }
    c
}

fn head(op: &str, dst: usize, s: usize, n: i64, x: u64, t: &str, v: &Val) -> String {
    format!("{{\"op\":\"{op}\",\"dst\":{},\"s\":{},\"n\":{n},\"x\":{},\"t\":{},\"v\":{},", dst + 1, s + 1, jbytes(&x.to_le_bytes()), jtext(t), jval(v))
}
fn done(bank: &Bank, k: usize, h: &str, res: Result<&'static str, &'static str>) -> bool {
    match res {
        Ok(kind) => { emit(&format!("{h}\"o\":\"ok\",\"k\":\"{kind}\",{}}}", bank.log(k))); true }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\",\"k\":\"ok\",\"regs\":[],\"pad\":[]}}")); false }
    }
}
pub fn perform(bank: &mut Bank, k: usize, d: usize, view: bool, o: &Op) -> bool {
    let h = head(o.name, d, 0, o.n, o.x, &o.t, &Val::zero(0));
    let res = guard(&h, || bank.with_mut(d, view, |m| m.apply(o)));
    done(bank, k, &h, res)
}
pub fn assign(bank: &mut Bank, k: usize, d: usize, view: bool, v: &Val, form: u64) -> bool {
    let h = head("assignv", d, 0, 0, 0, "", v);
    let res = guard(&h, || bank.with_mut(d, view, |m| m.assign_val(v, form))).map(|_| "ok");
    done(bank, k, &h, res)
}

fn run(r: &mut Rng, n: u64, serde: bool) {
    let mut left = n as i64;
    if !serde { left -= small(r) as i64 }
    for w in [*r.pick(&HUGE[..4]), *r.pick(&HUGE[4..])] { huge(r, w, serde) }
    while left > 0 {
        let k = 3;
        let base = session_width(r, 200, 1300);
        let vals: Vec<Val> = (0..k).map(|_| { let w = if r.chance(3, 5) { base } else { width_upto(r, 200) }; value(r, w) }).collect();
        let slab = !serde && r.chance(1, 2);
        let mut bank = Bank::new(slab, &vals, r);
        emit(&format!("{{\"op\":\"reset\",{}}}", bank.log(k)));
        for _ in 0..25 {
            left -= 1;
            if !step(r, &mut bank, k, serde) { break }
        }
    }
}

/// vectors wider than any small counter, in histories of a few steps
fn huge(r: &mut Rng, w: u32, serde: bool) {
    let vals: Vec<Val> = (0..2).map(|_| crate::calls::huge_of(r, w)).collect();
    let mut bank = Bank::new(!serde && r.chance(1, 2), &vals, r);
    emit(&format!("{{\"op\":\"reset\",{}}}", bank.log(2)));
    let op = |name, n: i64, x: u64, t: &str| Op { name, n, x, t: t.to_string() };
    let zero = Val::zero(0);
    if serde {
        let fresh = crate::calls::huge_of(r, w);
        let set = op("setbit", crate::calls::hugepos(r, w) as i64, 0, "");
        let _ = replace(&mut bank, 2, 1, 0, "serde", &zero, 0) && replace(&mut bank, 2, 0, 1, "serde", &zero, 1)
            && replace(&mut bank, 2, 0, 0, "new", &fresh, 0) && perform(&mut bank, 2, 0, true, &set)
            && replace(&mut bank, 2, 1, 0, "serde", &zero, 1) && replace(&mut bank, 2, 1, 0, "serde", &zero, 0);
        return;
    }
    let digits: String = std::iter::repeat('7').take(crate::calls::hugepos(r, w) as usize / 4).collect();
    let x = word(r);
    let mut ops = vec![op("setbit", crate::calls::hugepos(r, w) as i64, 0, ""), op("clearbit", w as i64 - 1, 0, ""), op("ones", 0, 0, ""), op("clearbit", crate::calls::hugepos(r, w) as i64, 0, ""),
        op("seti64", 0, x | 1 << 63, ""), op("mask", 0, 0, ""), op("setu64", 0, x, ""), op("ones", 0, 0, ""), op("parse", 16, 0, &format!("-{digits}")), op("clear", 0, 0, ""), op("parse", 16, 0, &digits)];
    if r.chance(1, 2) { ops.reverse() }
    for (k, o) in ops.iter().enumerate() {
        let (d, view) = (r.below(2) as usize, r.chance(1, 2));
        if !perform(&mut bank, 2, d, view, o) { return }
        if k % 4 == 1 && !assign_from(&mut bank, 2, 1 - d, d, view) { return }
        if k == 6 { let v = crate::calls::huge_of(r, w); let f = r.below(3); if !assign(&mut bank, 2, d, view, &v, f) || matches!(bank, Bank::Owned(_)) && !replace(&mut bank, 2, 1 - d, d, "clone", &zero, 1) { return } }
    }
}
fn step(r: &mut Rng, bank: &mut Bank, k: usize, serde: bool) -> bool {
    let d = r.below(k as u64) as usize;
    let w = bank.get(d).w;
    let view = r.chance(1, 2);
    let choice = if serde && r.chance(2, 3) { 12 } else { r.below(12) };
    match choice {
        0 | 1 => {
            // assign from another register of the same width
            let c: Vec<usize> = (0..k).filter(|i| *i != d && bank.get(*i).w == w).collect();
            if c.is_empty() { return true }
            let s = *r.pick(&c);
            assign_from(bank, k, d, s, view)
        }
        2 => { let v = value(r, w); let f = r.below(3); assign(bank, k, d, view, &v, f) }
        3 => perform(bank, k, d, view, &Op { name: *r.pick(&["ones", "clear", "mask"]), n: 0, x: 0, t: String::new() }),
        4..=6 => {
            let n = match r.below(3) { 0 => w - 1, 1 => ((r.below(nwords(w) as u64) * 64 + r.below(2) * 63) as u32).min(w - 1), _ => r.below(w as u64) as u32 };
            perform(bank, k, d, view, &Op { name: *r.pick(&["setbit", "clearbit"]), n: n as i64, x: 0, t: String::new() })
        }
        7 => { let mut x = word(r); if w < 64 { x &= low_mask(w) } perform(bank, k, d, view, &Op { name: "setu64", n: 0, x, t: String::new() }) }
        8 => { let mut x = word(r) as i64; if w < 64 { x = (x << (64 - w)) >> (64 - w) } perform(bank, k, d, view, &Op { name: "seti64", n: 0, x: x as u64, t: String::new() }) }
        9 => {
            let radix = if r.chance(1, 4) { r.range(2, 36) } else { *r.pick(&[2u32, 16, 10, 8, 36]) };
            let t = crate::calls::text(r, radix, w);
            perform(bank, k, d, view, &Op { name: "parse", n: radix as i64, x: 0, t })
        }
        10 => {
            // reads must not change anything
            let h = head("noop", d, 0, 0, 0, "", &Val::zero(0));
            let s = r.below(k as u64) as usize;
            let res = guard(&h, || {
                let read = |a: &BitVecValueRef, b: &BitVecValueRef| {
                    let _ = (a.to_bit_str(), a.to_hex_str_signed(), a.negate(), a.not(), crate::opt::to_big_int(a), a.is_zero(), a.concat(b));
                    if a.width() == b.width() { let _ = (a.add(b), a.is_greater_or_equal(b), a.shift_left(b)); }
                };
                // what they return, or whether they fail, is decided elsewhere
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match bank {
                    Bank::Owned(v) => read(&BitVecValueRef::from(&v[d]), &BitVecValueRef::from(&v[s])),
                    Bank::Slab { words, idx } => { let (a, b) = words.as_slice().get_ref((idx[d], idx[s])); read(&a, &b) }
                }));
                "ok"
            });
            done(bank, k, &h, res)
        }
        c => {
            let Bank::Owned(v) = bank else { return true };
            let s = r.below(k as u64) as usize;
            let (kind, form) = (r.below(4), r.below(2));
            let name = if c == 12 { if kind == 0 && !serde { "new" } else { "serde" } } else { "clone" };
            let fresh = { let w = if r.chance(1, 2) { bank_width(v, s) } else { width_upto(r, 200) }; value(r, w) };
            let name = if serde && r.chance(1, 6) { "new" } else { name };
            replace(bank, k, d, s, name, &fresh, form)
        }
    }
}
/// assign register s to register d
pub fn assign_from(bank: &mut Bank, k: usize, d: usize, s: usize, view: bool) -> bool {
    let h = head("assign", d, s, 0, 0, "", &Val::zero(0));
    let res = guard(&h, || match bank {
        Bank::Owned(v) => {
            let (x, y) = if d < s { let (a, b) = v.split_at_mut(s); (&mut a[d], &b[0]) } else { let (a, b) = v.split_at_mut(d); (&mut b[0], &a[s]) };
            if view { BitVecValueMutRef::from(x).assign(y) } else { x.assign(BitVecValueRef::from(y)) }
        }
        Bank::Slab { words, idx } => {
            let (mut x, y) = words.as_mut_slice().get_mut_ref((idx[d], idx[s]));
            x.assign(y)
        }
    }).map(|_| "ok");
    done(bank, k, &h, res)
}
/// register d becomes a clone of register s, a deserialized copy of it, or the new vector
pub fn replace(bank: &mut Bank, k: usize, d: usize, s: usize, name: &str, fresh: &Val, form: u64) -> bool {
    let Bank::Owned(v) = bank else { return true };
    let h = head(name, d, s, 0, 0, "", if name == "new" { fresh } else { ZERO.get_or_init(|| Val::zero(0)) });
    let res = guard(&h, || {
        let x = match name {
            "clone" if form == 1 && d != s => { let (x, y) = if d < s { let (a, b) = v.split_at_mut(s); (&mut a[d], &b[0]) } else { let (a, b) = v.split_at_mut(d); (&mut b[0], &a[s]) }; x.clone_from(y); return }
            "clone" => v[s].clone(),
            "new" => fresh.bv(),
            _ => crate::opt::vector(&v[s], form == 0),
        };
        // the copy compares equal to the original (the specification sees a wrong value otherwise)
        if name == "serde" && !(x == v[s] && v[s] == x && crate::canon::hash_of(&x) == crate::canon::hash_of(&v[s])) { panic!("copy differs") }
        v[d] = x;
    }).map(|_| "ok");
    done(bank, k, &h, res)
}
static ZERO: std::sync::OnceLock<Val> = std::sync::OnceLock::new();
fn bank_width(v: &[BitVecValue], i: usize) -> u32 { v[i].width() }

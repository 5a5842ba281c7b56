//! C07 (equality, hashing, order), C14 (indexed access to a word store), C15 (interning).
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use baa::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- C07
/// a second hasher (FNV-1a over the byte stream) besides the standard one
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) { for b in bytes { self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3) } }
}
fn hashes<T: Hash>(x: &T) -> Vec<u8> {
    let mut f = Fnv(0xcbf29ce484222325);
    x.hash(&mut f);
    let mut v = crate::canon::hash_of(x).to_le_bytes().to_vec();
    v.extend(f.finish().to_le_bytes());
    v
}
fn ord(o: Ordering) -> i32 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }

/// a vector reached by a different route (which must not matter)
fn route(r: &mut Rng, v: &Val) -> BitVecValue {
    let x = v.bv();
    match r.below(9) {
        0 => x.clone(),
        1 => x.not().not(),
        2 => BitVecValue::from(BitVecValueRef::from(&x)),
        3 => x.zero_extend(70).slice(v.w - 1, 0),
        4 => BitVecValue::from_bytes_le(&x.to_bytes_le(), v.w),
        5 if v.w > 1 => { let m = v.w / 2; x.slice(v.w - 1, m).concat(&x.slice(m - 1, 0)) }
        6 => crate::opt::from_big_uint(&crate::opt::to_big_uint(&x), v.w),
        7 => x.add(&BitVecValue::zero(v.w)),
        _ => x,
    }
}
/// a vector and the value it has; the plain one if the route fails or leads to something that is not well formed
fn routed(r: &mut Rng, v: &Val) -> (BitVecValue, Val) {
    let mut r2 = r.clone();
    r.next();
    match guard("{\"op\":\"route\",", || { let x = route(&mut r2, v); let v = Val::of(&x); (x, v) }) {
        Ok((x, v)) if { let mut m = v.clone(); m.mask(); m == v && v.words.len() == nwords(v.w) } => (x, v),
        _ => (v.bv(), v.clone()),
    }
}
fn related(r: &mut Rng, pool: &[Val]) -> Val {
    let p = r.pick(pool).clone();
    match r.below(10) {
        0 | 1 => p,
        2..=4 => partner(r, &p),
        5 | 6 => { // same number, other width
            let w = match r.below(4) { 0 => p.w + 1, 1 => (p.w - 1).max(1), 2 => p.w + 64, _ => session_width(r, 300, 1300) };
            Val::from_words(w, &p.words)
        }
        7 => { let w = session_width(r, 300, 1300); value(r, w) }
        _ => value(r, p.w),
    }
}

/// a map without random keys: whether a lookup compares its key with another one is the same in every run
pub type Map = HashMap<BitVecValue, i64, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>;

pub fn c07(r: &mut Rng, n: u64) {
    // all pairs of the vectors of at most two bits (and zero widths against others)
    emit("{\"op\":\"reset\"}");
    let small: Vec<Val> = (1..=2u32).flat_map(|w| (0..1u64 << w).map(move |x| Val::from_u64(w, x))).collect();
    for a in &small { for b in &small { if !pair(r, a, b) { break } } }
    // wider than any small counter
    for w in [*r.pick(&HUGE[..4]), *r.pick(&HUGE[4..])] {
        emit("{\"op\":\"reset\"}");
        let a = crate::calls::huge_of(r, w);
        let mut b = a.clone();
        let i = crate::calls::hugepos(r, w);
        b.set(i, !b.bit(i));
        let c = Val::from_words(w + 1, &a.words);
        let low = Val::from_words(w % 65_536 + 1, &a.words);
        let _ = pair(r, &a, &b) && pair(r, &a, &c) && pair(r, &b, &a) && pair(r, &a, &a.clone()) && pair(r, &low, &a) && alias(r, &a);
    }
    let mut left = n as i64;
    while left > 0 {
        emit("{\"op\":\"reset\"}");
        let w = session_width(r, 300, 2100);
        let mut pool = vec![value(r, w)];
        let mut map = Map::default();
        let mut tree: BTreeMap<BitVecValue, i64> = BTreeMap::new();
        for _ in 0..5 { let v = related(r, &pool); pool.push(v) }
        for _ in 0..25 {
            left -= 1;
            let a = if r.chance(3, 4) { r.pick(&pool).clone() } else { related(r, &pool) };
            let ok = match r.below(10) {
                0..=4 => { let b = if r.chance(1, 2) { r.pick(&pool).clone() } else { related(r, &pool) }; pair(r, &a, &b) }
                5 => if r.chance(1, 2) { sort(r, &pool) } else { alias(r, &a) },
                k => mapop(r, k, &a, &mut map, &mut tree),
            };
            if !ok { break }
        }
    }
}

/// vectors that share their words but not their widths
fn alias(r: &mut Rng, v: &Val) -> bool {
    // a longer vector, and one that consists of its first words, or of all of them with fewer or more bits
    let w2 = match r.below(3) {
        0 => { let k = r.range(1, v.words.len() as u32); 64 * k }
        1 => v.w.div_ceil(64) * 64,
        _ => { let mut w = v.w; while w > (v.words.len() as u32 - 1) * 64 + 1 && !v.bit(w - 1) { w -= 1 } w }
    };
    let b = Val { w: w2, words: v.words[..nwords(w2)].to_vec() };
    let own = v.bv();
    let st: Vec<u64> = v.words.clone();
    let h = format!("{{\"op\":\"pair\",\"a\":{},\"b\":{},", jval(v), jval(&b));
    let res = guard(&h, || {
        let slab = st.as_slice();
        let (ra, rb): (BitVecValueRef, BitVecValueRef) = slab.get_ref((BitVecValueIndex::new(0, v.w), BitVecValueIndex::new(0, w2)));
        let view = own.words().get_ref(BitVecValueIndex::new(0, w2));
        let ob = b.bv();
        let eq = [ra == rb, rb == ra, own == view, view == own, BitVecValueRef::from(&own) == view, view == BitVecValueRef::from(&own), own == rb, rb == own, ra == ob, ob == ra];
        let ne = [ra != rb, own != view, view != own];
        let (ha, hb) = (hashes(&ra), hashes(&rb));
        let hs = format!("[[{},{}],[{},{}]]", jbytes(&ha), jbytes(&hashes(&own)), jbytes(&hb), jbytes(&hashes(&view)));
        let (c, cr, pc) = (own.cmp(&ob), ob.cmp(&own), own.partial_cmp(&ob).map(ord).unwrap_or(9));
        let j = |v: &[bool]| jbytes(&v.iter().map(|b| *b as u8).collect::<Vec<_>>());
        format!("\"eq\":{},\"ne\":{},\"hs\":{hs},\"ha\":{},\"hb\":{},\"c\":{},\"cr\":{},\"pc\":{}", j(&eq), j(&ne), jbytes(&ha), jbytes(&hb), ord(c), ord(cr), pc)
    });
    match res {
        Ok(s) => { emit(&format!("{h}\"o\":\"ok\",{s}}}")); true }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\"}}")); false }
    }
}
pub fn pair(r: &mut Rng, va: &Val, vb: &Val) -> bool {
    // the values these routes lead to are the operands (that a route leads to the expected value is decided elsewhere)
    let (mut a, va) = routed(r, va);
    let (mut b, vb) = routed(r, vb);
    let (va, vb) = (&va, &vb);
    let h = format!("{{\"op\":\"pair\",\"a\":{},\"b\":{},", jval(va), jval(vb));
    let res = guard(&h, || {
        let (a2, b2) = (va.bv(), vb.bv());
        let mut st = vec![7u64];
        st.extend(&vb.words);
        st.push(u64::MAX);
        let slab = st.as_slice().get_ref(BitVecValueIndex::new(1, vb.w));
        let mut eq = vec![];
        let mut ne = vec![];
        let (ha, hb) = (hashes(&a), hashes(&b));
        let hs = format!("[[{},{}],[{},{}]]", jbytes(&ha), jbytes(&hashes(&BitVecValueRef::from(&a))), jbytes(&hb), jbytes(&hashes(&slab)));
        {
            let (ra, rb) = (BitVecValueRef::from(&a), BitVecValueRef::from(&b));
            eq.extend([a == b, b == a, a == rb, ra == b, ra == rb, rb == ra, b == ra, rb == a, a == slab, slab == a, slab == ra, ra == slab]);
            ne.extend([a != b, a != rb, ra != b, ra != slab]);
            // sets keyed by borrowed forms
            let mut s: HashSet<BitVecValueRef> = HashSet::new();
            s.insert(ra);
            eq.push(s.contains(&rb));
            eq.push(s.contains(&slab));
            let mut so: HashSet<BitVecValue> = HashSet::new();
            so.insert(a.clone());
            eq.push(so.contains(&b));
        }
        { let m = BitVecValueMutRef::from(&mut b); eq.push(a == m); eq.push(BitVecValueRef::from(&a) == m); }
        { let m = BitVecValueMutRef::from(&mut a); eq.push(b == m); ne.push(b != m); }
        let (c, cr, pc) = (a2.cmp(&b2), b2.cmp(&a2), a.partial_cmp(&b));
        let consistent = (a2 < b2) == (c == Ordering::Less) && (a2 > b2) == (c == Ordering::Greater)
            && (a2 <= b2) == (c != Ordering::Greater) && (a2 >= b2) == (c != Ordering::Less);
        let pc = if consistent { pc.map(ord).unwrap_or(9) } else { 8 };
        let j = |v: &[bool]| jbytes(&v.iter().map(|b| *b as u8).collect::<Vec<_>>());
        format!("\"eq\":{},\"ne\":{},\"hs\":{hs},\"ha\":{},\"hb\":{},\"c\":{},\"cr\":{},\"pc\":{}", j(&eq), j(&ne), jbytes(&ha), jbytes(&hb), ord(c), ord(cr), pc)
    });
    match res {
        Ok(s) => { emit(&format!("{h}\"o\":\"ok\",{s}}}")); true }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\"}}")); false }
    }
}
pub fn sort(_r: &mut Rng, pool: &[Val]) -> bool {
    let h = &format!("{{\"op\":\"sort\",\"us\":[{}],", pool.iter().map(jval).collect::<Vec<_>>().join(","));
    let res = guard(h, || {
        let mut v: Vec<BitVecValue> = pool.iter().map(|x| x.bv()).collect();
        v.sort();
        v.iter().map(jbv).collect::<Vec<_>>().join(",")
    });
    match res {
        Ok(s) => { emit(&format!("{h}\"o\":\"ok\",\"vs\":[{s}]}}")); true }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\",\"vs\":[]}}")); false }
    }
}
fn mapop(r: &mut Rng, k: u64, v: &Val, map: &mut Map, tree: &mut BTreeMap<BitVecValue, i64>) -> bool {
    let n = r.below(1000) as i64;
    if r.chance(1, 60) {
        // look up by the borrowed form
        let h = format!("{{\"op\":\"getref\",\"a\":{},", jval(v));
        let own = v.bv();
        let res = guard(&h, || map.get(&BitVecValueRef::from(&own)).copied().unwrap_or(-1));
        return match res {
            Ok(x) => { emit(&format!("{}\"o\":\"ok\",\"r\":{x}}}", h.replace("getref", "get"))); true }
            Err(o) => { emit(&format!("{h}\"o\":\"{o}\",\"r\":-1}}")); true }
        };
    }
    let op = match k { 6 | 7 => "put", 8 => "get", _ => if r.chance(1, 2) { "drop" } else { "size" } };
    mapdo(r, op, v, n, map, tree)
}
pub fn mapdo(r: &mut Rng, op: &str, v: &Val, n: i64, map: &mut Map, tree: &mut BTreeMap<BitVecValue, i64>) -> bool {
    let (key, v) = routed(r, v);
    let h = format!("{{\"op\":\"{op}\",\"a\":{},\"n\":{n},", jval(&v));
    let res = guard(&h, || {
        match op {
            "put" => {
                let x = map.insert(key.clone(), n).unwrap_or(-1);
                let y = tree.insert(key, n).unwrap_or(-1);
                if x == y { x } else { -2 }
            }
            "get" => {
                let x = map.get(&key).copied().unwrap_or(-1);
                let y = tree.get(&key).copied().unwrap_or(-1);
                if x == y { x } else { -2 }
            }
            "drop" => {
                let x = map.remove(&key).unwrap_or(-1);
                let y = tree.remove(&key).unwrap_or(-1);
                if x == y { x } else { -2 }
            }
            _ => if map.len() == tree.len() { map.len() as i64 } else { -2 },
        }
    });
    match res {
        Ok(x) => { emit(&format!("{h}\"o\":\"ok\",\"r\":{x}}}")); true }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\",\"r\":-1}}")); false }
    }
}

// ---------------------------------------------------------------- C14
fn jidx(i: u32, w: u32) -> String { format!("{{\"i\":{i},\"w\":{w}}}") }
pub fn jmem(m: &[u64]) -> String { jbytes(&m.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<_>>()) }
/// The store the library sees may begin with many words that no index of the session reaches: all of its
/// indices are shifted by as much, and what is logged (but for `pad`: these words are as they were) is not.
static PAD: AtomicU32 = AtomicU32::new(0);
fn padding(k: usize) -> u64 { (k as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) }
pub fn padded(n: u32, mem: &[u64]) -> Vec<u64> {
    PAD.store(n, Relaxed);
    (0..n as usize).map(padding).chain(mem.iter().copied()).collect()
}
/// the part of the store the session is about, and whether the rest is as it was
pub fn jstore(m: &[u64]) -> String {
    let n = PAD.load(Relaxed) as usize;
    format!("\"mem\":{},\"pad\":{}", jmem(&m[n..]), m[..n].iter().enumerate().all(|(k, x)| *x == padding(k)) as u8)
}
#[derive(Clone, Copy)]
pub struct Ix { pub i: u32, pub w: u32 }
impl Ix {
    fn ix(&self) -> BitVecValueIndex { BitVecValueIndex::new(self.i + PAD.load(Relaxed), self.w) }
    fn words(&self) -> u32 { (self.w + 63) / 64 }
    fn end(&self) -> u32 { self.i + self.words() }
    fn overlaps(&self, o: &Ix) -> bool { self.i < o.end() && o.i < self.end() }
}
/// any index into a store of n words
fn index(r: &mut Rng, n: u32) -> Ix {
    let most = if n > 256 && r.chance(1, 2) { 258 } else if n > 12 && r.chance(1, 3) { 11 } else { 4.min(n) };
    let k = r.range(1, most);
    let w = match r.below(3) { 0 => k * 64, 1 => (k - 1) * 64 + 1, _ => r.range((k - 1) * 64 + 1, k * 64) };
    Ix { i: r.range(0, n - k), w }
}
/// an index relative to d: before, touching, behind, overlapping, inside, ...
fn near(r: &mut Rng, n: u32, d: &Ix, w: Option<u32>) -> Ix {
    for _ in 0..20 {
        let mut x = index(r, n);
        if let Some(w) = w { x.w = w }
        if x.words() > n { continue }
        match r.below(5) {
            0 => x.i = d.end(),                                   // directly behind
            1 => x.i = d.i.saturating_sub(x.words()),             // directly before
            2 => x.i = d.end().saturating_sub(1),                 // shares the last word
            _ => {}
        }
        if x.end() <= n { return x }
    }
    *d
}
pub fn c14(r: &mut Rng, n: u64) {
    let mut left = n as i64;
    // vectors wider than any small counter
    {
        let mut mem: Vec<u64> = (0..2300u64).map(|i| (i + 1).wrapping_mul(0x0101_0101_0101_0101)).collect();
        mem = padded(0, &mem);
        emit(&format!("{{\"op\":\"reset\",{}}}", jstore(&mem)));
        let w = *r.pick(&HUGE[4..]);
        let (a, b) = (Ix { i: r.below(30) as u32, w }, Ix { i: 1150 + r.below(30) as u32, w });
        let v = crate::calls::huge_of(r, w);
        let i = crate::calls::hugepos(r, w);
        let _ = slab_write(&mut mem, a, &[], "value", &v, 0, true) && slab_write(&mut mem, b, &[a], "copy1", &v, 0, false) && slab_write(&mut mem, a, &[b, b], "setbit", &v, i, true)
            && slab_read(&mem, &[b, a], true) && slab_write(&mut mem, b, &[], "ones", &v, 0, false) && slab_write(&mut mem, a, &[b], "clear", &v, 0, true);
    }
    while left > 0 {
        // now and then with vectors of more words than fit a byte
        let len = if r.chance(1, 150) { r.range(270, 540) } else if r.chance(1, 5) { r.range(11, 48) } else { r.range(3, 10) };
        // in some sessions the store holds small numbers so that vectors of any width in it are canonical
        let mut mem: Vec<u64> = (0..len).map(|i| (i as u64 + 1).wrapping_mul(0x0101_0101_0101_0101) ^ r.below(1 << 20)).collect();
        mem = padded(if r.chance(1, 10) { 1 << 16 | r.below(40) as u32 } else { 0 }, &mem);
        emit(&format!("{{\"op\":\"reset\",{}}}", jstore(&mem)));
        for _ in 0..25 {
            left -= 1;
            if !slab_step(r, &mut mem) { break }
        }
    }
}
fn slab_step(r: &mut Rng, mem: &mut Vec<u64>) -> bool {
    let len = mem.len() as u32 - PAD.load(Relaxed);
    let d = index(r, len);
    let byref = r.chance(1, 2);
    if r.chance(1, 4) {
        // read access to one or two places
        let two = r.chance(1, 2);
        let s = if two { vec![d, near(r, len, &d, None)] } else { vec![d] };
        return slab_read(mem, &s, byref);
    }
    let nsrc = r.below(3) as usize;
    let same = if r.chance(1, 2) { Some(d.w) } else { None };
    let s: Vec<Ix> = (0..nsrc).map(|_| near(r, len, &d, same)).collect();
    let mut how: &str = *r.pick(&["value", "ones", "clear", "setbit", "none", "copy1", "copy2", "copy1", "copy2"]);
    if how == "copy1" && (nsrc < 1 || s[0].w != d.w) { how = "value" }
    if how == "copy2" && (nsrc < 2 || s[1].w != d.w) { how = "value" }
    let v = value(r, d.w);
    let n = r.below(d.w as u64) as u32;
    slab_write(mem, d, &s, how, &v, n, byref)
}
pub fn slab_read(mem: &[u64], s: &[Ix], byref: bool) -> bool {
    let h = format!("{{\"op\":\"read\",\"srcs\":[{}],", s.iter().map(|x| jidx(x.i, x.w)).collect::<Vec<_>>().join(","));
    let m: &[u64] = mem;
    let res = guard(&h, || {
        let got: Vec<(u32, Vec<u64>)> = if s.len() == 2 {
            let (a, b) = if byref { m.get_ref((&s[0].ix(), &s[1].ix())) } else { m.get_ref((s[0].ix(), s[1].ix())) };
            vec![(a.width(), a.words().to_vec()), (b.width(), b.words().to_vec())]
        } else {
            let a = if byref { m.get_ref(&s[0].ix()) } else { m.get_ref(s[0].ix()) };
            vec![(a.width(), a.words().to_vec())]
        };
        got.iter().map(|(w, d)| format!("{{\"w\":{w},\"d\":{}}}", jmem(d))).collect::<Vec<_>>().join(",")
    });
    match res {
        Ok(g) => { emit(&format!("{h}\"o\":\"ok\",\"got\":[{g}],{}}}", jstore(mem))); true }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\",\"got\":[],{}}}", jstore(mem))); false }
    }
}
pub fn slab_write(mem: &mut Vec<u64>, d: Ix, s: &[Ix], how: &str, v: &Val, n: u32, byref: bool) -> bool {
    let nsrc = s.len();
    let bad = s.iter().any(|x| x.overlaps(&d));
    let h = format!("{{\"op\":\"write\",\"x\":{},\"srcs\":[{}],\"do\":\"{how}\",\"v\":{},\"n\":{n},",
        jidx(d.i, d.w), s.iter().map(|x| jidx(x.i, x.w)).collect::<Vec<_>>().join(","), jval(v));
    let m: &mut [u64] = mem;
    let res = guard(&h, || {
        fn act(x: &mut BitVecValueMutRef, how: &str, v: &Val, n: u32, a: Option<&BitVecValueRef>, b: Option<&BitVecValueRef>) {
            match how {
                "value" => x.assign(&v.bv()), "ones" => x.assign_ones(), "clear" => x.clear(), "setbit" => x.set_bit(n),
                "copy1" => x.assign(*a.unwrap()), "copy2" => x.assign(*b.unwrap()), _ => {}
            }
        }
        fn show<B: BitVecOps>(b: &B) -> String { format!("{{\"w\":{},\"d\":{}}}", b.width(), jmem(b.words())) }
        // the sources are looked at through their references, first; then the destination is written
        match nsrc {
            0 => {
                let mut x = if byref { m.get_mut_ref(&d.ix()) } else { m.get_mut_ref(d.ix()) };
                let old = show(&x);
                act(&mut x, how, v, n, None, None);
                (old, show(&x), String::new())
            }
            1 => {
                let (mut x, a) = if byref { m.get_mut_ref((&d.ix(), &s[0].ix())) } else { m.get_mut_ref((d.ix(), s[0].ix())) };
                let old = show(&x);
                act(&mut x, how, v, n, Some(&a), None);
                (old, show(&x), show(&a))
            }
            _ => {
                let (mut x, a, b) = if byref { m.get_mut_ref((&d.ix(), &s[0].ix(), &s[1].ix())) } else { m.get_mut_ref((d.ix(), s[0].ix(), s[1].ix())) };
                let old = show(&x);
                act(&mut x, how, v, n, Some(&a), Some(&b));
                (old, show(&x), format!("{},{}", show(&a), show(&b)))
            }
        }
    });
    match res {
        Ok((old, new, g)) => { emit(&format!("{h}\"o\":\"ok\",\"old\":{old},\"new\":{new},\"got\":[{g}],{}}}", jstore(mem))); true }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\",\"old\":0,\"new\":0,\"got\":[],{}}}", jstore(mem))); bad }
    }
}

// ---------------------------------------------------------------- C15
pub fn jix(i: &BitVecValueIndex) -> String { jidx(i.to_range().start as u32, i.width()) }
pub fn c15(r: &mut Rng, n: u64) {
    // all vectors of up to four bits, twice, in a scrambled order, next to wide ones with the same words
    let mut vals: Vec<Val> = (1..=4u32).flat_map(|w| (0..1u64 << w).map(move |x| Val::from_u64(w, x))).collect();
    vals.extend((0..12u64).flat_map(|x| [Val::from_u64(64, x), Val::from_u64(65, x), Val::from_words(128, &[x, x]), Val::from_words(128, &[x, 0])]));
    let twice: Vec<Val> = vals.iter().chain(vals.iter().rev()).cloned().collect();
    session(r, &mut |_, i| twice.get(i).cloned(), true);
    // wider than any small counter
    let (w, w2) = (*r.pick(&HUGE[4..]), *r.pick(&HUGE[..4]));
    let mut wide: Vec<Val> = vec![Val::ones(5), crate::calls::huge_of(r, w), crate::calls::huge_of(r, w2)];
    for k in 1..3 { let mut b = wide[k].clone(); let i = crate::calls::hugepos(r, b.w); b.set(i, !b.bit(i)); wide.push(b); let c = Val::from_words(wide[k].w % 65_536 + 1, &wide[k].words); wide.push(c) }
    let wide: Vec<Val> = wide.iter().chain(wide.iter().rev()).cloned().collect();
    session(r, &mut |_, i| wide.get(i).cloned(), true);
    let mut left = n as i64;
    bulk(r, 64, 65_700, 1);
    for k in 0..3 + n / 10_000 {
        let w = match k { 0 => 32, 1 => 65, 2 => 130, _ => width_upto(r, 300).max(20) };
        let count = 2000 + r.below(if k < 3 { 4000 } else { 9000 });
        bulk(r, w, count, 2);
    }
    // one long history; more when n is large
    let mut long = 1 + n / 40_000;
    while left > 0 {
        let len = if long > 0 { long -= 1; 1500 } else { 60 };
        left -= len as i64 + 1;
        let base = session_width(r, 300, 2100);
        let mut pool: Vec<Val> = vec![];
        session(r, &mut |r, i| {
            if i >= len { return None }
            let v = match r.below(12) {
                0 | 1 if !pool.is_empty() => r.pick(&pool).clone(),
                2 if !pool.is_empty() => { let p = r.pick(&pool).clone(); partner(r, &p) }
                3 | 4 if !pool.is_empty() => { // same words, other width
                    let p = r.pick(&pool).clone();
                    let lo = ((p.words.len() as u32 - 1) * 64 + 1).max(p.bitlen()).max(1);
                    let w = r.range(lo.min(p.words.len() as u32 * 64), p.words.len() as u32 * 64);
                    Val::from_words(w, &p.words)
                }
                5 if !pool.is_empty() => { // one more or one fewer zero word
                    let p = r.pick(&pool).clone();
                    let w = if r.chance(1, 2) { p.w + 64 } else { p.w.saturating_sub(64).max(1) };
                    Val::from_words(w, &p.words)
                }
                6 => { let w = r.range(1, 64); let x = r.below(12); Val::from_u64(w, x) }
                7 => { let w = r.range(1, 200); let x = r.below(3); Val::from_u64(w, x) }
                8 => { let w = width_upto(r, 300); value(r, w) }
                _ => value(r, base),
            };
            pool.push(v.clone());
            Some(v)
        }, false);
    }
}
/// many numbers of one width, some values in between, and the numbers once more
fn bulk(r: &mut Rng, w: u32, count: u64, times: u64) {
    emit("{\"op\":\"reset\"}");
    let mut it = ValueInterner::new();
    let mut values: Vec<Val> = vec![];
    for k in 0..10 { values.push(Val::from_u64(w, r.below(count + 100))); if k % 3 == 0 { let w = width_upto(r, 300); values.push(value(r, w)) } }
    values.push(Val::from_u64(w + 1, 3));
    let mut at = 0;
    let mut some = |it: &mut ValueInterner, values: &[Val], n: usize| {
        for _ in 0..n { at = (at + 1) % values.len(); if !intern(it, &values[at], at as u64 % 3, &mut vec![]) { return false } }
        true
    };
    if !some(&mut it, &values, 6) { return }
    for t in 0..times {
        let lo = if t == 0 { r.below(9) } else { r.below(count / 2) };
        let n = if t == 0 { count } else { count / 2 + r.below(300) };
        let h = format!("{{\"op\":\"bulk\",\"w\":{w},\"lo\":{lo},");
        let res = guard(&h, || {
            let ixs: Vec<BitVecValueIndex> = (lo..lo + n).map(|x| it.get_index(&BitVecValue::from_u64(x, w))).collect();
            let backs: Vec<i64> = ixs.iter().map(|ix| { let b = it.words().get_ref(ix); let v = Val::of(&b); if v.w == w && v.bitlen() <= 30 { v.words[0] as i64 } else { -1 } }).collect();
            (ixs, backs)
        });
        let join = |v: Vec<i64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        match res {
            Ok((ixs, backs)) => {
                let mut ws: Vec<i64> = ixs.iter().map(|i| i.width() as i64).collect();
                ws.dedup();
                emit(&format!("{h}\"o\":\"ok\",\"ixs\":[{}],\"ws\":[{}],\"backs\":[{}]}}", join(ixs.iter().map(|i| i.to_range().start as i64).collect()), join(ws), join(backs)))
            }
            Err(o) => { emit(&format!("{h}\"o\":\"{o}\"}}")); return }
        }
        if !some(&mut it, &values, if times == 1 { 8 } else { 20 }) { return }
    }
}
pub fn intern(it: &mut ValueInterner, v: &Val, form: u64, seen: &mut Vec<(Val, BitVecValueIndex)>) -> bool {
    let h = format!("{{\"op\":\"intern\",\"v\":{},", jval(v));
    let res = guard(&h, || {
        let b = v.bv();
        let ix = match form {
            0 => it.get_index(&b),
            1 => it.get_index(BitVecValueRef::from(&b)),
            _ => { let mut st = vec![1u64, 2]; st.extend(&v.words); st.push(3); it.get_index(st.as_slice().get_ref(BitVecValueIndex::new(2, v.w))) }
        };
        let back = Val::of(&it.words().get_ref(&ix));
        (ix, back, ValueInterner::is_zero(ix), ValueInterner::is_one(&ix))
    });
    match res {
        Ok((ix, back, z, o)) => {
            emit(&format!("{h}\"o\":\"ok\",\"ix\":{},\"back\":{},\"iz\":{},\"io\":{}}}", jix(&ix), jval(&back), z as u8, o as u8));
            if !seen.iter().any(|(s, _)| s == v) { seen.push((v.clone(), ix)) }
            true
        }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\"}}")); false }
    }
}
pub fn read_index(it: &ValueInterner, ix: BitVecValueIndex, byval: bool) -> bool {
    let h = format!("{{\"op\":\"read\",\"ix\":{},", jix(&ix));
    match guard(&h, || if byval { Val::of(&it.words().get_ref(ix)) } else { Val::of(&it.words().get_ref(&ix)) }) {
        Ok(v) => { emit(&format!("{h}\"o\":\"ok\",\"v\":{}}}", jval(&v))); true }
        Err(o) => { emit(&format!("{h}\"o\":\"{o}\"}}")); false }
    }
}
fn session(r: &mut Rng, next: &mut dyn FnMut(&mut Rng, usize) -> Option<Val>, _small: bool) {
    emit("{\"op\":\"reset\"}");
    let mut it = if r.chance(1, 2) { ValueInterner::new() } else { ValueInterner::default() };
    let mut seen: Vec<(Val, BitVecValueIndex)> = vec![];
    let mut i = 0;
    while let Some(v) = next(r, i) {
        i += 1;
        let form = r.below(3);
        if !intern(&mut it, &v, form, &mut seen) { return }
        let k = r.below(40);
        if k == 0 { it = it.clone() }
        if k == 39 { let mut x = ValueInterner::new(); x.get_index(&BitVecValue::ones(70)); x.get_index(&BitVecValue::ones(50)); x.clone_from(&it); it = x }
        if k < 8 {
            let (_, ix) = *r.pick(&seen.iter().map(|(v, i)| (v, *i)).collect::<Vec<_>>());
            if !read_index(&it, ix, true) { return }
        }
    }
    // everything can still be read back
    let ixs: Vec<String> = seen.iter().map(|(_, i)| jix(i)).collect();
    let h = format!("{{\"op\":\"readall\",\"ixs\":[{}],", ixs.join(","));
    match guard(&h, || seen.iter().map(|(_, i)| jbv(&it.words().get_ref(i))).collect::<Vec<_>>()) {
        Ok(v) => emit(&format!("{h}\"o\":\"ok\",\"vs\":[{}]}}", v.join(","))),
        Err(o) => emit(&format!("{h}\"o\":\"{o}\"}}")),
    }
}

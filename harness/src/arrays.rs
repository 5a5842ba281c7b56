//! C16, C17, C18 (and C19 for arrays): histories of array operations.
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use baa::*;
use std::convert::TryFrom;

#[derive(Clone, Debug)]
enum Arr {
    None,
    A(ArrayValue),
    S(SparseArrayValue),
}
impl Arr {
    fn iw(&self) -> u32 { match self { Arr::None => 0, Arr::A(a) => a.index_width(), Arr::S(a) => a.index_width() } }
    fn dw(&self) -> u32 { match self { Arr::None => 0, Arr::A(a) => a.data_width(), Arr::S(a) => a.data_width() } }
    fn live(&self) -> bool { !matches!(self, Arr::None) }
    fn boxed(&self) -> bool { matches!(self, Arr::A(_)) }
    fn select(&self, i: &Val, form: u64) -> BitVecValue {
        let o = i.bv();
        let st = { let mut s = vec![3u64]; s.extend(&i.words); s };
        let slab = st.as_slice();
        let x = match form { 0 => BitVecValueRef::from(&o), 1 => slab.get_ref(BitVecValueIndex::new(1, i.w)), _ => BitVecValueRef::from(&o) };
        match self { Arr::None => unreachable!(), Arr::A(a) => a.select(x), Arr::S(a) => a.select(&o) }
    }
    fn store(&mut self, i: &Val, v: &Val, form: u64) {
        let (o, d) = (i.bv(), v.bv());
        let st = { let mut s = vec![3u64]; s.extend(&v.words); s.push(1); s };
        let slab = st.as_slice();
        let x = match form { 0 => BitVecValueRef::from(&d), 1 => slab.get_ref(BitVecValueIndex::new(1, v.w)), _ => BitVecValueRef::from(&d) };
        match self { Arr::None => unreachable!(), Arr::A(a) => a.store(&o, x), Arr::S(a) => a.store(BitVecValueRef::from(&o), x) }
    }
    fn clear(&mut self) { match self { Arr::None => unreachable!(), Arr::A(a) => a.clear(), Arr::S(a) => a.clear() } }
    fn obs(&self, pool: &[Val]) -> String {
        let (rep, iw, dw, wpe, ne) = match self {
            Arr::None => return "{\"rep\":\"none\",\"iw\":0,\"dw\":0,\"wpe\":0,\"ne\":0,\"els\":[]}".to_string(),
            Arr::A(a) => {
                let rep = match (a.is_dense(), a.is_sparse()) { (true, false) => "dense", (false, true) => "sparse", _ => "confused" };
                let _ = format!("{a:?}");
                (rep, a.index_width(), a.data_width(), a.words_per_element(), if a.index_width() <= 20 { a.num_elements() } else { 0 })
            }
            Arr::S(a) => { let _ = format!("{a:?}"); ("bare", a.index_width(), a.data_width(), a.words_per_element(), if a.index_width() <= 20 { a.num_elements() } else { 0 }) }
        };
        let els: Vec<String> = pool.iter().filter(|p| p.w == iw).map(|p| jbv(&self.select(p, 2))).collect();
        format!("{{\"rep\":\"{rep}\",\"iw\":{iw},\"dw\":{dw},\"wpe\":{wpe},\"ne\":{ne},\"els\":[{}]}}", els.join(","))
    }
}

struct Session {
    pool: Vec<Val>,
    arrs: Vec<Arr>,
}
impl Session {
    fn start(k: usize, pool: Vec<Val>) -> Session {
        let p: Vec<String> = pool.iter().map(jval).collect();
        emit(&format!("{{\"op\":\"reset\",\"n\":{k},\"pool\":[{}]}}", p.join(",")));
        Session { pool, arrs: vec![Arr::None; k] }
    }
    fn obs(&self) -> String {
        let o: Vec<String> = self.arrs.iter().map(|a| a.obs(&self.pool)).collect();
        format!("\"obs\":[{}]", o.join(","))
    }
    /// performs an action and the look at all arrays that follows; false if the session cannot go on
    fn act(&mut self, head: String, f: impl FnOnce(&mut Vec<Arr>) -> String) -> bool {
        match guard(&head, || { let x = f(&mut self.arrs); (x, self.obs()) }) {
            Ok((x, o)) => { emit(&format!("{head}\"o\":\"ok\",{x}{o}}}")); true }
            Err(o) => { emit(&format!("{head}\"o\":\"{o}\",\"obs\":[]}}")); false }
        }
    }
    fn new(&mut self, h: usize, rep: &str, iw: u32, v: &Val) -> bool {
        self.act(format!("{{\"op\":\"new\",\"h\":{},\"rep\":\"{rep}\",\"iw\":{iw},\"v\":{},", h + 1, jval(v)), |a| {
            a[h] = match rep {
                "dense" => Arr::A(ArrayValue::new_dense(iw, &v.bv())),
                "sparse" => Arr::A(ArrayValue::new_sparse(iw, &v.bv())),
                _ => Arr::S(SparseArrayValue::new(iw, &v.bv())),
            };
            String::new()
        })
    }
    fn slice(&mut self, h: usize, dw: u32, vs: &[u64]) -> bool {
        let j: Vec<String> = vs.iter().map(|x| jval(&Val::from_u64(dw, *x))).collect();
        self.act(format!("{{\"op\":\"slice\",\"h\":{},\"dw\":{dw},\"vs\":[{}],", h + 1, j.join(",")), |a| {
            a[h] = Arr::A(match dw {
                1 => { let v: Vec<bool> = vs.iter().map(|x| x & 1 == 1).collect(); v.as_slice().into() }
                8 => { let v: Vec<u8> = vs.iter().map(|x| *x as u8).collect(); v.as_slice().into() }
                _ => vs.into(),
            });
            String::new()
        })
    }
    fn store(&mut self, h: usize, i: &Val, v: &Val, form: u64) -> bool {
        self.act(format!("{{\"op\":\"store\",\"h\":{},\"i\":{},\"v\":{},", h + 1, jval(i), jval(v)), |a| { a[h].store(i, v, form); String::new() })
    }
    fn select(&mut self, h: usize, i: &Val, form: u64) -> bool {
        self.act(format!("{{\"op\":\"select\",\"h\":{},\"i\":{},", h + 1, jval(i)), |a| format!("\"r\":{},", jbv(&a[h].select(i, form))))
    }
    fn clear(&mut self, h: usize) -> bool {
        self.act(format!("{{\"op\":\"clear\",\"h\":{},", h + 1), |a| { a[h].clear(); String::new() })
    }
    fn copy(&mut self, op: &str, h: usize, s: usize, form: u64) -> bool {
        self.act(format!("{{\"op\":\"{op}\",\"h\":{},\"s\":{},", h + 1, s + 1), |a| {
            let x = match (op, &a[s]) {
                ("value", Arr::A(x)) => {
                    Arr::A(ArrayValue::try_from(Value::Array(x.clone())).unwrap())
                }
                ("serde", x) => match (x, form) {
                    (Arr::A(x), f) => Arr::A(crate::opt::array(x, f == 0)),
                    (Arr::S(x), f) => Arr::S(crate::opt::sparse(x, f == 0)),
                    _ => unreachable!(),
                },
                (_, x) => x.clone(),
            };
            let x = if op == "clone" && form == 1 {
                // into what was there
                match (std::mem::replace(&mut a[h], Arr::None), x) {
                    (Arr::A(mut y), Arr::A(x)) => { y.clone_from(&x); Arr::A(y) }
                    (Arr::S(mut y), Arr::S(x)) => { y.clone_from(&x); Arr::S(y) }
                    (_, x) => x,
                }
            } else { x };
            if let ("serde", Arr::A(x), Arr::A(y)) = (op, &x, &a[s]) { if x != y || y != x || x.is_equal(y) != Some(true) { panic!("copy differs") } }
            a[h] = x;
            String::new()
        })
    }
    fn dense(&mut self, h: usize) -> bool {
        self.act(format!("{{\"op\":\"dense\",\"h\":{},", h + 1), |a| { if let Arr::A(x) = &mut a[h] { x.make_dense() } String::new() })
    }
    fn tobare(&mut self, h: usize, s: usize) -> bool {
        self.act(format!("{{\"op\":\"tobare\",\"h\":{},\"s\":{},", h + 1, s + 1), |a| {
            let Arr::A(x) = a[s].clone() else { unreachable!() };
            a[h] = Arr::S(x.into());
            String::new()
        })
    }
    /// what the (converted) sparse array lists
    fn entries(&mut self, h: usize) -> bool {
        self.act(format!("{{\"op\":\"entries\",\"h\":{},", h + 1), |a| {
            let x: SparseArrayValue = match &a[h] { Arr::A(x) => x.clone().into(), Arr::S(x) => x.clone(), _ => unreachable!() };
            let mut es: Vec<(Vec<u64>, String)> = x.non_default_entries().map(|(k, v)| {
                let mut w: Vec<u64> = k.words().to_vec();
                w.reverse();
                (w, format!("[{},{}]", jbv(&k), jbv(&v)))
            }).collect();
            es.sort();
            let es: Vec<String> = es.into_iter().map(|e| e.1).collect();
            format!("\"d\":{},\"es\":[{}],\"cnt\":{},", jbv(&x.default()), es.join(","), counts(&x))
        })
    }
    fn eq(&mut self, h: usize, s: usize) -> bool {
        self.act(format!("{{\"op\":\"eq\",\"h\":{},\"s\":{},", h + 1, s + 1), |a| {
            let (Arr::A(x), Arr::A(y)) = (&a[h], &a[s]) else { unreachable!() };
            let o = |v: Option<bool>| match v { None => 2, Some(b) => b as u8 };
            let (vx, vy) = (Value::Array(x.clone()), Value::Array(y.clone()));
            let r = [o(x.is_equal(y)), o(y.is_equal(x)), o(x.is_equal(&y.clone()))];
            let ops = [x == y, y == x, !(x != y), vx == vy, vy == vx].map(|b| b as u8);
            format!("\"r\":{},\"ops\":{},", jbytes(&r), jbytes(&ops))
        })
    }
}

/// how many entries there are, counted in several ways
pub fn counts(x: &SparseArrayValue) -> String {
    let mut by_nth = 0u64;
    let mut it = x.non_default_entries();
    while it.nth(0).is_some() { by_nth += 1 }
    let by_fold = x.non_default_entries().fold(0u64, |k, _| k + 1);
    let (lo, hi) = x.non_default_entries().size_hint();
    let n = by_fold as usize;
    let mut it = x.non_default_entries();
    let second = n > 1 && it.nth(1).is_some();
    let rest = it.count() as u64 + if second { 2 } else { 0 };
    let hint = if lo <= n && hi.map_or(true, |h| n <= h) { by_fold } else { u64::MAX >> 40 };
    let last = x.non_default_entries().last().is_some() as u64;
    format!("[{},{by_nth},{by_fold},{rest},{hint},{}]", x.non_default_entries().count(), if last == n.min(1) as u64 { by_fold } else { u64::MAX >> 40 })
}
const DWS: [u32; 22] = [1, 1, 1, 2, 7, 8, 8, 9, 16, 32, 33, 63, 64, 64, 65, 66, 100, 127, 128, 129, 192, 200];
fn index_width(r: &mut Rng) -> u32 {
    match r.below(12) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 2,
        5 => 3,
        6 => r.range(4, 12),
        7 => *r.pick(&[31, 32, 33, 40]),
        8 => *r.pick(&[63, 64]),
        9 => 64,
        10 => *r.pick(&[65, 66, 100, 127]),
        _ => *r.pick(&[128, 129, 192, 200, 300]),
    }
}
fn indices(r: &mut Rng, iw: u32) -> Vec<Val> {
    if iw <= 2 { return (0..1u64 << iw).map(|x| Val::from_u64(iw, x)).collect() }
    let mut v: Vec<Val> = vec![Val::zero(iw), Val::ones(iw)];
    for _ in 0..3 {
        let x = match r.below(4) {
            0 => { let p = r.pick(&v).clone(); partner(r, &p) }
            1 => { let mut p = r.pick(&v).clone(); let i = match r.below(4) { 0 => iw - 1, 1 if iw > 64 => 64, 2 if iw > 32 => 32, _ => r.below(iw as u64) as u32 }; let b = p.bit(i); p.set(i, !b); p }
            2 => Val::from_u64(iw, r.below(8)),
            _ => value(r, iw),
        };
        if !v.contains(&x) { v.push(x) }
    }
    v
}
/// concrete values for the abstract values 0, 1, 2, ... of a data width
fn values(r: &mut Rng, dw: u32) -> Vec<Val> {
    let mut v = vec![Val::zero(dw), Val::ones(dw)];
    if dw > 1 {
        for _ in 0..3 {
            let x = match r.below(3) { 0 => { let p = r.pick(&v).clone(); partner(r, &p) } 1 => Val::from_u64(dw, r.below(4)), _ => value(r, dw) };
            if !v.contains(&x) { v.push(x) }
        }
    }
    v
}
fn slice_width(n: usize) -> u32 { let mut w = 0; while (1usize << w) < n { w += 1 } w }

#[derive(Clone, Copy, PartialEq)]
enum Focus { Read, Convert, Equal, Serde }

pub fn c16(r: &mut Rng, n: u64) { big_dense(r); types(r); run(r, n, Focus::Read) }
pub fn c17(r: &mut Rng, n: u64) { run(r, n, Focus::Convert) }
pub fn c18(r: &mut Rng, n: u64) { run(r, n, Focus::Equal) }
pub fn c19(r: &mut Rng, n: u64) { run(r, n, Focus::Serde) }

/// dense arrays of single bits whose size does not fit the width type (a known finding)
fn big_dense(r: &mut Rng) {
    let iw = 32;
    Session::start(0, vec![]);
    let (zero, one) = (Val::zero(1), Val::ones(1));
    let (i, j) = (Val::from_u64(iw, r.below(1 << 32)), Val::from_u64(iw, 0));
    let head = format!("{{\"op\":\"bigdense\",\"iw\":{iw},\"i\":{},\"v\":{},\"x\":{},", jval(&i), jval(&one), jval(&zero));
    let res = guard(&head, || {
        let mut a = ArrayValue::new_dense(iw, &zero.bv());
        a.store(&i.bv(), &one.bv());
        format!("\"r\":[{},{}]", jbv(&a.select(&i.bv())), jbv(&a.select(&j.bv())))
    });
    match res {
        Ok(s) => emit(&format!("{head}\"o\":\"ok\",{s},\"obs\":[]}}")),
        Err(o) => emit(&format!("{head}\"o\":\"{o}\",\"obs\":[]}}")),
    }
}

/// what arrays of all kinds of types say about their type
fn types(r: &mut Rng) {
    let mut s = Session::start(0, vec![]);
    for k in 0..60u32 {
        let iw = if k < 30 { r.range(0, 63) } else { k + 3 - 30 + r.below(2) as u32 };
        let dw = match r.below(5) { 0 => *r.pick(&DWS), 1 => r.range(1, 300), 2 => 64 * r.range(1, 300) + r.range(0, 1), 3 => 1 << r.range(1, 22), _ => (1 << r.range(6, 22)) + 1 };
        let rep = if iw <= 3 && dw < 5000 { *r.pick(&["dense", "sparse", "bare"]) } else { *r.pick(&["sparse", "bare"]) };
        let head = format!("{{\"op\":\"typ\",\"rep\":\"{rep}\",\"iw\":{iw},\"dw\":{dw},");
        if !s.act(head, |_| {
            let v = if r.chance(1, 2) { BitVecValue::zero(dw) } else { BitVecValue::ones(dw) };
            fn t<A: ArrayOps>(a: &A) -> String { format!("\"giw\":{},\"gdw\":{},\"wpe\":{},\"ne\":{},", a.index_width(), a.data_width(), a.words_per_element(), jbytes(&(a.num_elements() as u64).to_le_bytes())) }
            match rep { "dense" => t(&ArrayValue::new_dense(iw, &v)), "sparse" => t(&ArrayValue::new_sparse(iw, &v)), _ => t(&SparseArrayValue::new(iw, &v)) }
        }) { return }
    }
}

/// sparse arrays in which almost every index is stored, with a default that only shows in the gaps
fn nearly_full(r: &mut Rng, focus: Focus) {
    let iw = *r.pick(&[2u32, 3, 3, 4, 4, 5]);
    let dw = *r.pick(&DWS);
    let idx: Vec<Val> = (0..1u64 << iw).map(|x| Val::from_u64(iw, x)).collect();
    let vals = values(r, dw);
    let d = if r.chance(3, 4) { vals[1].clone() } else { r.pick(&vals).clone() };
    let mut gaps: Vec<usize> = vec![];
    let want = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3]);
    while gaps.len() < want { let g = r.below(idx.len() as u64) as usize; if !gaps.contains(&g) { gaps.push(g) } }
    let same = if r.chance(1, 2) { Some(r.pick(&vals).clone()) } else { None };
    let mut order: Vec<usize> = (0..idx.len()).filter(|k| !gaps.contains(k)).collect();
    match r.below(3) { 0 => order.reverse(), 1 => for k in (1..order.len()).rev() { let j = r.below(k as u64 + 1) as usize; order.swap(k, j) }, _ => {} }
    let mut s = Session::start(2, idx.clone());
    let rep = if focus == Focus::Equal || r.chance(2, 3) { "sparse" } else { "bare" };
    if !s.new(0, rep, iw, &d) { return }
    for &k in &order {
        let v = same.clone().unwrap_or_else(|| pickv(r, &vals, dw));
        let f = r.below(3);
        if !s.store(0, &idx[k], &v, f) { return }
    }
    let other = |r: &mut Rng, x: &Val| { for _ in 0..9 { let y = pickv(r, &vals, dw); if y != *x { return y } } x.not() };
    match focus {
        Focus::Read => {
            if s.copy("clone", 1, 0, 0) && s.clear(0) { for g in gaps { if !s.select(1, &idx[g], 1) { return } } }
        }
        Focus::Convert => {
            if !s.copy("clone", 1, 0, 0) || !s.entries(1) { return }
            if rep == "sparse" && !(s.dense(0) && s.entries(0) && s.tobare(1, 0) && s.entries(1) && s.tobare(1, 1 - 1)) { return }
            let i = r.pick(&idx).clone();
            let v = pickv(r, &vals, dw);
            if s.store(0, &i, &v, 0) && s.store(1, &i, &v, 1) && s.entries(1) { s.entries(0); }
        }
        Focus::Equal => {
            if !s.copy("clone", 1, 0, 0) || r.chance(2, 3) && !s.dense(1) || !s.eq(0, 1) { return }
            let mut at = gaps.clone();
            at.push(order[r.below(order.len() as u64) as usize]);
            for k in at {
                let Ok(was) = guard("{\"op\":\"peek\",", || Val::of(&s.arrs[0].select(&idx[k], 0))) else { return };
                let x = other(r, &was);
                if !s.store(1, &idx[k], &x, 0) || !s.eq(0, 1) || !s.eq(1, 0) || !s.store(1, &idx[k], &was, 0) || !s.eq(1, 0) { return }
            }
        }
        Focus::Serde => { for f in 0..2 { if !s.copy("serde", 1, 0, f) { return } } }
    }
}

/// elements, or indices, wider than any small counter
fn huge(r: &mut Rng, focus: Focus, data: bool) {
    let (iw, dw) = if data { (r.range(0, 2), *r.pick(&HUGE)) } else { (*r.pick(&HUGE), *r.pick(&[8u32, 64, 65])) };
    let some = |r: &mut Rng, w: u32| if w > 5000 { crate::calls::huge_of(r, w) } else { value(r, w) };
    let near = |r: &mut Rng, v: &Val| { let mut x = v.clone(); if v.w > 0 { let i = crate::calls::hugepos(r, v.w); x.set(i, !x.bit(i)) } x };
    let i = some(r, iw);
    let mut idx = vec![i.clone()];
    for _ in 0..2 { let x = near(r, &i); if !idx.contains(&x) { idx.push(x) } }
    let (d, v) = (some(r, dw), some(r, dw));
    let v2 = near(r, &v);
    let mut s = Session::start(2, idx.clone());
    let rep = if data && r.chance(1, 2) { "dense" } else { "sparse" };
    let j = idx[idx.len() - 1].clone();
    if !s.new(0, rep, iw, &d) || !s.store(0, &i, &v, 1) || !s.store(0, &j, &v2, 0) || !s.copy("clone", 1, 0, 0) { return }
    let _ = match focus {
        Focus::Read => s.store(1, &j, &v, 2) && s.select(1, &i, 1) && s.clear(0),
        Focus::Convert => (if data && rep == "sparse" { s.dense(0) } else { s.tobare(0, 1) }) && s.entries(0) && s.entries(1),
        Focus::Equal => s.eq(0, 1) && s.store(1, &j, &near(r, &v2), 0) && s.eq(0, 1) && s.store(1, &j, &v2, 0) && (!data || s.dense(1)) && s.eq(1, 0),
        Focus::Serde => s.copy("serde", 1, 0, 0) && s.copy("serde", 0, 1, 1),
    };
}
fn run(r: &mut Rng, n: u64, focus: Focus) {
    let mut left = n as i64;
    for _ in 0..(n / 250).clamp(4, 40) { nearly_full(r, focus) }
    for k in 0..2 { huge(r, focus, k == 0) }
    while left > 0 {
        let k = if focus == Focus::Read { 2 } else { 3 };
        let (iw, dw) = (index_width(r), *r.pick(&DWS));
        // now and then wide vectors in a small array
        let (iw, dw) = if r.chance(1, 25) { (if r.chance(1, 2) { r.range(0, 3) } else { iw }, *r.pick(&LARGE)) } else { (iw, dw) };
        let iw = if focus == Focus::Equal && r.chance(1, 2) { r.range(0, 2) } else { iw };
        // a second type that differs in one width
        let (iw2, dw2) = if r.chance(1, 2) { (index_width(r), dw) } else { (iw, *r.pick(&DWS)) };
        let len = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => r.below(6), 4 => r.below(20), _ => if focus == Focus::Convert { r.below(300) } else { r.below(40) } } as usize;
        let mut pool = vec![];
        let mut iws = vec![iw, iw2, slice_width(len)];
        iws.sort();
        iws.dedup();
        for w in iws { pool.extend(indices(r, w)) }
        let vals: Vec<Val> = { let mut d = vec![dw, dw2, 1, 8, 64]; d.sort(); d.dedup(); d.into_iter().flat_map(|w| values(r, w)).collect() };
        let mut s = Session::start(k, pool);
        let steps = match focus { Focus::Equal => 25, _ => 30 };
        for h in 0..k {
            let (iw, dw) = if h < 2 || r.chance(1, 2) { (iw, dw) } else { (iw2, dw2) };
            left -= 1;
            if !create(r, &mut s, h, iw, dw, len, &vals) { break }
        }
        for _ in 0..steps {
            left -= 1;
            let (iw, dw) = if r.chance(5, 6) { (iw, dw) } else { (iw2, dw2) };
            if !step(r, &mut s, focus, iw, dw, len, &vals) { break }
        }
    }
}
fn pickv(r: &mut Rng, vals: &[Val], w: u32) -> Val {
    if r.chance(1, 8) { return value(r, w) }
    let c: Vec<&Val> = vals.iter().filter(|v| v.w == w).collect();
    if c.is_empty() { value(r, w) } else { (*r.pick(&c)).clone() }
}
fn create(r: &mut Rng, s: &mut Session, h: usize, iw: u32, dw: u32, len: usize, vals: &[Val]) -> bool {
    let v = pickv(r, vals, dw);
    if r.chance(1, 5) {
        let dw = *r.pick(&[1u32, 8, 64]);
        let vs: Vec<u64> = (0..len).map(|_| pickv(r, vals, dw).words[0]).collect();
        return s.slice(h, dw, &vs);
    }
    let rep = match r.below(10) { 0..=4 if iw <= 12 => "dense", 9 => "bare", _ => "sparse" };
    s.new(h, rep, iw, &v)
}
fn step(r: &mut Rng, s: &mut Session, focus: Focus, iw: u32, dw: u32, len: usize, vals: &[Val]) -> bool {
    let k = s.arrs.len() as u64;
    let (h, o) = (r.below(k) as usize, r.below(k) as usize);
    if !s.arrs[h].live() { return create(r, s, h, iw, dw, len, vals) }
    let (hw, hd) = (s.arrs[h].iw(), s.arrs[h].dw());
    let p = r.below(100);
    // weights: [store, select, clear, new, clone/value, dense, tobare, entries, eq, serde]
    let wt: [u64; 10] = match focus {
        Focus::Read => [54, 21, 4, 5, 9, 5, 2, 0, 0, 0],
        Focus::Convert => [40, 4, 4, 6, 6, 16, 6, 18, 0, 0],
        Focus::Equal => [42, 0, 4, 8, 10, 8, 0, 0, 28, 0],
        Focus::Serde => [32, 2, 4, 6, 4, 6, 6, 4, 6, 30],
    };
    let mut a = 0;
    let mut acc = 0;
    for (i, w) in wt.iter().enumerate() { acc += w; if p < acc { a = i; break } }
    let index = |r: &mut Rng, s: &Session, w: u32| {
        let c: Vec<&Val> = s.pool.iter().filter(|v| v.w == w).collect();
        if c.is_empty() || r.chance(1, 12) { value(r, w) } else { (*r.pick(&c)).clone() }
    };
    match a {
        0 => {
            let i = index(r, s, hw);
            let mut v = pickv(r, vals, hd);
            // drive arrays of the same type towards each other
            if focus == Focus::Equal && o != h && r.chance(1, 2) && s.arrs[o].live() && s.arrs[o].iw() == hw && s.arrs[o].dw() == hd {
                if let Ok(x) = guard("{\"op\":\"peek\",", || Val::of(&s.arrs[o].select(&i, 0))) { v = x }
            }
            s.store(h, &i, &v, r.below(3))
        }
        1 => { let i = index(r, s, hw); s.select(h, &i, r.below(3)) }
        2 => s.clear(h),
        3 => create(r, s, h, iw, dw, len, vals),
        4 => {
            if !s.arrs[o].live() { return true }
            let op = if s.arrs[o].boxed() && r.chance(1, 3) { "value" } else { "clone" };
            s.copy(op, h, o, r.below(2))
        }
        5 => if s.arrs[h].boxed() && hw <= 12 { s.dense(h) } else { true },
        6 => if s.arrs[o].boxed() { s.tobare(h, o) } else { true },
        7 => s.entries(h),
        8 => if s.arrs[h].boxed() && s.arrs[o].boxed() { s.eq(h, o) } else { true },
        _ => if s.arrs[o].live() { s.copy("serde", h, o, r.below(2)) } else { true },
    }
}

/// Behaviours of the model MCArrays, instantiated at several types: DIR/script.ndjson
pub fn script(r: &mut Rng, dir: &str, variant: u64) {
    let text = std::fs::read_to_string(format!("{dir}/script.ndjson")).unwrap();
    let mut s: Option<Session> = None;
    let (mut idx, mut val): (Vec<Val>, Vec<Val>) = (vec![], vec![]);
    let mut dead = false;
    for line in text.lines() {
        let e: serde_json::Value = serde_json::from_str(line).unwrap();
        let (h, o) = (e["h"].as_u64().unwrap_or(0) as usize, e["s"].as_u64().unwrap_or(0) as usize);
        let op = e["op"].as_str().unwrap();
        if op == "restart" {
            let (iw, d) = (e["iw"].as_u64().unwrap() as u32, e["d"].as_u64().unwrap());
            // the model's own index width, or a wider one
            let w = match (variant + r.below(2)) % 4 { 3 => *r.pick(&[iw + 1, 7, 12]), _ => iw };
            let dw = if d <= 2 && r.chance(1, 4) { 1 } else { *r.pick(&DWS).max(&2) };
            idx = (0..1u64 << iw).map(|k| if k % 2 == 0 { Val::from_u64(w, k / 2) } else { sub1n(&Val::ones(w), k / 2) }).collect();
            if w == iw { idx = (0..1u64 << iw).map(|k| Val::from_u64(w, k)).collect() }
            val = vec![Val::zero(dw), Val::ones(dw), Val::from_u64(dw, 1), { let mut v = Val::zero(dw); v.set(dw - 1, true); v }];
            val.truncate(d as usize);
            let mut q = Session::start(2, idx.clone());
            dead = !(q.new(0, "dense", w, &val[0]) && q.new(1, "dense", w, &val[0]));
            s = Some(q);
            continue;
        }
        if dead { continue }
        let q = s.as_mut().unwrap();
        let h = h - 1;
        let w = q.arrs[h].iw();
        let (i, v) = (e["i"].as_u64().unwrap() as usize, e["v"].as_u64().unwrap() as usize);
        dead = !match op {
            "newdense" => q.new(h, "dense", w, &val[v]),
            "newsparse" => q.new(h, "sparse", w, &val[v]),
            "store" => q.store(h, &idx[i], &val[v], r.below(3)),
            "clear" => q.clear(h),
            "dense" => q.dense(h),
            "clone" => q.copy(if variant >= 100 { "serde" } else { *r.pick(&["clone", "value"]) }, h, o - 1, r.below(2)),
            "eq" => q.eq(h, o - 1),
            "entries" => q.entries(h),
            _ => panic!("script op {op}"),
        };
    }
}
fn sub1n(v: &Val, n: u64) -> Val { (0..n).fold(v.clone(), |x, _| sub1(&x)) }

//! Large arrays (C16, C17, C18, C19): contents of up to millions of elements, logged as numbers and affine runs.
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use baa::*;
use std::convert::TryFrom;

/// the vector that stands for the number n (0 stands for zero; different numbers stand for different vectors)
fn enc(n: u64, dw: u32) -> Val {
    let mut v = Val::zero(dw);
    if n == 0 { return v }
    for (k, x) in v.words.iter_mut().enumerate() {
        let h = n.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(7 * k as u32) | 1;
        *x = if k == 0 { n | (h << 32) } else { h };
    }
    if dw <= 32 { v.words[0] = n }
    v.mask();
    v
}
/// the number a vector stands for; -1 if none
fn dec<B: BitVecOps>(b: &B) -> i64 {
    let n = b.words().first().copied().unwrap_or(0) & 0xFFFF_FFFF;
    let e = enc(n, b.width());
    if e.words == b.words() && n < 1 << 30 { n as i64 } else { -1 }
}

#[derive(Clone)]
enum Arr { None, A(ArrayValue), S(SparseArrayValue) }
impl Arr {
    fn iw(&self) -> u32 { match self { Arr::None => 0, Arr::A(a) => a.index_width(), Arr::S(a) => a.index_width() } }
    fn dw(&self) -> u32 { match self { Arr::None => 0, Arr::A(a) => a.data_width(), Arr::S(a) => a.data_width() } }
    fn rep(&self) -> &'static str {
        match self { Arr::None => "none", Arr::S(_) => "bare", Arr::A(a) => match (a.is_dense(), a.is_sparse()) { (true, false) => "dense", (false, true) => "sparse", _ => "confused" } }
    }
    fn get(&self, i: u64) -> i64 {
        let x = BitVecValue::from_u64(i, self.iw());
        match self { Arr::None => -1, Arr::A(a) => dec(&a.select(&x)), Arr::S(a) => dec(&a.select(&x)) }
    }
    fn put(&mut self, i: u64, n: u64) {
        let (x, v) = (BitVecValue::from_u64(i, self.iw()), enc(n, self.dw()).bv());
        match self { Arr::None => unreachable!(), Arr::A(a) => a.store(&x, &v), Arr::S(a) => a.store(&x, &v) }
    }
    fn look(&self) -> String {
        let (iw, dw) = (self.iw(), self.dw());
        if let Arr::None = self { return "{\"rep\":\"none\",\"iw\":0,\"dw\":0,\"ne\":0,\"runs\":[]}".into() }
        let ne = match self { Arr::None => 0, Arr::A(a) => a.num_elements(), Arr::S(a) => a.num_elements() };
        // greedy affine runs
        let mut runs: Vec<String> = vec![];
        let (mut start, mut len, mut v0, mut dv) = (0u64, 0u64, 0i64, 0i64);
        for i in 0..1u64 << iw {
            let x = self.get(i);
            if len == 0 { start = i; len = 1; v0 = x }
            else if len == 1 { dv = x - v0; len = 2 }
            else if x == v0 + dv * len as i64 { len += 1 }
            else { runs.push(format!("[{start},{len},{v0},{dv}]")); start = i; len = 1; v0 = x; dv = 0 }
        }
        if len == 1 { dv = 0 }
        runs.push(format!("[{start},{len},{v0},{dv}]"));
        format!("{{\"rep\":\"{}\",\"iw\":{iw},\"dw\":{dw},\"ne\":{ne},\"runs\":[{}]}}", self.rep(), runs.join(","))
    }
}

struct Session { arrs: Vec<Arr> }
impl Session {
    fn start(k: usize) -> Session {
        emit(&format!("{{\"op\":\"reset\",\"n\":{k}}}"));
        Session { arrs: vec![Arr::None; k] }
    }
    /// performs an action and looks at the arrays in `at`
    fn act(&mut self, head: String, at: &[usize], f: impl FnOnce(&mut Vec<Arr>) -> String) -> bool {
        match guard(&head, || {
            let x = f(&mut self.arrs);
            let o: Vec<String> = self.arrs.iter().enumerate().map(|(i, a)| if at.contains(&i) || matches!(a, Arr::None) { a.look() } else { "{\"rep\":\"skip\"}".to_string() }).collect();
            (x, o.join(","))
        }) {
            Ok((x, o)) => { emit(&format!("{head}\"o\":\"ok\",{x}\"obs\":[{o}]}}")); true }
            Err(o) => { emit(&format!("{head}\"o\":\"{o}\",\"obs\":[]}}")); false }
        }
    }
    fn new(&mut self, h: usize, rep: &str, iw: u32, dw: u32, v: u64) -> bool {
        self.act(format!("{{\"op\":\"new\",\"h\":{},\"rep\":\"{rep}\",\"iw\":{iw},\"dw\":{dw},\"v\":{v},", h + 1), &[h], |a| {
            let d = enc(v, dw).bv();
            a[h] = match rep { "dense" => Arr::A(ArrayValue::new_dense(iw, &d)), "sparse" => Arr::A(ArrayValue::new_sparse(iw, &d)), _ => Arr::S(SparseArrayValue::new(iw, &d)) };
            String::new()
        })
    }
    fn slice(&mut self, h: usize, dw: u32, n: u64, p: P) -> bool {
        self.act(format!("{{\"op\":\"slice\",\"h\":{},\"dw\":{dw},\"n\":{n},\"p\":{},", h + 1, p.json()), &[h], |a| {
            a[h] = Arr::A(match dw {
                1 => { let v: Vec<bool> = (0..n).map(|k| p.at(k) & 1 == 1).collect(); v.as_slice().into() }
                8 => { let v: Vec<u8> = (0..n).map(|k| p.at(k) as u8).collect(); v.as_slice().into() }
                _ => { let v: Vec<u64> = (0..n).map(|k| enc(p.at(k), 64).words[0]).collect(); v.as_slice().into() }
            });
            String::new()
        })
    }
    fn store(&mut self, h: usize, i: u64, v: u64) -> bool {
        self.act(format!("{{\"op\":\"store\",\"h\":{},\"i\":{i},\"v\":{v},", h + 1), &[h], |a| { a[h].put(i, v); String::new() })
    }
    fn fill(&mut self, h: usize, from: u64, n: u64, step: u64, p: P, backwards: bool) -> bool {
        self.act(format!("{{\"op\":\"fill\",\"h\":{},\"from\":{from},\"n\":{n},\"step\":{step},\"p\":{},", h + 1, p.json()), &[h], |a| {
            for k in 0..n { let k = if backwards { n - 1 - k } else { k }; a[h].put(from + k * step, p.at(k)) }
            String::new()
        })
    }
    fn simple(&mut self, op: &str, h: usize) -> bool {
        self.act(format!("{{\"op\":\"{op}\",\"h\":{},", h + 1), &[h], |a| {
            match (op, &mut a[h]) {
                ("clear", Arr::A(x)) => x.clear(),
                ("clear", Arr::S(x)) => x.clear(),
                ("dense", Arr::A(x)) => x.make_dense(),
                _ => unreachable!(),
            }
            String::new()
        })
    }
    fn copy(&mut self, op: &str, h: usize, s: usize, form: u64) -> bool {
        self.act(format!("{{\"op\":\"{op}\",\"h\":{},\"s\":{},", h + 1, s + 1), &[h], |a| {
            a[h] = match (op, &a[s]) {
                ("serde", Arr::A(x)) => Arr::A(crate::opt::array(x, form == 0)),
                ("serde", Arr::S(x)) => Arr::S(crate::opt::sparse(x, form == 0)),
                ("tobare", Arr::A(x)) => Arr::S(x.clone().into()),
                ("clone", Arr::A(x)) if form == 0 => Arr::A(ArrayValue::try_from(Value::Array(x.clone())).unwrap()),
                (_, x) => x.clone(),
            };
            if op == "clone" && form == 1 {
                // a clone into something else
                if let Arr::A(x) = &a[h] { let mut y = ArrayValue::new_sparse(x.index_width(), &BitVecValue::ones(x.data_width())); y.clone_from(x); a[h] = Arr::A(y) }
            }
            String::new()
        })
    }
    fn entries(&mut self, h: usize) -> bool {
        self.act(format!("{{\"op\":\"entries\",\"h\":{},", h + 1), &[], |a| {
            let x: SparseArrayValue = match &a[h] { Arr::A(x) => x.clone().into(), Arr::S(x) => x.clone(), _ => unreachable!() };
            let (iw, dw) = (a[h].iw(), a[h].dw());
            let mut es: Vec<(i64, i64)> = x.non_default_entries().map(|(k, v)| {
                let i = if k.width() == iw { k.to_u64().map(|x| x as i64).unwrap_or(-2) } else { -3 };
                (i, if v.width() == dw { dec(&v) } else { -4 })
            }).collect();
            es.sort();
            let mut runs: Vec<String> = vec![];
            let mut k = 0;
            while k < es.len() {
                let (i, v) = es[k];
                if k + 1 == es.len() || es[k + 1].0 == i { runs.push(format!("[{i},1,1,{v},0]")); k += 1; continue }
                let (st, dv) = (es[k + 1].0 - i, es[k + 1].1 - v);
                let mut len = 2;
                while k + len < es.len() && es[k + len].0 == i + st * len as i64 && es[k + len].1 == v + dv * len as i64 { len += 1 }
                runs.push(format!("[{i},{len},{st},{v},{dv}]"));
                k += len;
            }
            format!("\"d\":{},\"runs\":[{}],\"cnt\":{},", dec(&x.default()), runs.join(","), crate::arrays::counts(&x))
        })
    }
    fn eq(&mut self, h: usize, s: usize) -> bool {
        self.act(format!("{{\"op\":\"eq\",\"h\":{},\"s\":{},", h + 1, s + 1), &[], |a| {
            let (Arr::A(x), Arr::A(y)) = (&a[h], &a[s]) else { unreachable!() };
            let o = |v: Option<bool>| match v { None => 2, Some(b) => b as u8 };
            let r = [o(x.is_equal(y)), o(y.is_equal(x))];
            let ops = [x == y, y == x, !(x != y)].map(|b| b as u8);
            format!("\"r\":{},\"ops\":{},", jbytes(&r), jbytes(&ops))
        })
    }
    fn look(&mut self) -> bool {
        let all: Vec<usize> = (0..self.arrs.len()).collect();
        self.act("{\"op\":\"look\",".into(), &all, |_| String::new())
    }
}
/// the pattern (a + b k) mod m
#[derive(Clone, Copy)]
struct P { a: u64, b: u64, m: u64 }
impl P {
    fn at(&self, k: u64) -> u64 { (self.a + self.b * k) % self.m }
    fn json(&self) -> String { format!("{{\"a\":{},\"b\":{},\"m\":{}}}", self.a, self.b, self.m) }
}
fn room(dw: u32) -> u64 { if dw >= 30 { 1 << 30 } else { 1 << dw } }
/// values that differ from element to element, or are constant, or alternate between few
fn pattern(r: &mut Rng, dw: u32, n: u64) -> P {
    let m = room(dw);
    match r.below(4) {
        0 => P { a: r.below(m.min(5)), b: 0, m },
        1 if m > n => P { a: r.below((m - n).min(10) + 1), b: 1, m },                // all different
        2 => { let m = m.min(r.range(2, 200) as u64); P { a: r.below(m), b: 1, m } }
        _ => P { a: r.below(m.min(7)), b: r.below(m.min(3)), m },
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Read, Convert, Equal, Serde }

/// `n`: a budget in thousands of elements looked at
pub fn run(r: &mut Rng, n: u64, focus: Focus, most: u32) {
    let mut left = (n * 1000) as i64;
    let mut first = true;
    // every form a large array can have, beyond every small counter
    for dw in [1u32, *r.pick(&[2u32, 7, 8, 8]), *r.pick(&[9u32, 20, 33, 64]), *r.pick(&[65u32, 100, 128])] {
        let iw = match r.below(3) { 0 => 16, _ => 17 }.min(most);
        left -= plan(r, if dw == 1 { 17.min(most) } else { iw }, dw, focus) as i64;
    }
    // more different values than the search for a default goes through
    if focus == Focus::Convert && most >= 17 { for dw in [64u32, 66] { left -= many(r, dw) as i64 } }
    for iw in [r.range(5, 11), r.range(12, 13), r.range(13, 14), 16].map(|x| x.min(most)) {
        let dw = *r.pick(&[1u32, 8, 8, 31, 64, 65, 100]);
        if focus == Focus::Serde && iw > 13 { continue }
        left -= scattered(r, iw, dw, focus) as i64;
    }
    for dw in [1u32, 8, 64] { for iw in [r.range(4, 9), r.range(10, most.min(14))] { left -= constant_slice(r, iw, dw, focus) as i64 } }
    for iw in [9u32, 13] {
        let dw = *r.pick(&[1u32, 8, 8, 31, 64, 65]);
        left -= plan(r, iw, dw, focus) as i64;
    }
    while left > 0 {
        let iw = if first { most } else { match r.below(8) { 0 => r.range(1, 8), 1 | 2 => r.range(8, 12), 3..=5 => r.range(12, 14), _ => r.range(14, most.max(15) - 1) } };
        first = false;
        left -= session(r, iw, focus) as i64;
    }
}
/// one value almost everywhere, and a few others where nobody would look first
fn scattered(r: &mut Rng, iw: u32, dw: u32, focus: Focus) -> u64 {
    let size = 1u64 << iw;
    let m = room(dw).min(6);
    let d = r.below(m);
    let other = |k: u64| (d + 1 + k % (m - 1)) % m;
    let at: Vec<u64> = (0..1 + r.below(4)).map(|_| r.below(size)).collect();
    let mut s = Session::start(2);
    let mut cost = size;
    match focus {
        Focus::Convert | Focus::Read | Focus::Serde => {
            if !s.new(0, if focus == Focus::Serde { "sparse" } else { "dense" }, iw, dw, d) { return cost }
            for (k, &i) in at.iter().enumerate() { cost += size; if !s.store(0, i, other(k as u64)) { return cost } }
            if focus == Focus::Convert && s.entries(0) { s.copy("tobare", 1, 0, 0); }
            if focus == Focus::Serde { s.copy("serde", 1, 0, 0); }
        }
        Focus::Equal => {
            // most indices stored, the others hold the default; then one of them does not
            let n = size - 1 - r.below(size / 3 + 1).min(900);
            let from = r.below(size - n + 1);
            let p = P { a: other(0), b: 0, m: room(dw) };
            if !s.new(0, "sparse", iw, dw, d) || !s.fill(0, from, n, 1, p, false) || !s.copy("clone", 1, 0, 0) || !s.simple("dense", 1) || !s.eq(0, 1) { return cost }
            for k in 0..3 {
                let g = match k { 0 => r.below(from + 1).min(from.saturating_sub(1)), 1 => (from + n + r.below(size - from - n + 1)).min(size - 1), _ => r.below(size) };
                let was = s.arrs[1].get(g).max(0) as u64;
                let x = (was + 1) % room(dw);
                cost += 4 * size;
                if !s.store(1, g, x) || !s.eq(0, 1) || !s.eq(1, 0) || !s.store(1, g, was) || !s.eq(1, 0) { return cost }
            }
        }
    }
    cost
}
/// a long slice of one value (or of one and a few others), whose length need not be a power of two
fn constant_slice(r: &mut Rng, iw: u32, dw: u32, focus: Focus) -> u64 {
    let size = 1u64 << iw;
    let n = match r.below(4) { 0 => size - r.below(size / 2), 1 => size / 2 + 1, 2 => size - 1, _ => (size / 2 + 1 + r.below(9)).min(size) };
    let mut s = Session::start(2);
    let p = P { a: 1 + r.below(room(dw).min(9) - 1), b: 0, m: room(dw) };
    if !s.slice(0, dw, n, p) { return size }
    match focus {
        Focus::Convert => { if s.entries(0) { s.copy("tobare", 1, 0, 0); } }
        Focus::Equal => { if s.new(1, "sparse", iw, dw, p.a) && s.eq(0, 1) && n < size && s.fill(1, n, size - n, 1, P { a: 0, b: 0, m: 2 }, true) { s.eq(0, 1); s.eq(1, 0); } }
        Focus::Serde => { s.copy("serde", 1, 0, 0); }
        Focus::Read => {}
    }
    4 * size
}
fn many(r: &mut Rng, dw: u32) -> u64 {
    let size = 1u64 << 21;
    let mut s = Session::start(1);
    let p = P { a: r.below(3), b: 1, m: 1 << 30 };
    let ok = if dw == 64 { s.slice(0, 64, size, p) } else { s.new(0, "dense", 21, dw, 1) && s.fill(0, 0, size, 1, p, false) };
    if ok { s.copy("tobare", 0, 0, 0); s.entries(0); }
    0
}
/// a fixed plan: few exceptions, at both ends and beyond 2^16, in a sparse and a dense array of the same type
fn plan(r: &mut Rng, iw: u32, dw: u32, focus: Focus) -> u64 {
    let size = 1u64 << iw;
    let m = room(dw).min(6);
    let d = if focus == Focus::Equal { 0 } else { r.below(m) };
    let other = |k: u64| (d + 1 + k % (m - 1)) % m;
    let last = |r: &mut Rng| size - 1 - r.below(size.min(300));
    let mut s = Session::start(2);
    let (a, b) = if r.chance(1, 2) { (0, 1) } else { (1, 0) };
    let mut at = vec![size - 1, size / 2, size / 2 - 1, last(r)];
    if size > 1 << 16 { at.push((1 << 16) + r.below(700)) }
    match focus {
        Focus::Read => {
            if !s.new(a, "dense", iw, dw, d) || !s.new(b, "sparse", iw, dw, d) { return size }
            for (k, &i) in at.iter().enumerate() { if !s.store(a, i, other(k as u64)) || k < 2 && !s.store(b, i, other(k as u64)) { return size } }
            s.look();
        }
        Focus::Convert => {
            if !s.new(a, "dense", iw, dw, d) { return size }
            for (k, &i) in at.iter().enumerate() { if !s.store(a, i, other(k as u64)) { return size } }
            // dense to sparse, and back
            if !s.copy("tobare", b, a, 0) || !s.entries(a) || !s.entries(b) { return size }
            if !s.new(b, "sparse", iw, dw, d) { return size }
            for (k, &i) in at.iter().enumerate() { if k > 0 && !s.store(b, i, other(k as u64)) { return size } }
            let p = P { a: other(0), b: 0, m: room(dw) };
            let n = (size / 16).min(5000);
            if !s.fill(b, size - n, n, 1, p, false) { return size }
            if !s.simple("dense", b) { return size }
            s.look();
        }
        Focus::Equal => {
            // equal until one index where one of them holds its default
            let (x, y) = if r.chance(1, 2) { ("dense", "sparse") } else { ("sparse", "dense") };
            if !s.new(a, x, iw, dw, d) || !s.new(b, y, iw, dw, d) || !s.eq(a, b) { return size }
            for (k, &i) in at.iter().enumerate() { if k < 2 && (!s.store(a, i, other(k as u64)) || !s.store(b, i, other(k as u64))) { return size } }
            if !s.eq(a, b) { return size }
            for h in [a, b] {
                for &i in &at[2..] {
                    let was = s.arrs[h].get(i).max(0) as u64;
                    if !s.store(h, i, other(was + 1 + d)) || !s.eq(a, b) || !s.eq(b, a) || !s.store(h, i, was) || !s.eq(a, b) { return size }
                }
            }
            // the same values as exceptions of another default
            if m > 2 && size <= 1 << 13 {
                if !s.new(b, "sparse", iw, dw, other(0)) || !s.fill(b, 0, size, 1, P { a: d, b: 0, m: room(dw) }, true) || !s.eq(a, b) { return size }
                for &i in &at[..2] { let v = s.arrs[a].get(i).max(0) as u64; if !s.store(b, i, v) || !s.eq(a, b) { return size } }
            }
        }
        Focus::Serde => {
            if size > 1 << 15 { return 0 }
            if !s.new(a, "dense", iw, dw, d) { return size }
            for (k, &i) in at.iter().enumerate() { if !s.store(a, i, other(k as u64)) { return size } }
            for f in 0..2 { if !s.copy("serde", b, a, f) { return size } }
        }
    }
    size * s.arrs.len() as u64 * 6
}
fn session(r: &mut Rng, iw: u32, focus: Focus) -> u64 {
    let size = 1u64 << iw;
    let dw = *r.pick(&[1u32, 1, 2, 7, 8, 8, 16, 17, 31, 32, 33, 63, 64, 64, 65, 128, 129, 200]);
    let dw = if size > 1 << 15 && dw > 64 && r.chance(2, 3) { *r.pick(&[1, 8, 16, 64]) } else { dw };
    let mut s = Session::start(2);
    let mut cost = 0;
    for h in 0..2 {
        cost += size;
        let ok = if r.chance(1, 4) {
            // a slice that just fits, or not quite, this index width
            let sw = if matches!(dw, 1 | 8 | 64) { dw } else { *r.pick(&[1u32, 8, 64]) };
            let len = match r.below(4) { 0 => size, 1 => size / 2 + 1, 2 => size - r.below(size.min(5)), _ => size / 2 + 1 + r.below(size / 2) }.max(1);
            let p = pattern(r, sw, len);
            s.slice(h, sw, len, p)
        } else {
            let v = if r.chance(1, 2) { 0 } else { r.below(room(dw).min(4)) };
            let rep = match r.below(10) { 0..=4 => "dense", 9 if focus != Focus::Equal => "bare", _ => "sparse" };
            s.new(h, rep, iw, dw, v)
        };
        if !ok { return cost }
    }
    let steps = 6 + r.below(8);
    for step in 0..steps {
        let (h, o) = (r.below(2) as usize, r.below(2) as usize);
        let (w, d) = (s.arrs[h].iw(), s.arrs[h].dw());
        let sz = 1u64 << w;
        cost += sz;
        let boxed = matches!(s.arrs[h], Arr::A(_));
        let p = r.below(100);
        //              fill store clear clone dense bare entries eq serde
        let wt: [u64; 9] = match focus {
            Focus::Read => [47, 32, 5, 5, 8, 3, 0, 0, 0],
            Focus::Convert => [40, 8, 4, 4, 18, 8, 18, 0, 0],
            Focus::Equal => [34, 16, 2, 12, 8, 0, 0, 28, 0],
            Focus::Serde => [40, 10, 5, 3, 5, 5, 5, 2, 25],
        };
        let (mut a, mut acc) = (0, 0);
        for (i, w) in wt.iter().enumerate() { acc += w; if p < acc { a = i; break } }
        if step < 2 { a = 0 }
        let ok = match a {
            0 => {
                // dense stretches anywhere, everything, or a few scattered elements
                let (from, n, st) = match r.below(5) {
                    0 => (0, sz, 1),
                    1 => { let n = 1 + r.below(sz); (sz - n, n, 1) }
                    2 => { let from = r.below(sz); (from, 1 + r.below(sz - from), 1) }
                    3 => { let st = 1 + r.below(sz / 2 + 1); let from = r.below(sz.min(9)); (from, ((sz - 1 - from) / st + 1).min(800), st) }
                    _ => { let n = (1 + r.below(300)).min(sz); (sz - n, n, 1) }
                };
                let p = pattern(r, d, n);
                // keep the number of runs in the log moderate
                let p = if n > 40_000 && p.b != 0 && p.m < n && p.m < 100 { P { a: p.a, b: 0, m: p.m } } else { p };
                let back = r.chance(1, 4);
                s.fill(h, from, n, st, p, back)
            }
            1 => {
                let i = match r.below(4) { 0 => sz - 1, 1 => (1u64 << r.below(w as u64 + 1)).min(sz - 1), 2 => r.below(sz / 64 + 1) * 64 % sz, _ => r.below(sz) };
                // the value at hand, that of the other array, or another
                let same = s.arrs[o].iw() == w && s.arrs[o].dw() == d;
                let v = if same && r.chance(1, 2) { guard("{\"op\":\"peek\",", || s.arrs[o].get(i)).unwrap_or(0).max(0) as u64 } else { r.below(room(d).min(6)) };
                s.store(h, i, v)
            }
            2 => s.simple("clear", h),
            3 => { let f = r.below(2); s.copy("clone", h, o, f) }
            4 if boxed => s.simple("dense", h),
            5 if matches!(s.arrs[o], Arr::A(_)) => s.copy("tobare", h, o, 0),
            6 => s.entries(h),
            7 if boxed && matches!(s.arrs[1 - h], Arr::A(_)) => s.eq(h, 1 - h),
            8 => { let f = r.below(2); s.copy("serde", h, o, f) }
            _ => true,
        };
        if !ok { return cost }
    }
    if matches!(focus, Focus::Equal) && matches!(s.arrs[0], Arr::A(_)) && matches!(s.arrs[1], Arr::A(_)) {
        // equal, then different in one element, through both representations
        let sz = 1u64 << s.arrs[0].iw();
        let f = r.below(2);
        if !s.copy("clone", 1, 0, f) { return cost }
        if r.chance(1, 2) && !s.simple("dense", r.below(2) as usize) { return cost }
        if !s.eq(0, 1) { return cost }
        let i = match r.below(3) { 0 => sz - 1, 1 => 0, _ => r.below(sz) };
        let m = room(s.arrs[1].dw());
        let v = (guard("{\"op\":\"peek\",", || s.arrs[0].get(i)).unwrap_or(0).max(0) as u64 + 1) % m;
        if !s.store(1, i, v) || !s.eq(0, 1) || !s.eq(1, 0) { return cost }
        cost += 4 * sz;
    }
    if matches!(focus, Focus::Convert) && !s.entries(0) { return cost }
    s.look();
    cost + 2 * size
}

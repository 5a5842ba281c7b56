//! Performs behaviours generated from the specification (DIR/script.ndjson) on the real library.  The scripts speak
//! of abstract vectors, words, values and keys; here they become concrete ones.
use crate::ev::*;
use crate::gen::*;
use crate::regs::*;
use crate::rng::Rng;
use crate::stores::*;
use baa::*;
use std::collections::BTreeMap;

type J = serde_json::Value;
fn lines(dir: &str) -> Vec<J> {
    std::fs::read_to_string(format!("{dir}/script.ndjson")).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}
fn num(e: &J, k: &str) -> u64 { e[k].as_u64().unwrap() }
fn list(e: &J) -> Vec<u64> { e.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect() }

// ---------------------------------------------------------------- WalkRegs
fn numeral(r: &mut Rng, v: &Val) -> (String, u32) {
    let (neg, m) = if r.chance(1, 3) { ("-", v.neg()) } else { ("", v.clone()) };
    let bits: String = (0..m.w).rev().map(|i| if m.bit(i) { '1' } else { '0' }).collect();
    if r.chance(1, 2) { return (format!("{neg}{bits}"), 2) }
    let hex: String = m.words.iter().rev().map(|w| format!("{w:016x}")).collect();
    (format!("{neg}{}", &hex[hex.len() - (m.w as usize + 3) / 4..]), 16)
}
pub fn regs(r: &mut Rng, dir: &str, variant: u64) {
    let mut bank: Option<Bank> = None;
    let (mut dead, mut w, mut pos) = (true, 0, vec![]);
    let mut turn = 0;
    for e in lines(dir) {
        let op = e["op"].as_str().unwrap();
        if op == "restart" {
            let k = num(&e, "k") as usize;
            w = *r.pick(&[3u32, 8, 63, 64, 64, 65, 66, 127, 128, 129, 130, 192, 200]);
            let mut cand = vec![0, w - 1, w / 2, 63, 64, 62, 127, 128, w - 2];
            if k == 2 && turn % 2 == 0 { cand.rotate_left((turn / 2) % 9) }
            cand.retain(|p| *p < w);
            pos = vec![];
            for p in cand { if !pos.contains(&p) && pos.len() < k { pos.push(p) } }
            turn += 1;
            let vals = vec![Val::zero(w), Val::zero(w)];
            let b = Bank::new((variant + turn as u64) % 3 == 0, &vals, r);
            emit(&format!("{{\"op\":\"reset\",{}}}", b.log(2)));
            bank = Some(b);
            dead = pos.len() < k;
            continue;
        }
        if dead { continue }
        let b = bank.as_mut().unwrap();
        let d = num(&e, "d") as usize - 1;
        let cells = list(&e["v"]);
        let rest = *cells.last().unwrap() == 1;
        let mut v = if rest { Val::ones(w) } else { Val::zero(w) };
        for (p, c) in pos.iter().zip(&cells) { v.set(*p, *c == 1) }
        let view = r.chance(1, 2);
        let o = |name: &'static str, n: i64, x: u64| Op { name, n, x, t: String::new() };
        let fits = v.bitlen() <= 64;
        let sext = (63..w).all(|i| v.bit(i) == v.bit(w - 1));
        dead = !match op {
            "assign" => assign_from(b, 2, d, 1 - d, view),
            "clone" => match b {
                Bank::Owned(_) => { let (name, f) = if variant % 2 == 1 { ("serde", r.below(2)) } else { ("clone", 0) }; replace(b, 2, d, 1 - d, name, &v, f) }
                _ => assign_from(b, 2, d, 1 - d, view),
            },
            "setu64" if fits => perform(b, 2, d, view, &o("setu64", 0, v.words[0])),
            "seti64" if w < 64 || sext => { let x = if w < 64 { ((v.words[0] << (64 - w)) as i64 >> (64 - w)) as u64 } else { v.words[0] }; perform(b, 2, d, view, &o("seti64", 0, x)) }
            "parse" => { let (t, n) = numeral(r, &v); perform(b, 2, d, view, &Op { name: "parse", n: n as i64, x: 0, t }) }
            "assignv" | "setu64" | "seti64" => assign(b, 2, d, view, &v, r.below(3)),
            "ones" => perform(b, 2, d, view, &o("ones", 0, 0)),
            "clear" => perform(b, 2, d, view, &o("clear", 0, 0)),
            "mask" => perform(b, 2, d, view, &o("mask", 0, 0)),
            "setbit" => perform(b, 2, d, view, &o("setbit", pos[num(&e, "i") as usize] as i64, 0)),
            "clearbit" => perform(b, 2, d, view, &o("clearbit", pos[num(&e, "i") as usize] as i64, 0)),
            _ => panic!("script op {op}"),
        };
    }
}

// ---------------------------------------------------------------- WalkSlab
pub fn slab(r: &mut Rng, dir: &str, variant: u64) {
    let mut mem: Vec<u64> = vec![];
    let (mut unit, mut tail, mut base, mut two) = (1u32, 64u32, 0u32, [vec![], vec![]]);
    let mut dead = true;
    let mut turn = variant;
    for e in lines(dir) {
        let op = e["op"].as_str().unwrap();
        if op == "restart" {
            let n = num(&e, "n") as u32;
            unit = [1, 2, 1, 3][turn as usize % 4];
            tail = *r.pick(&[64, 1, 33, 63, 64]);
            base = r.below(3) as u32;
            let m = if tail == 64 { u64::MAX } else { (1 << tail) - 1 };
            two = [vec![], vec![]];
            for _ in 0..unit { let x = r.next() & m; two[0].push(x & !1); two[1].push(x | 1) }
            if turn % 3 == 0 { two[0] = vec![0; unit as usize] }
            mem = (0..base).map(|_| r.next() | 1).collect();
            for _ in 0..n { mem.extend(&two[0]) }
            for _ in 0..r.below(3) { mem.push(u64::MAX) }
            mem = padded(if turn % 4 == 3 { 65_536 - base } else { 0 }, &mem);
            emit(&format!("{{\"op\":\"reset\",{}}}", jstore(&mem)));
            turn += 1;
            dead = false;
            continue;
        }
        if dead { continue }
        let ix = |x: &J| Ix { i: base + num(x, "i") as u32 * unit, w: num(x, "w") as u32 * unit - (64 - tail) };
        let srcs: Vec<Ix> = e["srcs"].as_array().unwrap().iter().map(ix).collect();
        let x = ix(&e["x"]);
        let byref = r.chance(1, 2);
        dead = !if op == "read" { slab_read(&mem, &srcs, byref) } else {
            let words: Vec<u64> = list(&e["v"]).iter().flat_map(|k| two[*k as usize].clone()).collect();
            let v = if words.is_empty() { Val::zero(x.w) } else { Val { w: x.w, words } };
            slab_write(&mut mem, x, &srcs, e["do"].as_str().unwrap(), &v, 0, byref)
        };
    }
}

// ---------------------------------------------------------------- WalkInterner
fn palette(r: &mut Rng, k: u64) -> Vec<Val> {
    let x = r.next() | 1 << 63;
    let y = r.next() >> 8 | 9;
    match k % 4 {
        0 => vec![Val::from_u64(64, 0), Val::from_u64(1, 0), Val::from_u64(64, 7), Val::from_u64(64, 8), Val::from_u64(32, 8),
                  Val::from_u64(65, 8), Val::from_u64(65, 0), Val::from_words(128, &[8, 0]), Val::from_u64(1, 1), Val::from_u64(65, 1)],
        1 => vec![Val::from_words(128, &[x, 0]), Val::from_words(128, &[x, x]), Val::from_u64(64, x), Val::from_words(65, &[x, 0]),
                  Val::from_words(65, &[x, 1]), Val::from_words(192, &[x, 0, 0]), Val::from_words(192, &[x, x, 0]), Val::from_words(128, &[0, x]), Val::from_words(129, &[x, 0, 0]), Val::from_words(129, &[x, 0, 1])],
        2 => vec![Val::from_u64(60, y), Val::from_u64(61, y), Val::from_u64(64, y), Val::from_u64(62, y), Val::from_u64(64, y | 1 << 63),
                  Val::from_u64(64, y & !1), Val::from_u64(64, !y), Val::from_u64(63, y), Val::from_u64(64, y ^ 2), Val::from_u64(59, y)],
        _ => (0..10u64).map(|k| Val::from_words(if k < 5 { 256 } else { 70 + k as u32 }, &[x, k % 5, if k < 5 { x } else { 0 }, k / 4])).collect(),
    }
}
pub fn interner(r: &mut Rng, dir: &str, variant: u64) {
    let mut it = ValueInterner::new();
    let mut seen: Vec<(Val, BitVecValueIndex)> = vec![];
    let mut vals = vec![];
    let mut dead = true;
    let mut turn = variant;
    for e in lines(dir) {
        let op = e["op"].as_str().unwrap();
        if op == "restart" {
            it = ValueInterner::new();
            seen.clear();
            vals = palette(r, turn);
            turn += 1;
            dead = false;
            emit("{\"op\":\"reset\"}");
            continue;
        }
        if dead { continue }
        let v = &vals[num(&e, "v") as usize - 1];
        dead = !match op {
            "intern" => intern(&mut it, v, r.below(3), &mut seen),
            "read" => { let ix = seen.iter().find(|(s, _)| s == v).unwrap().1; read_index(&it, ix, r.chance(1, 2)) }
            _ => panic!("script op {op}"),
        };
        if r.chance(1, 30) { it = it.clone() }
    }
}

// ---------------------------------------------------------------- WalkMaps
fn keys(r: &mut Rng, k: u64) -> Vec<Val> {
    let x = r.next() >> 3 | 1;
    match k % 6 {
        0 => vec![Val::from_u64(64, x), Val::from_u64(65, x), Val::from_u64(63, x)],
        1 => vec![Val::from_words(128, &[1, 0]), Val::from_words(128, &[0, 1]), Val::from_u64(64, 1)],
        2 => vec![Val::from_u64(1, 0), Val::from_u64(2, 0), Val::from_u64(64, 0)],
        3 => vec![Val::from_words(128, &[x, x]), Val::from_words(128, &[x ^ 1, x]), Val::from_words(128, &[x, x ^ 1])],
        4 => vec![Val::zero(128), Val::zero(129), Val::zero(192)],
        _ => vec![Val::from_words(192, &[x, 0, x]), Val::from_words(192, &[0, x, x]), Val::from_words(192, &[x, x, 0])],
    }
}
pub fn maps(r: &mut Rng, dir: &str, variant: u64) {
    let mut map = crate::stores::Map::default();
    let mut tree: BTreeMap<BitVecValue, i64> = BTreeMap::new();
    let mut ks = vec![];
    let mut dead = true;
    let mut turn = variant;
    for e in lines(dir) {
        let op = e["op"].as_str().unwrap();
        match op {
            "restart" => {
                map.clear();
                tree.clear();
                ks = keys(r, turn);
                turn += 1;
                dead = false;
                emit("{\"op\":\"reset\"}");
            }
            _ if dead => {}
            _ => dead = !mapdo(r, op, &ks[num(&e, "k") as usize - 1], num(&e, "n") as i64, &mut map, &mut tree),
        }
    }
}

// ---------------------------------------------------------------- GenCalls: C07, C01
pub fn call_val(e: &J) -> Val {
    let d: Vec<u8> = list(&e["d"]).iter().map(|x| *x as u8).collect();
    Val { w: num(e, "w") as u32, words: d.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() }
}
/// pairs of vectors, grouped; a group is one session
pub fn pairs(r: &mut Rng, dir: &str) {
    let mut es = lines(dir);
    es.sort_by_key(|e| num(e, "n"));
    let mut group = u64::MAX;
    let mut pool: Vec<Val> = vec![];
    let mut dead = false;
    for e in es {
        if num(&e, "n") != group {
            if !pool.is_empty() && !dead { sort(r, &pool); }
            emit("{\"op\":\"reset\"}");
            pool.clear();
            dead = false;
            group = num(&e, "n");
        }
        if dead { continue }
        let (a, b) = (call_val(&e["a"]), call_val(&e["b"]));
        dead = !pair(r, &a, &b);
        if a == b { pool.push(a) }
    }
    if !pool.is_empty() && !dead { sort(r, &pool); }
}

//! C21: values that wrap a vector or an array.
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use baa::*;
use std::convert::TryFrom;

fn show_bv(v: &BitVecValue) -> String { jbv(v) }
fn show_arr(a: &ArrayValue) -> String {
    let (iw, dw) = (a.index_width(), a.data_width());
    let rep = match (a.is_dense(), a.is_sparse()) { (true, false) => "dense", (false, true) => "sparse", _ => "confused" };
    if iw > 9 {
        // what a sparse array lists (a large dense one only shows some elements)
        let mut es: Vec<String> = vec![];
        if rep == "sparse" {
            let s = SparseArrayValue::from(a.clone());
            es = s.non_default_entries().map(|(i, v)| format!("[{},{}]", jbv(&i), jbv(&v))).collect();
            es.sort();
            es.push(jbv(&s.default()));
        }
        let mut i = Val::zero(iw);
        for k in 0..=iw { es.push(jbv(&a.select(&i.bv()))); if k < iw { i = Val::zero(iw); i.set(k, true); } }
        return format!("{{\"rep\":\"{rep}\",\"iw\":{iw},\"dw\":{dw},\"els\":[{}]}}", es.join(","));
    }
    let els: Vec<String> = (0..1u64 << iw).map(|i| jbv(&a.select(&BitVecValue::from_u64(i, iw)))).collect();
    format!("{{\"rep\":\"{rep}\",\"iw\":{iw},\"dw\":{dw},\"els\":[{}]}}", els.join(","))
}
fn payload(v: &Value) -> (&'static str, String) {
    match v { Value::BitVec(x) => ("bv", show_bv(x)), Value::Array(x) => ("arr", show_arr(x)) }
}
enum Item { Bv(BitVecValue), Arr(ArrayValue) }
struct Session { slots: Vec<Option<Value>> }
impl Session {
    fn start(n: usize) -> Session {
        emit(&format!("{{\"op\":\"reset\",\"n\":{n}}}"));
        Session { slots: (0..n).map(|_| None).collect() }
    }
    fn obs(&self) -> String {
        let o: Vec<String> = self.slots.iter().map(|s| match s {
            None => "{\"kind\":\"none\",\"x\":0}".to_string(),
            Some(v) => { let (k, x) = payload(v); format!("{{\"kind\":\"{k}\",\"x\":{x}}}") }
        }).collect();
        o.join(",")
    }
    fn act(&mut self, head: String, f: impl FnOnce(&mut Vec<Option<Value>>) -> String) -> bool {
        match guard(&head, || { let x = f(&mut self.slots); (x, self.obs()) }) {
            Ok((x, o)) => { emit(&format!("{head}\"o\":\"ok\",{x}\"obs\":[{o}]}}")); true }
            Err(o) => { emit(&format!("{head}\"o\":\"{o}\",\"obs\":[]}}")); false }
        }
    }
    fn wrap(&mut self, h: usize, item: Item) -> bool {
        let (kind, x) = match &item { Item::Bv(v) => ("bv", show_bv(v)), Item::Arr(a) => ("arr", show_arr(a)) };
        self.act(format!("{{\"op\":\"wrap\",\"h\":{},\"kind\":\"{kind}\",\"x\":{x},", h + 1), |s| {
            let v = match item { Item::Bv(v) => Value::BitVec(v), Item::Arr(a) => Value::Array(a) };
            let _ = format!("{v:?}");
            s[h] = Some(v);
            String::new()
        })
    }
    fn clone(&mut self, h: usize, o: usize) -> bool {
        self.act(format!("{{\"op\":\"clone\",\"h\":{},\"s\":{},", h + 1, o + 1), |s| {
            let c = s[o].clone().unwrap();
            // into an existing value, or as a new one
            match &mut s[h] { Some(v) if h != o => v.clone_from(&c), _ => s[h] = Some(c) }
            String::new()
        })
    }
    fn modify(&mut self, h: usize, f: impl FnOnce(&mut Value)) -> bool {
        self.act(format!("{{\"op\":\"modify\",\"h\":{},", h + 1), |s| {
            let v = s[h].as_mut().unwrap();
            // whether the change succeeds is decided elsewhere
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(v)));
            let (k, x) = match v { Value::BitVec(x) => ("bv", show_bv(x)), Value::Array(x) => ("arr", show_arr(x)) };
            format!("\"kind\":\"{k}\",\"x\":{x},")
        })
    }
    fn unwrap(&mut self, h: usize, kind: &str) -> bool {
        self.act(format!("{{\"op\":\"unwrap\",\"h\":{},\"kind\":\"{kind}\",", h + 1), |s| {
            let v = s[h].take().unwrap();
            let r = if kind == "bv" { BitVecValue::try_from(v).map(|x| show_bv(&x)) } else { ArrayValue::try_from(v).map(|x| show_arr(&x)) };
            match r { Ok(x) => format!("\"ok\":1,\"x\":{x},"), Err(()) => "\"ok\":0,\"x\":0,".into() }
        })
    }
    fn eq(&mut self, h: usize, o: usize) -> bool {
        let (a, b) = (self.slots[h].as_ref().unwrap(), self.slots[o].as_ref().unwrap());
        // how vectors and arrays compare is decided elsewhere
        let inner = guard("{\"op\":\"inner\",", || match (a, b) { (Value::BitVec(x), Value::BitVec(y)) => x == y && y == x, (Value::Array(x), Value::Array(y)) => x == y && y == x, _ => false });
        let Ok(inner) = inner else { return false };
        self.act(format!("{{\"op\":\"eq\",\"h\":{},\"s\":{},", h + 1, o + 1), |s| {
            let (a, b) = (s[h].as_ref().unwrap(), s[o].as_ref().unwrap());
            let r = [a == b, b == a, !(a != b), !(b != a), a.clone() == *b].map(|x| x as u8);
            format!("\"inner\":{},\"r\":{},", inner as u8, jbytes(&r))
        })
    }
    fn kind(&self, h: usize) -> &'static str { match &self.slots[h] { None => "none", Some(Value::BitVec(_)) => "bv", Some(Value::Array(_)) => "arr" } }
}
fn array(r: &mut Rng, iw: u32, dw: u32) -> ArrayValue {
    let d = value(r, dw).bv();
    let mut a = if iw <= 12 && r.chance(1, 2) { ArrayValue::new_dense(iw, &d) } else { ArrayValue::new_sparse(iw, &d) };
    for _ in 0..r.below(4) { let i = value(r, iw).bv(); a.store(&i, &value(r, dw).bv()) }
    a
}
pub fn c21(r: &mut Rng, n: u64) {
    let mut left = n as i64;
    while left > 0 {
        let mut s = Session::start(3);
        let (w, iw, dw) = (session_width(r, 200, 1300), r.range(0, 3), session_width(r, 130, 200));
        let w = if r.chance(1, 60) { *r.pick(&HUGE) } else { w };
        let iw = if r.chance(1, 4) { *r.pick(&[4u32, 5, 6, 7, 8, 9, 10, 12, 16, 31, 32, 63, 64, 65, 100, 128, 129, 200]) } else { iw };
        let dw = if iw > 3 { dw.min(24) } else { dw };
        for _ in 0..25 {
            left -= 1;
            let (h, o) = (r.below(3) as usize, r.below(3) as usize);
            let fresh = |r: &mut Rng| if r.chance(1, 2) {
                let w = if r.chance(3, 4) { w } else { dw };
                let v = if r.chance(1, 3) { Val::from_u64(w, r.below(2)) } else { value(r, w) };
                Item::Bv(v.bv())
            } else { let (i, d) = if r.chance(3, 4) { (iw, dw) } else { (r.range(0, 3), dw) }; Item::Arr(array(r, i, d)) };
            // the items are made outside: if that fails another property is broken
            let item = match guard("{\"op\":\"make\",", || fresh(r)) { Ok(i) => i, Err(_) => break };
            let ok = match r.below(10) {
                _ if s.kind(h) == "none" => s.wrap(h, item),
                0 => s.wrap(h, item),
                1..=3 => if s.kind(o) != "none" { s.clone(h, o) } else { true },
                4 | 5 => {
                    let mut r2 = r.clone();
                    r.next();
                    s.modify(h, |v| match v {
                        Value::BitVec(x) => match r2.below(5) { 0 => x.clear(), 1 => x.assign_ones(), 2 => x.set_bit(r2.below(x.width() as u64) as u32), 3 => { let w = if r2.chance(1, 2) { x.width() } else { r2.range(1, 200) }; let y = value(&mut r2, w).bv(); x.clone_from(&y) } _ => { let y = value(&mut r2, x.width()).bv(); x.assign(&y) } },
                        Value::Array(a) => match r2.below(4) { 0 => a.clear(), 1 if a.index_width() <= 12 => a.make_dense(), 2 => { let (i, d) = if r2.chance(1, 2) { (a.index_width(), a.data_width()) } else { (r2.range(0, 3), 9) }; let b = array(&mut r2, i, d); a.clone_from(&b) } _ => { let i = value(&mut r2, a.index_width()).bv(); let y = value(&mut r2, a.data_width()).bv(); a.store(&i, &y) } },
                    })
                }
                6 => { let k = if r.chance(1, 2) { s.kind(h) } else { *r.pick(&["bv", "arr"]) }; s.unwrap(h, k) }
                _ => if s.kind(o) != "none" { s.eq(h, o) } else { true },
            };
            if !ok { break }
        }
    }
}
/// Behaviours of MCValues
pub fn script(r: &mut Rng, dir: &str, variant: u64) {
    let text = std::fs::read_to_string(format!("{dir}/script.ndjson")).unwrap();
    let mut s = Session::start(1);
    let (mut bvs, mut arrs): (Vec<BitVecValue>, Vec<ArrayValue>) = (vec![], vec![]);
    let mut dead = false;
    let mut turn = variant;
    for line in text.lines() {
        let e: serde_json::Value = serde_json::from_str(line).unwrap();
        let num = |k: &str| e[k].as_u64().unwrap_or(0) as usize;
        let (op, kind) = (e["op"].as_str().unwrap(), e["kind"].as_str().unwrap_or("").to_string());
        if op == "restart" {
            let w = session_width(r, 200, 1300);
            bvs = (0..num("x") as u64).map(|k| if turn % 2 == 0 { Val::from_u64(w, k & 1) } else { Val::from_u64(w + k as u32, 1) }).map(|v| v.bv()).collect();
            let (iw, dw) = (r.range(0, 2), *r.pick(&[1u32, 8, 64, 65]));
            arrs = (0..num("x") as u32).map(|k| {
                let z = Val::from_u64(dw, (k & 1) as u64).bv();
                // equal contents in different representations, or different contents
                let (rep, v) = if turn % 2 == 0 { (k % 2 == 0, &z) } else { (k % 2 == 0, &Val::from_u64(dw, 1).bv()) };
                if rep { ArrayValue::new_dense(iw, v) } else { ArrayValue::new_sparse(iw, v) }
            }).collect();
            turn += 1;
            s = Session::start(num("n"));
            dead = false;
            continue;
        }
        if dead { continue }
        let h = num("h") - 1;
        let k = num("x").max(1) - 1;
        let (b, a) = (bvs[k].clone(), arrs[k].clone());
        dead = !match op {
            "wrap" => s.wrap(h, if kind == "bv" { Item::Bv(b) } else { Item::Arr(a) }),
            "clone" => s.clone(h, num("s") - 1),
            "modify" => s.modify(h, |v| match v { Value::BitVec(x) => *x = b, Value::Array(x) => *x = a }),
            "unwrap" => s.unwrap(h, &kind),
            "eq" => s.eq(h, num("s") - 1),
            _ => panic!("script op {op}"),
        };
    }
}

//! C20: a cross-section of all drivers (compared between build profiles) and calls that violate a contract.
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use baa::*;

pub fn c20(r: &mut Rng, n: u64) {
    type Driver = fn(&mut Rng, u64);
    let ds: [(Driver, u64); 18] = [
        (crate::canon::c01, 3), (crate::calls::c02, 2), (crate::calls::c03, 2), (crate::calls::c04, 2), (crate::calls::c05, 2),
        (crate::calls::c06, 2), (crate::calls::c08, 3), (crate::calls::c09, 2), (crate::calls::c10, 3), (crate::calls::c11, 2),
        (crate::calls::c12, 1), (crate::regs::c13, 3), (crate::stores::c07, 1), (crate::stores::c14, 2), (crate::stores::c15, 1),
        (crate::arrays::c16, 2), (crate::arrays::c17, 2), (crate::arrays::c18, 2),
    ];
    violations(r, n / 4);
    for (d, w) in ds { d(r, n * w / 50) }
    // nothing is evaluated here, so every operation can be driven far beyond small counters
    wide(r);
    crate::tables::run(r, (n / 20).min(3000), crate::tables::Focus::Equal, 13);
    crate::tables::run(r, (n / 40).min(1500), crate::tables::Focus::Convert, 13);
    crate::regs::c19(r, n / 50);
    crate::arrays::c19(r, n / 50);
}

/// every operation at widths no small counter reaches
fn wide(r: &mut Rng) {
    const OPS: [&str; 49] = ["decstr", "decsmall", "add", "bit", "sub", "shl", "ugt", "uge", "ult", "ule", "hexstr", "slice", "lshr", "slt", "sle", "bitstr", "zext", "ashr", "iseq", "isne", "tobytes",
        "sext", "not", "sge", "sgt", "fromu64", "fromi64", "concat", "parse16", "xor", "and", "or", "neg", "frombytes", "dbg", "tou64", "toi64", "tobui", "tobi", "frombui", "frombi", "autobui", "autobi",
        "parse2", "parse10", "frombit", "fromhex", "iszero", "mul"];
    for op in OPS.iter().chain(&["sbitstr", "shexstr", "isneg"]) {
        for w in [16_384 + r.below(70) as u32, 40_001, 65_536, 70_001] { crate::calls::huge_call(r, op, w) }
    }
}

/// C22: everything that exists in every feature set; what does not is recorded as absent
pub fn c22(r: &mut Rng, n: u64) {
    type Driver = fn(&mut Rng, u64);
    let ds: [(Driver, u64); 16] = [
        (crate::calls::c02, 2), (crate::calls::c03, 2), (crate::calls::c04, 2), (crate::calls::c05, 2),
        (crate::calls::c06, 2), (crate::calls::c08, 3), (crate::calls::c09, 4), (crate::calls::c10, 4), (crate::calls::c11, 2),
        (crate::calls::c12, 1), (crate::regs::c13, 3), (crate::stores::c14, 2), (crate::stores::c15, 1),
        (crate::arrays::c16, 2), (crate::arrays::c17, 2), (crate::arrays::c18, 2),
    ];
    for (d, w) in ds { d(r, n * w / 50) }
    wide(r);
    crate::stores::c07(r, n / 50);
    crate::tables::run(r, (n / 20).min(3000), crate::tables::Focus::Equal, 13);
    crate::tables::run(r, (n / 40).min(1500), crate::tables::Focus::Convert, 13);
    crate::values::c21(r, n / 50);
}

fn refuse(head: String, f: impl FnOnce()) {
    if !cfg!(debug_assertions) {
        // what a release build makes of it is unspecified
        emit(&format!("{head}\"o\":\"skip\",\"r\":0}}"));
        return;
    }
    match guard(&head, f) {
        Ok(()) => emit(&format!("{head}\"o\":\"ok\",\"r\":0}}")),
        Err(o) => emit(&format!("{head}\"o\":\"{o}\",\"r\":0}}")),
    }
}
fn bin(op: &str, a: &BitVecValue, b: &BitVecValue) {
    let (p, q) = (BitVecValueRef::from(a), BitVecValueRef::from(b));
    match op {
        "add" => { a.add(b); }
        "sub" => { a.sub(b); }
        "addop" => { let _ = a + b; }
        "subop" => { let _ = a - b; }
        "mul" => { a.mul(b); }
        "and" => { a.and(&q); }
        "or" => { a.or(b); }
        "xor" => { p.xor(b); }
        "shl" => { a.shift_left(b); }
        "lshr" => { p.shift_right(&q); }
        "ashr" => { a.arithmetic_shift_right(b); }
        "iseq" => { a.is_equal(b); }
        "isne" => { p.is_not_equal(&q); }
        "ugt" => { a.is_greater(b); }
        "uge" => { a.is_greater_or_equal(b); }
        "ult" => { a.is_less(b); }
        "ule" => { p.is_less_or_equal(b); }
        "sgt" => { a.is_greater_signed(b); }
        "sge" => { a.is_greater_or_equal_signed(b); }
        "slt" => { a.is_less_signed(&q); }
        "sle" => { a.is_less_or_equal_signed(b); }
        "assign" => { let mut t = a.clone(); t.assign(b); }
        "assignref" => { let mut t = a.clone(); BitVecValueMutRef::from(&mut t).assign(q); }
        _ => unreachable!(),
    }
}
const BIN: [&str; 23] = [
    "add", "sub", "addop", "subop", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "iseq", "isne", "ugt", "uge", "ult", "ule",
    "sgt", "sge", "slt", "sle", "assign", "assignref",
];
fn other_width(r: &mut Rng, w: u32) -> u32 {
    loop {
        let v = match r.below(6) { 0 => w + 1, 1 => w.saturating_sub(1), 2 => w + 64, 3 => w.saturating_sub(64), 4 => (w.div_ceil(64)) * 64, _ => width_upto(r, 300) };
        if v != w && v > 0 { return v }
    }
}
pub fn violations(r: &mut Rng, n: u64) {
    // every operation at the boundaries first, then at random
    let pairs = [(1u32, 2u32), (2, 1), (8, 7), (64, 63), (64, 65), (65, 64), (65, 66), (128, 127), (128, 129), (100, 64), (1, 128), (192, 129)];
    for op in BIN { for (w1, w2) in pairs { let (a, b) = (value(r, w1), value(r, w2)); mismatch(op, &a, &b) } }
    let types = [(3u32, 8u32), (3, 1), (3, 7), (3, 64), (3, 33), (3, 65), (3, 128), (12, 9), (0, 8), (1, 1)];
    for rep in ["dense", "sparse", "bare"] { for (iw, dw) in types { array(r, rep, iw, dw) } }
    for rep in ["sparse", "bare"] { for (iw, dw) in [(64u32, 1u32), (64, 65), (65, 8), (65, 70), (128, 64), (200, 200), (33, 32)] { array(r, rep, iw, dw) } }
    // the size limit of dense arrays: 1 GiB and just above, at every kind of storage
    for (iw, dw) in [(31u32, 1u32), (34, 1), (40, 1), (30, 2), (31, 2), (30, 8), (31, 8), (27, 9), (28, 9), (27, 64), (28, 64), (33, 33), (10, 1 << 23), (10, (1 << 23) + 1), (11, 1 << 23),
        (8, 1 << 25), (9, 1 << 25), (26, 129), (27, 65), (27, 128), (29, 128), (30, 65), (63, 1), (63, 8), (62, 64), (60, 100), (64, 1), (64, 64), (65, 3), (100, 100)] {
        for how in ["new", "make"] {
            let max = match dw { 1 => 33, 2..=8 => 30, 9..=64 => 27, _ => 27 - dw.div_ceil(64).next_power_of_two().trailing_zeros() };
            dense(how, iw, dw, iw <= max);
        }
    }
    for w in 0..64u32 {
        for x in [1u64 << w, u64::MAX, 1 << 63, low_mask(w + 1)] { over_u(r, x, w) }
        if w > 0 {
            let h = 1i64 << (w - 1);
            for x in [h, -h - 1, i64::MIN, i64::MAX, low_mask(w) as i64] { over_i(r, x, w) }
        }
    }
    for _ in 0..n {
        match r.below(4) {
            0 => { let w = r.range(0, 63); let x = word(r); over_u(r, x, w) }
            1 => { let w = r.range(1, 63); let x = word(r) as i64; over_i(r, x, w) }
            2 => { let (rep, iw, dw) = (*r.pick(&["dense", "sparse", "bare"]), r.range(0, 10), width_upto(r, 200)); array(r, rep, iw, dw) }
            _ => {
                let w1 = width_upto(r, 300);
                let w2 = other_width(r, w1);
                let (a, mut b) = (value(r, w1), value(r, w2));
                if r.chance(1, 3) { b = Val::from_words(w2, &a.words) }
                mismatch(BIN[r.below(BIN.len() as u64) as usize], &a, &b)
            }
        }
    }
}
fn mismatch(op: &str, a: &Val, b: &Val) {
    refuse(format!("{{\"op\":\"x.{op}\",\"a\":{},\"b\":{},", jval(a), jval(b)), || bin(op, &a.bv(), &b.bv()));
}
/// a dense array within (or beyond) the size limit; a release build is not asked to go beyond it
fn dense(how: &str, iw: u32, dw: u32, within: bool) {
    let head = format!("{{\"op\":\"x.dense\",\"how\":\"{how}\",\"iw\":{iw},\"dw\":{dw},");
    let f = || {
        let z = BitVecValue::zero(dw);
        let a = if how == "new" { ArrayValue::new_dense(iw, &z) } else { let mut a = ArrayValue::new_sparse(iw, &z); a.make_dense(); a };
        if !a.is_dense() || a.select(&BitVecValue::ones(iw)) != z { panic!("not the array") }
    };
    if within || cfg!(debug_assertions) {
        let o = match guard(&head, f) { Ok(()) => "ok", Err(o) => o };
        emit(&format!("{head}\"o\":\"{o}\",\"r\":0}}"));
    } else {
        emit(&format!("{head}\"o\":\"skip\",\"r\":0}}"));
    }
}
fn array(r: &mut Rng, rep: &str, iw: u32, dw: u32) {
    let (i, v, d) = (value(r, iw), value(r, dw), value(r, dw));
    let (iw2, dw2) = (other_width(r, iw.max(1)), other_width(r, dw));
    let iw2 = if iw2 == iw { iw + 1 } else { iw2 };
    let (mut i2, mut v2) = (Val::from_words(iw2, &i.words), Val::from_words(dw2, &v.words));
    if r.chance(1, 2) { i2 = Val::zero(iw2); v2 = value(r, dw2) }
    for (what, i, v) in [("select", &i2, &v), ("storeidx", &i2, &v), ("storedata", &i, &v2)] {
        let head = format!("{{\"op\":\"x.{what}\",\"rep\":\"{rep}\",\"iw\":{iw},\"dw\":{dw},\"a\":{},\"b\":{},", jval(i), jval(v));
        refuse(head, || {
            let (ib, vb) = (i.bv(), v.bv());
            if rep == "bare" {
                let mut a = SparseArrayValue::new(iw, &d.bv());
                if what == "select" { a.select(&ib); } else { a.store(&ib, &vb) }
            } else {
                let mut a = if rep == "dense" { ArrayValue::new_dense(iw, &d.bv()) } else { ArrayValue::new_sparse(iw, &d.bv()) };
                if what == "select" { a.select(&ib); } else { a.store(&ib, &vb) }
            }
        });
    }
}
/// integers that need not fit: both profiles run, the specification knows what each has to do
fn over_u(r: &mut Rng, x: u64, w: u32) {
    let form = r.below(3);
    let stale = value(r, w);
    record(&Ev::new("x.fromu64").d(&x.to_le_bytes()).n(w as i64), || match form {
        0 => jbv(&BitVecValue::from_u64(x, w)),
        1 => { let mut t = stale.bv(); t.assign_from_u64(x); jbv(&t) }
        _ => { let mut t = stale.bv(); BitVecValueMutRef::from(&mut t).assign_from_u64(x); jbv(&t) }
    });
}
fn over_i(r: &mut Rng, x: i64, w: u32) {
    let form = r.below(3);
    let stale = value(r, w);
    record(&Ev::new("x.fromi64").d(&x.to_le_bytes()).n(w as i64), || match form {
        0 => jbv(&BitVecValue::from_i64(x, w)),
        1 => { let mut t = stale.bv(); t.assign_from_i64(x); jbv(&t) }
        _ => { let mut t = stale.bv(); BitVecValueMutRef::from(&mut t).assign_from_i64(x); jbv(&t) }
    });
}

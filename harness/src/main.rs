//! Drives the real library and records what it did.
//! usage: baa-conform DRIVER N SEED OUTDIR [--sync]
mod arrays;
mod calls;
mod canon;
mod ev;
mod gen;
mod opt;
mod profiles;
mod regs;
mod rng;
mod stores;
mod tables;
mod values;
mod walks;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (driver, n, seed, dir) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].as_str());
    let sync = a.get(5).map(|s| s == "--sync").unwrap_or(false);
    ev::install(dir, sync);
    let mut tag = 0u64;
    for c in driver.bytes() { tag = tag.wrapping_mul(131).wrapping_add(c as u64) }
    let r = &mut rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(tag));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match driver {
        "C01" => canon::c01(r, n),
        "C02" => calls::c02(r, n),
        "C03" => calls::c03(r, n),
        "C04" => calls::c04(r, n),
        "C05" => calls::c05(r, n),
        "C06" => calls::c06(r, n),
        "C08" => calls::c08(r, n),
        "C09" => calls::c09(r, n),
        "C10" => calls::c10(r, n),
        "C11" => calls::c11(r, n),
        "C12" => calls::c12(r, n),
        "C13" => regs::c13(r, n),
        "C19bv" => regs::c19(r, n),
        "C07" => stores::c07(r, n),
        "C21" => values::c21(r, n),
        "values-walk" => values::script(r, dir, n),
        "C14" => stores::c14(r, n),
        "C15" => stores::c15(r, n),
        "C22" => profiles::c22(r, n),
        "C20" => profiles::c20(r, n),
        "C16" => arrays::c16(r, n),
        "C17" => arrays::c17(r, n),
        "C18" => arrays::c18(r, n),
        "C19arr" => arrays::c19(r, n),
        "C16tab" => tables::run(r, n, tables::Focus::Read, if n > 20_000 { 19 } else { 17 }),
        "C17tab" => tables::run(r, n, tables::Focus::Convert, if n > 20_000 { 21 } else { 17 }),
        "C18tab" => tables::run(r, n, tables::Focus::Equal, if n > 20_000 { 19 } else { 17 }),
        "C19tab" => tables::run(r, n, tables::Focus::Serde, if n > 20_000 { 17 } else { 15 }),
        "calls-script" => calls::script(r, dir, n),
        "regs-walk" => walks::regs(r, dir, n),
        "slab-walk" => walks::slab(r, dir, n),
        "interner-walk" => walks::interner(r, dir, n),
        "maps-walk" => walks::maps(r, dir, n),
        "pairs-script" => walks::pairs(r, dir),
        "canon-script" => canon::script(r, dir, n),
        "arrays-script" => arrays::script(r, dir, n),
        _ => { eprintln!("unknown driver {driver}"); std::process::exit(3) }
    }));
    if res.is_err() {
        // the library panicked where the driver does not expect it: no specification has such a step
        ev::emit("{\"op\":\"unguarded\",\"o\":\"panic\",\"a\":{\"w\":0,\"d\":[]},\"b\":{\"w\":0,\"d\":[]},\"n\":0,\"m\":0,\"t\":[],\"d\":[],\"r\":0}");
    }
    ev::finish();
    let lines = ev::OUT.lock().unwrap().as_ref().unwrap().lines;
    std::fs::write(format!("{dir}/done"), format!("{lines}\n")).unwrap();
}

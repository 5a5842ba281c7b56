//! Recording of observed events: one JSON object per line.  A panic of the library is an observation
//! (outcome "panic" or "todo"), never an error of the harness.
use crate::gen::Val;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static MESSAGE: Mutex<String> = Mutex::new(String::new());
static INFLIGHT: Mutex<Option<(Instant, String)>> = Mutex::new(None);
static SYNC: AtomicBool = AtomicBool::new(false);
pub static OUT: Mutex<Option<Sink>> = Mutex::new(None);

pub struct Sink {
    pub file: std::io::BufWriter<std::fs::File>,
    pub dir: String,
    pub lines: u64,
}

pub fn install(dir: &str, sync: bool) {
    SYNC.store(sync, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if std::env::var("BAA_MSG").is_ok() { eprintln!("{info}") } *MESSAGE.lock().unwrap_or_else(|e| e.into_inner()) = m;
    }));
    let path = format!("{dir}/trace.ndjson");
    *OUT.lock().unwrap() = Some(Sink {
        file: std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(path).unwrap()),
        dir: dir.to_string(),
        lines: 0,
    });
    // a library call that does not return is an observation, too
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let g = INFLIGHT.lock().unwrap();
        if let Some((since, line)) = g.as_ref() {
            if since.elapsed() > Duration::from_secs(20) {
                emit(&format!("{}{}", line, "\"o\":\"hang\",\"r\":0}"));
                finish();
                std::process::exit(0);
            }
        }
    });
}

pub fn emit(line: &str) {
    let mut g = OUT.lock().unwrap();
    let s = g.as_mut().unwrap();
    s.file.write_all(line.as_bytes()).unwrap();
    s.file.write_all(b"\n").unwrap();
    s.lines += 1;
}

pub fn finish() {
    let mut g = OUT.lock().unwrap();
    g.as_mut().unwrap().file.flush().unwrap();
}

/// Runs a library call.  `head` is the beginning of the event line (an open JSON object), used when the call
/// never returns.
pub fn guard<R>(head: &str, f: impl FnOnce() -> R) -> Result<R, &'static str> {
    if SYNC.load(Ordering::SeqCst) {
        finish();
        let g = OUT.lock().unwrap();
        let d = &g.as_ref().unwrap().dir;
        std::fs::write(format!("{d}/inflight.json"), format!("{}{}\n", head, "\"o\":\"abort\",\"r\":0}")).unwrap();
    }
    *INFLIGHT.lock().unwrap() = Some((Instant::now(), head.to_string()));
    let r = catch_unwind(AssertUnwindSafe(f));
    *INFLIGHT.lock().unwrap() = None;
    r.map_err(|_| {
        let m = MESSAGE.lock().unwrap_or_else(|e| e.into_inner());
        if m.contains("harness: not in this feature set") { "absent" } else if m.contains("not yet implemented") || m.contains("not implemented") { "todo" } else { "panic" }
    })
}

// ---- JSON helpers ----
pub fn jbytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 + 4 * b.len());
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(itoa(*x as u32));
    }
    s.push(']');
    s
}
fn itoa(x: u32) -> &'static str {
    static T: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &T.get_or_init(|| (0..256).map(|i| i.to_string()).collect())[x as usize]
}
pub fn jval(v: &Val) -> String {
    format!("{{\"w\":{},\"d\":{}}}", v.w, jbytes(&v.bytes()))
}
pub fn jbv<B: baa::BitVecOps>(v: &B) -> String {
    jval(&Val::of(v))
}
pub fn jtext(t: &str) -> String {
    jbytes(t.as_bytes())
}
pub fn jbool(b: bool) -> String {
    (b as u8).to_string()
}
pub fn jopt64(o: Option<u64>) -> String {
    match o {
        Some(x) => format!("{{\"some\":1,\"d\":{}}}", jbytes(&x.to_le_bytes())),
        None => "{\"some\":0,\"d\":[]}".to_string(),
    }
}

#[derive(Clone)]
pub struct Ev {
    pub op: &'static str,
    pub a: Val,
    pub b: Val,
    pub n: i64,
    pub m: i64,
    pub t: String,
    pub d: Vec<u8>,
}
impl Ev {
    pub fn new(op: &'static str) -> Ev {
        Ev { op, a: Val::zero(0), b: Val::zero(0), n: 0, m: 0, t: String::new(), d: vec![] }
    }
    pub fn a(mut self, a: &Val) -> Ev { self.a = a.clone(); self }
    pub fn b(mut self, b: &Val) -> Ev { self.b = b.clone(); self }
    pub fn n(mut self, n: i64) -> Ev { self.n = n; self }
    pub fn m(mut self, m: i64) -> Ev { self.m = m; self }
    pub fn t(mut self, t: &str) -> Ev { self.t = t.to_string(); self }
    pub fn d(mut self, d: &[u8]) -> Ev { self.d = d.to_vec(); self }
    pub fn head(&self) -> String {
        format!(
            "{{\"op\":\"{}\",\"a\":{},\"b\":{},\"n\":{},\"m\":{},\"t\":{},\"d\":{},",
            self.op, jval(&self.a), jval(&self.b), self.n, self.m, jtext(&self.t), jbytes(&self.d)
        )
    }
}
/// performs the call and records it
pub fn record(e: &Ev, f: impl FnOnce() -> String) {
    let head = e.head();
    match guard(&head, f) {
        Ok(r) => emit(&format!("{head}\"o\":\"ok\",\"r\":{r}}}")),
        Err(o) => emit(&format!("{head}\"o\":\"{o}\",\"r\":0}}")),
    }
}

//! Shared by the drivers: a seeded generator, trace files, panics as data.
pub use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// a byte biased to the values codecs treat specially
    pub fn byte(&mut self) -> u8 {
        match self.below(4) {
            0 => *self.pick(&[0u8, 1, 2, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xff]),
            _ => self.next() as u8,
        }
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
pub fn scale(quick: usize, thorough_n: usize) -> usize {
    if thorough() { thorough_n } else { quick }
}

/// Runs f; a panic is an observation, not the end of the run.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn jb(b: impl AsRef<[u8]>) -> Value {
    Value::Array(b.as_ref().iter().map(|x| Value::from(*x)).collect())
}
pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub fn hex(b: impl AsRef<[u8]>) -> String {
    b.as_ref().iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim_start_matches("0x");
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// minimal big-endian bytes
pub fn minimal(b: &[u8]) -> Vec<u8> {
    let i = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    b[i..].to_vec()
}

pub fn read_ndjson(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap())
        .collect()
}

pub struct Out(BufWriter<std::fs::File>, pub usize);
impl Out {
    pub fn create(path: &str) -> Self {
        Out(BufWriter::new(std::fs::File::create(path).unwrap()), 0)
    }
    pub fn trace(&mut self, id: &str, cfg: Value, ev: Vec<Value>) {
        let v = json!({"id": id, "cfg": cfg, "ev": ev});
        serde_json::to_writer(&mut self.0, &v).unwrap();
        self.0.write_all(b"\n").unwrap();
        self.1 += 1;
    }
    pub fn finish(mut self) {
        self.0.flush().unwrap();
    }
}

/// Ends the process when one step takes unreasonably long (an endless loop in the code under test):
/// the event being executed is written as a hang to `path`.
pub struct Watchdog(std::sync::Arc<std::sync::Mutex<(std::time::Instant, String, bool)>>);
impl Watchdog {
    pub fn start(secs: u64, path: String) -> Self {
        let st = std::sync::Arc::new(std::sync::Mutex::new((std::time::Instant::now(), String::new(), false)));
        let s2 = st.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let g = s2.lock().unwrap();
            if g.2 && g.0.elapsed().as_secs() >= secs {
                let _ = std::fs::write(&path, &g.1);
                std::process::exit(77);
            }
        });
        Watchdog(st)
    }
    pub fn enter(&self, what: String) {
        *self.0.lock().unwrap() = (std::time::Instant::now(), what, true);
    }
    pub fn leave(&self) {
        self.0.lock().unwrap().2 = false;
    }
}

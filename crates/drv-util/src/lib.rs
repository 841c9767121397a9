use serde_json::{json, Value};
use std::io::Write;

/// splitmix64
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5851_F42D_4C95_7F2D) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn u32(&mut self) -> u32 { self.next() as u32 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len() as u64) as usize] }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

pub const CORNERS: [u32; 24] = [
    0, 1, 2, 3, 4, 7, 8, 31, 32, 33, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000,
    0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff,
];
pub fn word(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 | 1 => *r.pick(&CORNERS),
        2 => r.u32() >> r.below(32),
        3 => (1u32 << r.below(32)).wrapping_sub(r.below(2) as u32),
        _ => r.u32(),
    }
}
pub fn w(v: u32) -> Value { json!(v.to_le_bytes()) }

pub struct Out(std::io::BufWriter<std::fs::File>, pub usize);
impl Out {
    pub fn new(path: &str) -> Self { Out(std::io::BufWriter::new(std::fs::File::create(path).unwrap()), 0) }
    pub fn line(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.0, v).unwrap();
        self.0.write_all(b"\n").unwrap();
        self.1 += 1;
    }
    pub fn done(mut self) { self.0.flush().unwrap() }
}
/// Runs code under test; a panic is data, not a crash of the driver.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else if let Some(s) = e.downcast_ref::<&str>() { (*s).to_string() }
        else { "?".into() }
    })
}
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// Runs a driver.  A panic nobody caught ends it with status 3 if it was raised by the
/// driver's own code and with status 101 if it was raised elsewhere.
pub fn run(main: impl FnOnce()) {
    std::panic::set_hook(Box::new(|i| { *LAST.lock().unwrap() = i.to_string(); if std::env::var("BT").is_ok() { eprintln!("{i} {}", std::backtrace::Backtrace::force_capture()) } }));
    if guard(main).is_err() {
        let m = LAST.lock().unwrap().clone();
        eprintln!("{m}");
        std::process::exit(if m.contains("drv-") { 3 } else { 101 });
    }
}
pub fn last_panic() -> String { LAST.lock().unwrap().clone() }

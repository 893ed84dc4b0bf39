//! Workload driver, verdict bookkeeping and evidence.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

pub const N_WORKERS: u64 = 8;

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { return 0; }
        (self.u64() % (n as u64)) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let n = (hi.wrapping_sub(lo) as u64).wrapping_add(1);
        if n == 0 { return self.u64() as i64; }
        lo.wrapping_add((self.u64() % n) as i64)
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut x)
}

// ---------------------------------------------------------------- failure
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub detail: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::core::Fail { sig: ($sig).to_string(), detail: format!($($arg)*) }); }
    };
}

// ---------------------------------------------------------------- dictionary
/// literals found in the library's sources: only used to bias the workload
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    pub strs: Vec<Vec<u8>>,
}
impl Dict {
    pub fn load(root: &str) -> Dict {
        let mut d = Dict::default();
        let mut files = vec![];
        fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(p) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        walk(&p, out)
                    } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                        out.push(p)
                    }
                }
            }
        }
        walk(std::path::Path::new(root), &mut files);
        files.sort();
        for f in files {
            let t = match std::fs::read_to_string(&f) { Ok(t) => t, Err(_) => continue };
            for line in t.lines() {
                let l = line.trim();
                if l.starts_with("//") { continue; }
                let b = l.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'"' {
                        let mut j = i + 1;
                        let mut s = vec![];
                        while j < b.len() && b[j] != b'"' {
                            if b[j] == b'\\' && j + 1 < b.len() {
                                j += 1;
                                s.push(match b[j] { b'n' => b'\n', b't' => b'\t', b'r' => b'\r', x => x });
                            } else { s.push(b[j]); }
                            j += 1;
                        }
                        if !s.is_empty() && s.len() < 40 && !d.strs.contains(&s) { d.strs.push(s); }
                        i = j + 1;
                        continue;
                    }
                    let prev_ok = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i-1] == b'.');
                    if b[i].is_ascii_digit() && prev_ok {
                        let mut j = i;
                        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || (b[j] == b'.' && j + 1 < b.len() && b[j + 1].is_ascii_digit())) { j += 1; }
                        let w: String = l[i..j].chars().filter(|c| *c != '_').collect();
                        if let Some(h) = w.strip_prefix("0x") {
                            if let Ok(v) = u64::from_str_radix(h, 16) { if !d.ints.contains(&v) { d.ints.push(v) } }
                        } else {
                            let w2 = w.trim_end_matches("usize").trim_end_matches("f64").trim_end_matches("f32").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u16").trim_end_matches("u8").trim_end_matches("i32").trim_end_matches("i64");
                            if let Ok(v) = w2.parse::<u64>() { if !d.ints.contains(&v) { d.ints.push(v) } }
                            if let Ok(v) = w2.parse::<f64>() { if !d.floats.contains(&v) { d.floats.push(v) } }
                        }
                        i = j;
                        continue;
                    }
                    i += 1;
                }
            }
        }
        d
    }
}

// ---------------------------------------------------------------- ctx
pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub dict: std::rc::Rc<Dict>,
    pub counters: BTreeMap<String, u64>,
    pub fps: HashSet<u64>,
    pub fp: u64,
    pub nontrivial: bool,
    pub desc: String,
    pub samples: Vec<String>,
    pub want_desc: bool,
    /// keep everything small (interpreter)
    pub tiny: bool,
}
impl Ctx {
    pub fn new(thorough: bool, dict: std::rc::Rc<Dict>) -> Ctx {
        Ctx { rng: Rng::new(0), idx: 0, thorough, dict, counters: BTreeMap::new(), fps: HashSet::new(), fp: 0, nontrivial: false, desc: String::new(), samples: vec![], want_desc: false, tiny: false }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) { *v += n; } else { self.counters.insert(k.to_string(), n); }
    }
    pub fn fpb(&mut self, data: &[u8]) {
        self.fp = mix(self.fp, hash64(data));
    }
    pub fn fpu(&mut self, x: u64) {
        self.fp = mix(self.fp, x);
    }
    pub fn fpf(&mut self, x: f64) {
        self.fpu(x.to_bits());
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.desc.len() < 4000 {
            self.desc.push_str(s.as_ref());
            self.desc.push_str("; ");
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> R,
    /// deterministic single-input probes (regressions of repaired defects and known findings)
    pub probes: &'static [(&'static str, fn() -> R)],
    /// counters that must have been reached, else the run is inconclusive
    pub must_see: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
}

// ---------------------------------------------------------------- json
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn show_bytes(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b.iter().take(1500) {
        match *x {
            b'\n' => o.push_str("\\n"),
            b'\r' => o.push_str("\\r"),
            b'\t' => o.push_str("\\t"),
            0x20..=0x7e => o.push(*x as char),
            x => { let _ = write!(o, "\\x{:02x}", x); }
        }
    }
    if b.len() > 1500 { let _ = write!(o, "...[{} bytes]", b.len()); }
    o
}

//! Case runner: seeded cases, worker processes, progress file, verdict collection, evidence.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Self { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % (n as u64)) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f32_in(&mut self, lo: f32, hi: f32) -> f32 {
        (lo as f64 + (hi as f64 - lo as f64) * self.unit()) as f32
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// Any finite float of varied magnitude, including special values.
    pub fn f32_finite(&mut self) -> f32 {
        match self.below(10) {
            0 => *self.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, 2.0, 255.0, 1e-3, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-40]),
            1 => {
                let v = f32::from_bits(self.u32());
                if v.is_finite() { v } else { 3.25 }
            }
            2 => (self.below(2001) as f32) - 1000.0,
            3..=5 => self.f32_in(-1.0, 1.0),
            6..=8 => self.f32_in(-100.0, 100.0),
            _ => self.f32_in(-1e6, 1e6),
        }
    }
    /// A "geometric" size: mostly small, sometimes up to max.
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(8) {
            0 => 0,
            1 | 2 => 1.min(max),
            3..=5 => self.range(0, max.min(4)),
            _ => self.range(0, max),
        }
    }
    pub fn name(&mut self) -> String {
        // characters that text handling likes to treat specially
        const ODD: &[&str] = &["\u{feff}", " ", "\t", "\r\n", "\u{a0}", "\u{200b}", "e\u{301}", "\u{202e}", "\u{fffd}", "\u{85}", "\u{2028}", "İ", "ß", "#", "%00", "\\0", "..", "null", "0x1F", "-1", "\u{7f}", "\u{10ffff}", "ﬁ"];
        if self.chance(1, 24) {
            let (o, n) = (self.pick(ODD).to_string(), self.plain_name());
            return match self.below(4) {
                0 => o,
                1 => n + &o,
                _ => o + &n,
            };
        }
        self.plain_name()
    }
    fn plain_name(&mut self) -> String {
        const POOL: &[&str] = &["Trans", "Rot", "Hip", "Shoulder_L", "eye_VIS_O_OBJShape", "body_O_1Shape", "Mouth", "alp_mario_002_col", "map1", "colorSet1", "Head", "a", "CustomVector6", "Texture0", "日本語", "ü", "with space", "Visibility", "", "Shape", "x_VISy", "bodyShape"];
        match self.below(6) {
            0..=2 => self.pick(POOL).to_string(),
            3 => format!("{}{}", self.pick(POOL), self.below(12)),
            4 => {
                let n = self.size(40);
                (0..n).map(|_| (b'!' + self.u8() % 94) as char).collect()
            }
            _ => {
                let n = self.size(12);
                (0..n)
                    .map(|_| *self.pick(&['a', 'b', 'Z', '_', '0', '9', '.', '/', '\\', '"', '\u{1}', '\n', 'é', '漢', '😀', ' ']))
                    .collect()
            }
        }
    }
}

// ---------------------------------------------------------------- cases
#[derive(Debug)]
pub struct Viol {
    pub msg: String,
    pub known: Option<&'static str>,
}
pub type R = Result<(), Viol>;
pub fn viol<T>(msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { msg: msg.into(), known: None })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return $crate::core::viol(format!($($arg)*)); } };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known_hits: BTreeMap<String, (u64, String)>,
}
pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub unit: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub stats: &'a mut Stats,
    pub artifact: Vec<u8>,
    pub verbose: bool,
    pub sample_budget: usize,
}
impl Case<'_> {
    /// Record one distinct non-trivial evaluation, identified by `key`.
    pub fn seen(&mut self, key: &[u8]) {
        // the set is capped, so that very long runs fit in memory; the count is then a lower bound
        if self.stats.distinct.len() < 10_000_000 {
            self.stats.distinct.insert(hash64(key));
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.stats.counters.get_mut(name) {
            *c += n;
        } else {
            self.stats.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let c = self.stats.counters.entry(format!("max_{name}")).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn eval(&mut self, n: u64) {
        self.stats.evaluations += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_budget > 0 {
            self.sample_budget -= 1;
            let mut s = f();
            if s.len() > 400 {
                let mut end = 400;
                while !s.is_char_boundary(end) {
                    end -= 1;
                }
                s.truncate(end);
                s.push('…');
            }
            let v = json!({"unit": self.unit, "case": self.idx, "input": s});
            self.stats.samples.push(v);
        }
    }
    /// A violation with a stable identifier that may be listed as a known finding.
    pub fn known(&mut self, id: &'static str, msg: String) -> R {
        if known_findings().contains(id) {
            let e = self.stats.known_hits.entry(id.to_string()).or_insert((0, msg));
            e.0 += 1;
            Ok(())
        } else {
            Err(Viol { msg, known: Some(id) })
        }
    }
}
pub type UnitFn = fn(&mut Case) -> R;
pub struct Unit {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: UnitFn,
}
pub const fn unit(name: &'static str, quick: u64, thorough: u64, f: UnitFn) -> Unit {
    Unit { name, quick, thorough, f }
}
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Counters that must be non-zero, otherwise the run observed nothing.
    pub must: &'static [&'static str],
    pub units: Vec<Unit>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}
fn known_findings() -> &'static HashSet<String> {
    static K: std::sync::OnceLock<HashSet<String>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let mut set = HashSet::new();
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in t.lines() {
                if let Some(rest) = l.strip_prefix("known: ") {
                    for w in rest.split_whitespace() {
                        if let Some(id) = w.strip_prefix("id=") {
                            set.insert(id.to_string());
                        }
                    }
                }
            }
        }
        set
    })
}

// ---------------------------------------------------------------- panic capture
thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}
/// Runs `f`, turning a panic into Err(message with location).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn case_seed(seed: u64, prop: &str, unit: &str, idx: u64) -> u64 {
    let mut x = seed ^ hash64(prop.as_bytes()) ^ hash64(unit.as_bytes()).rotate_left(17) ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut x)
}

fn run_case(prop: &Prop, u: &Unit, idx: u64, seed: u64, thorough: bool, stats: &mut Stats, sample_budget: usize, verbose: bool) -> Option<(Viol, Vec<u8>)> {
    stats.evaluations += 1;
    let mut case = Case {
        rng: Rng::new(case_seed(seed, prop.id, u.name, idx)),
        idx,
        unit: u.name,
        thorough,
        seed,
        stats,
        artifact: vec![],
        verbose,
        sample_budget,
    };
    let r = no_panic(|| (u.f)(&mut case));
    let art = std::mem::take(&mut case.artifact);
    match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some((v, art)),
        Err(p) => Some((Viol { msg: format!("panic: {p}"), known: None }, art)),
    }
}

/// Runs cases of every unit without judging them; returns how many.
pub fn sweep(prop: &'static Prop, seed: u64, per_unit: u64, limit_s: u64) -> u64 {
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut stats = Stats::default();
        let start = Instant::now();
        let mut n = 0;
        for u in &prop.units {
            let unit_start = Instant::now();
            for i in 0..per_unit.min(unit_count(prop.id, u, false)) {
                if start.elapsed().as_secs() >= limit_s {
                    return n;
                }
                if unit_start.elapsed().as_secs() >= limit_s / 8 {
                    break;
                }
                // spread over the unit's cases
                run_case(prop, u, i.wrapping_mul(7919) % unit_count(prop.id, u, false), seed, false, &mut stats, 0, false);
                n += 1;
            }
        }
        n
    });
    h.unwrap().join().unwrap_or(0)
}

// ---------------------------------------------------------------- worker
fn time_budget(thorough: bool) -> Duration {
    let default = if thorough { 780 } else { 150 };
    let s = std::env::var("VERIF_BUDGET_S").ok().and_then(|v| v.parse().ok()).unwrap_or(default);
    Duration::from_secs(s)
}
pub fn scale() -> f64 {
    std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0)
}
fn unit_count(id: &str, u: &Unit, thorough: bool) -> u64 {
    if u.quick <= 1 {
        return u.quick;
    }
    // thorough runs are ended by their time budget
    let n = quick_factor(id) * u.quick as f64;
    (scale() * if thorough { (u.thorough as f64).max(60.0 * n) } else { n }).ceil() as u64
}
/// The counts in the property tables are scaled so that a quick run takes about 15 s on 8 cores.
fn quick_factor(id: &str) -> f64 {
    match id {
        "C01" | "C03" | "C06" => 2.0,
        "C02" | "C10" | "C11" | "C12" | "C05" | "C14" | "C20" | "C22" => 3.0,
        "C13" | "C17" | "C26" => 6.0,
        "C08" => 3.0,
        "C25" => 5.0,
        "C21" | "C09" => 8.0,
        "C16" | "C18" => 10.0,
        "C15" | "C19" | "C07" => 15.0,
        "C23" => 40.0,
        "C27" => 30.0,
        _ => 1.0,
    }
}

pub fn worker(prop: &'static Prop, thorough: bool, seed: u64, k: u64, n: u64, dir: &str) -> i32 {
    install_hook();
    let dir = dir.to_string();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            crate::mem::limit_current_process(3 << 30);
            let progress = std::fs::File::create(format!("{dir}/progress.{k}")).unwrap();
            let start = Instant::now();
            let budget = time_budget(thorough);
            let mut stats = Stats::default();
            let mut viols: Vec<Value> = vec![];
            let mut per_unit = serde_json::Map::new();
            let mut truncated = false;
            let only = std::env::var("VERIF_UNIT").ok();
            'outer: for (ui, u) in prop.units.iter().enumerate() {
                if only.as_ref().is_some_and(|o| o != u.name) {
                    continue;
                }
                let total = unit_count(prop.id, u, thorough);
                let mut done = 0u64;
                let before = stats.distinct.len();
                // each unit gets an equal share of the time that is left
                let share = start.elapsed() + budget.saturating_sub(start.elapsed()) / (prop.units.len() - ui) as u32;
                // rotated blocks, so that every worker sees every remainder
                let mut block = 0u64;
                while block * n < total {
                    let idx = block * n + (k + block) % n;
                    block += 1;
                    if idx >= total {
                        continue;
                    }
                    if start.elapsed() > share {
                        truncated = true;
                        break;
                    }
                    let mut buf = [0u8; 16];
                    buf[..8].copy_from_slice(&(ui as u64).to_le_bytes());
                    buf[8..].copy_from_slice(&(idx + 1).to_le_bytes());
                    let _ = progress.write_all_at(&buf, 0);
                    crate::mem::reset();
                    let sample_budget = if k == 0 && idx < 2 * n { 1 } else { 0 };
                    if let Some((v, art)) = run_case(prop, u, idx, seed, thorough, &mut stats, sample_budget, false) {
                        viols.push(json!({"unit": u.name, "case": idx, "msg": v.msg, "known": v.known, "artifact": hex(&art)}));
                        if viols.len() >= 3 {
                            break 'outer;
                        }
                    }
                    done += 1;
                }
                per_unit.insert(u.name.into(), json!({"cases": done, "distinct": stats.distinct.len() - before}));
            }
            let _ = progress.write_all_at(&[0xffu8; 16], 0);
            let out = json!({"evaluations": stats.evaluations, "counters": stats.counters, "samples": stats.samples,
                "known": stats.known_hits, "violations": viols, "units": per_unit, "truncated": truncated});
            std::fs::write(format!("{dir}/out.{k}.json"), serde_json::to_vec(&out).unwrap()).unwrap();
            let mut hb = Vec::with_capacity(stats.distinct.len() * 8);
            for h in &stats.distinct {
                hb.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{dir}/hashes.{k}"), hb).unwrap();
        })
        .unwrap();
    match h.join() {
        Ok(()) => 0,
        Err(_) => 101,
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(1 << 20) {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

// ---------------------------------------------------------------- parent
/// CPU seconds used by our own child process (user + system).
fn child_cpu(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}
/// A single case normally takes milliseconds of CPU time; one that burns this much makes no progress.
const HANG_CPU_S: f64 = 60.0;

pub fn parent(prop: &'static Prop, thorough: bool, seed: u64) -> i32 {
    let start = Instant::now();
    let vd = verif_dir();
    let tier = if thorough { "thorough" } else { "quick" };
    let dir = std::env::temp_dir().join(format!("mon-{}-{}-{}", prop.id, seed, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let n: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let exe = std::env::current_exe().unwrap();
    struct W {
        k: u64,
        child: std::process::Child,
        last: [u8; 16],
        cpu0: f64,
        done: Option<Result<(), String>>,
    }
    let mut ws: Vec<W> = (0..n)
        .map(|k| {
            let err = std::fs::File::create(dir.join(format!("err.{k}"))).unwrap();
            let out = err.try_clone().unwrap();
            let child = Command::new(&exe)
                .args(["worker", prop.id, tier, &seed.to_string(), &k.to_string(), &n.to_string(), dir.to_str().unwrap()])
                .stdin(Stdio::null())
                .stdout(out)
                .stderr(err)
                .spawn()
                .unwrap();
            W { k, child, last: [0; 16], cpu0: 0.0, done: None }
        })
        .collect();
    let mut viols: Vec<Value> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let describe = |b: &[u8; 16]| -> (Option<&'static str>, u64) {
        let ui = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        let idx = u64::from_le_bytes(b[8..].try_into().unwrap());
        (prop.units.get(ui).map(|u| u.name), idx.wrapping_sub(1))
    };
    loop {
        let mut all = true;
        for w in ws.iter_mut() {
            if w.done.is_some() {
                continue;
            }
            let mut b = [0u8; 16];
            if let Ok(f) = std::fs::File::open(dir.join(format!("progress.{}", w.k))) {
                let _ = f.read_at(&mut b, 0);
            }
            match w.child.try_wait() {
                Ok(Some(st)) if st.success() => w.done = Some(Ok(())),
                Ok(Some(st)) => {
                    let (u, idx) = describe(&b);
                    let err = std::fs::read(dir.join(format!("err.{}", w.k))).unwrap_or_default();
                    let err = String::from_utf8_lossy(&err[err.len().saturating_sub(3000)..]).to_string();
                    if st.signal() == Some(9) {
                        inconclusive.push(format!("worker {} killed from outside in {u:?} case {idx}", w.k));
                    } else {
                        viols.push(json!({"unit": u, "case": idx, "msg": format!("process died: {st}; stderr: {}", err.trim()), "known": Value::Null, "artifact": ""}));
                    }
                    w.done = Some(Err("died".into()));
                }
                Ok(None) => {
                    all = false;
                    let cpu = child_cpu(w.child.id()).unwrap_or(w.cpu0);
                    if b != w.last {
                        w.last = b;
                        w.cpu0 = cpu;
                    } else if cpu - w.cpu0 > HANG_CPU_S && b != [0xff; 16] {
                        let (u, idx) = describe(&b);
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        viols.push(json!({"unit": u, "case": idx, "msg": format!("no progress: one case used more than {HANG_CPU_S} CPU-seconds"), "known": Value::Null, "artifact": ""}));
                        w.done = Some(Err("hang".into()));
                    }
                }
                Err(e) => {
                    inconclusive.push(format!("{e}"));
                    w.done = Some(Err("wait".into()));
                }
            }
        }
        if all {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    // Merge.
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut evaluations = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut units: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut truncated = false;
    for w in &ws {
        let Ok(t) = std::fs::read(dir.join(format!("out.{}.json", w.k))) else { continue };
        let Ok(v) = serde_json::from_slice::<Value>(&t) else { continue };
        evaluations += v["evaluations"].as_u64().unwrap_or(0);
        truncated |= v["truncated"].as_bool().unwrap_or(false);
        for (k, c) in v["counters"].as_object().unwrap() {
            let e = counters.entry(k.clone()).or_insert(0);
            let c = c.as_u64().unwrap_or(0);
            if k.starts_with("max_") {
                *e = (*e).max(c);
            } else {
                *e += c;
            }
        }
        samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        for (k, e) in v["known"].as_object().unwrap() {
            let x = known.entry(k.clone()).or_insert((0, e[1].as_str().unwrap_or("").into()));
            x.0 += e[0].as_u64().unwrap_or(0);
        }
        for (k, e) in v["units"].as_object().unwrap() {
            let x = units.entry(k.clone()).or_insert((0, 0));
            x.0 += e["cases"].as_u64().unwrap_or(0);
            x.1 += e["distinct"].as_u64().unwrap_or(0);
        }
        viols.extend(v["violations"].as_array().unwrap().iter().cloned());
        if let Ok(h) = std::fs::read(dir.join(format!("hashes.{}", w.k))) {
            for c in h.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    samples.truncate(24);
    let unobserved: Vec<&&str> = prop.must.iter().filter(|m| counters.get(**m).copied().unwrap_or(0) == 0).collect();
    let mut unit_map = serde_json::Map::new();
    for (k, (a, b)) in &units {
        unit_map.insert(k.clone(), json!({"cases": a, "distinct": b}));
    }
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed as i64, "level": prop.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "units": unit_map,
            "monitor_observations": counters,
            "truncated_by_time_budget": truncated,
            "known_findings_hit": known.iter().map(|(k, (n, m))| json!({"id": k, "times": n, "example": m})).collect::<Vec<_>>(),
            "inconclusive": inconclusive,
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": viols.len(),
    });
    let _ = std::fs::create_dir_all(vd.join("evidence"));
    std::fs::write(vd.join(format!("evidence/{}.json", prop.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    for (k, (c, m)) in &known {
        println!("KNOWN-FINDING: property={} {} ({}x): {}", prop.id, k, c, m.replace('\n', " "));
    }
    println!(
        "{}: {} evaluations, {} distinct, {:.1}s, counters {}",
        prop.id, evaluations, distinct.len(), start.elapsed().as_secs_f64(), serde_json::to_string(&counters).unwrap()
    );
    if !viols.is_empty() {
        let _ = std::fs::create_dir_all(vd.join("replay"));
        for (i, v) in viols.iter().take(5).enumerate() {
            let path = vd.join(format!("replay/{}-{}.json", prop.id, i));
            let r = json!({"property": prop.id, "tier": tier, "seed": seed, "unit": v["unit"], "case": v["case"], "message": v["msg"], "artifact_hex": v["artifact"]});
            std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
            let m = v["msg"].as_str().unwrap_or("");
            let m: String = m.chars().take(1500).collect();
            println!("  {} case {}: {}", v["unit"], v["case"], m);
            println!("VIOLATION property={} replay={}", prop.id, path.display());
        }
        return 1;
    }
    if !inconclusive.is_empty() {
        println!("INCONCLUSIVE: {inconclusive:?}");
        if evaluations == 0 {
            return 2;
        }
    }
    if !unobserved.is_empty() || distinct.is_empty() {
        println!("INCONCLUSIVE: nothing observed for {unobserved:?}");
        return 2;
    }
    0
}

pub fn replay(props: &'static [Prop], path: &str) -> i32 {
    install_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).unwrap();
    let Some(u) = p.units.iter().find(|u| Some(u.name) == v["unit"].as_str()) else {
        println!("no such unit");
        return 2;
    };
    let mut stats = Stats::default();
    let idx = v["case"].as_u64().unwrap();
    let seed = v["seed"].as_u64().unwrap();
    let thorough = v["tier"] == "thorough";
    crate::mem::limit_current_process(3 << 30);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || run_case(p, u, idx, seed, thorough, &mut stats, 1, true)).unwrap().join().unwrap()
    });
    let _ = std::io::stdout().flush();
    match r {
        Some((v, art)) => {
            println!("VIOLATION reproduced: {}", v.msg);
            if !art.is_empty() {
                println!("artifact: {}", hex(&art[..art.len().min(4096)]));
            }
            1
        }
        None => {
            println!("case passes; samples: {}", serde_json::to_string(&stats.samples).unwrap());
            0
        }
    }
}
/// Whether the text of a value (as printed by Debug) shows a float that is not finite.
pub fn nonfinite(debug: &str) -> bool {
    let b = debug.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            x if x.is_ascii_alphabetic() || x == b'_' => {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                if matches!(&b[s..i], b"NaN" | b"inf") {
                    return true;
                }
            }
            _ => i += 1,
        }
    }
    false
}

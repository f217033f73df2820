//! RNG, evidence/violation reporting, known findings.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x1000_0000_01B3) ^ b.rotate_left(17));
    r.next()
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub rule: String,
    pub samples: Vec<Value>,
    pub extra: serde_json::Map<String, Value>,
    pub violations: u64,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    known: Vec<Known>,
    known_printed: HashSet<String>,
}

pub struct Known {
    pub id: String,
    pub property: String,
    pub what: String,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("LV_VERIF").unwrap_or_else(|_| "/verif".into()))
}

impl Ctx {
    pub fn new(prop: &str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
            for l in t.lines() {
                // "known: property=<id> key=<key> <what fails>"
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("").to_string();
                    let k = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                    let w = it.next().unwrap_or("").to_string();
                    known.push(Known { id: k, property: p, what: w });
                }
            }
        }
        Ctx {
            prop: prop.into(),
            seed,
            thorough,
            start: Instant::now(),
            evals: 0,
            distinct: HashSet::new(),
            rule: String::new(),
            samples: vec![],
            extra: serde_json::Map::new(),
            violations: 0,
            assumptions: vec![],
            level: "exploration",
            known,
            known_printed: HashSet::new(),
        }
    }
    /// cases budget by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough { thorough } else { quick };
        // development only: a fraction of the budget
        match std::env::var("LV_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64 * f) as usize).max(1),
            None => n,
        }
    }
    pub fn eval(&mut self, text: &str) {
        self.evals += 1;
        self.distinct.insert(hash(text));
    }
    /// an execution observed; `nontrivial` says whether it counts by the rule.
    pub fn eval_if(&mut self, text: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash(text));
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 6 {
            self.samples.push(v);
        }
    }
    pub fn count(&mut self, key: &str, n: u64) {
        let e = self.extra.entry(key.to_string()).or_insert(json!(0));
        *e = json!(e.as_u64().unwrap_or(0) + n);
    }
    pub fn get(&self, key: &str) -> u64 {
        self.extra.get(key).and_then(Value::as_u64).unwrap_or(0)
    }
    /// true when `key` is a listed known finding of this property (prints the line once)
    pub fn known(&mut self, key: &str) -> bool {
        let hit = self.known.iter().find(|k| k.property == self.prop && k.id == key);
        if let Some(k) = hit {
            if self.known_printed.insert(key.to_string()) {
                println!("KNOWN-FINDING: property={} {} ({})", self.prop, k.what, key);
            }
            return true;
        }
        false
    }
    /// record a violation with a replay description
    pub fn violation(&mut self, what: &str, detail: Value) {
        self.violations += 1;
        if self.violations > 8 {
            return;
        }
        let dir = verif_dir().join("evidence/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", self.prop, self.seed, self.violations));
        let v = json!({"property": self.prop, "seed": self.seed, "what": what, "detail": detail});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        println!("  {what}");
        if self.violations <= 3 {
            let s = serde_json::to_string_pretty(&v["detail"]).unwrap();
            for l in s.lines().take(60) {
                println!("  {}", l.chars().take(1500).collect::<String>());
            }
        }
    }
    pub fn finish(mut self) -> i32 {
        if self.evals == 0 || self.distinct.is_empty() {
            eprintln!("ERROR: the workload of {} observed nothing", self.prop);
            return 3;
        }
        let mut cov = std::mem::take(&mut self.extra);
        cov.insert("evaluations".into(), json!(self.evals));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples));
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "wall_s": (self.start.elapsed().as_secs_f64()*100.0).round()/100.0,
            "violations": self.violations,
            "assumptions": self.assumptions,
        });
        let p = verif_dir().join(format!("evidence/{}.json", self.prop));
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("ERROR: cannot write evidence: {e}");
            return 3;
        }
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {:.1}s",
            self.prop, self.evals, ev["coverage"]["distinct_nontrivial"], self.violations,
            self.start.elapsed().as_secs_f64()
        );
        i32::from(self.violations > 0)
    }
}

/// Run `f(i)` for i in 0..n on all cores; results in index order.
pub fn par_map<T: Send, F: Fn(usize) -> T + Sync>(n: usize, f: F) -> Vec<T> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Option<T>>> = Mutex::new((0..n).map(|_| None).collect());
    let threads = std::thread::available_parallelism().map_or(4, |v| v.get()).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let r = f(i);
                    out.lock().unwrap()[i] = Some(r);
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}

/// a fresh scratch directory of this process
pub fn scratch(name: &str) -> PathBuf {
    let base = std::env::var("LV_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let d = PathBuf::from(base).join(format!("lv-{name}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

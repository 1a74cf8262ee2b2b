//! Shared machinery of the replay harness: a deterministic generator, contract evaluation with
//! recorded failing inputs, and a watchdog for calls that do not return.
pub mod geo;
pub mod bld;
pub mod perez_table;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    /// uniform in a..b
    pub fn int(&mut self, a: usize, b: usize) -> usize {
        a + (self.next() % ((b - a) as u64)) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.int(0, v.len())]
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub only: Option<String>,
    pub evals: u64,
    distinct: BTreeSet<u64>,
    pub fails: BTreeMap<String, Vec<String>>,
    samples: Vec<String>,
    per_group: BTreeMap<String, u64>,
    current: Arc<Mutex<(String, u64)>>,
    seed: u64,
    id: String,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    /// number of cases: quick / thorough
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    /// Runs one case of `group`: `f` evaluates the contract on the real code and says what is wrong, if anything.
    pub fn case(&mut self, group: &str, input: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        if let Some(o) = &self.only {
            if o != group {
                return true;
            }
        }
        self.evals += 1;
        let g = self.per_group.entry(group.to_string()).or_insert(0);
        *g += 1;
        let first = *g <= 1;
        if *g <= 20000 {
            let i = input();
            self.distinct.insert(hash(&format!("{}|{}", group, i)));
            if first && self.samples.len() < 40 {
                self.samples.push(format!("{}: {}", group, i));
            }
        }
        if let Ok(mut c) = self.current.lock() {
            c.1 += 1;
            if c.0 != group {
                c.0 = group.to_string();
            }
        }
        let nf = self.fails.get(group).map_or(0, |v| v.len());
        if nf >= 3 {
            return false;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => return true,
            Ok(Err(e)) => e,
            Err(p) => {
                let t = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("the code panicked: {}", t)
            }
        };
        self.fails.entry(group.to_string()).or_default().push(format!("input: {} | {}", input(), msg));
        false
    }
    /// a contract clause that needs no input text of its own
    pub fn check(&mut self, group: &str, what: &str, ok: bool) {
        let w = what.to_string();
        self.case(group, || w.clone(), || if ok { Ok(()) } else { Err("does not hold".into()) });
    }
    fn report(&self) -> String {
        let mut s = String::from("{");
        s.push_str(&format!("\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},", jstr(&self.id), self.seed, self.evals, self.distinct.len()));
        s.push_str("\"groups\":{");
        s.push_str(&self.per_group.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
        s.push_str("},\"samples\":[");
        s.push_str(&self.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"failures\":[");
        let mut v = vec![];
        for (g, l) in &self.fails {
            for f in l {
                v.push(format!("{{\"group\":{},\"what\":{}}}", jstr(g), jstr(f)));
            }
        }
        s.push_str(&v.join(","));
        s.push_str("]}");
        s
    }
}

/// `bin --seed N --tier quick|thorough [--group G] --out FILE`
pub fn run(id: &str, f: impl FnOnce(&mut Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let out = get("--out");
    let current = Arc::new(Mutex::new((String::new(), 0u64)));
    {
        // watchdog: one case that runs for 100 s is a call that does not return
        let cur = current.clone();
        let out = out.clone();
        let id = id.to_string();
        std::thread::spawn(move || {
            let mut last = (String::new(), 0u64);
            let mut t = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(5));
                let now = cur.lock().unwrap().clone();
                if now == last {
                    t += 5;
                } else {
                    t = 0;
                    last = now.clone();
                }
                if t >= 100 && now.1 > 0 {
                    let s = format!("{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":0,\"groups\":{{}},\"samples\":[],\"failures\":[{{\"group\":{},\"what\":\"the call did not return within 100 s (case number {})\"}}]}}", jstr(&id), seed, now.1, jstr(&now.0), now.1);
                    match &out {
                        Some(p) => std::fs::write(p, s).unwrap(),
                        None => println!("{}", s),
                    }
                    std::process::exit(0);
                }
            }
        });
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx {
        rng: Rng::new(seed),
        thorough: get("--tier").as_deref() == Some("thorough"),
        only: get("--group"),
        evals: 0,
        distinct: Default::default(),
        fails: Default::default(),
        samples: vec![],
        per_group: Default::default(),
        current,
        seed,
        id: id.to_string(),
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    if let Err(p) = r {
        let t = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        c.fails.entry("harness".into()).or_default().push(format!("a set-up step of the harness panicked: {}", t));
    }
    let s = c.report();
    match &out {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => println!("{}", s),
    }
}

/// |a-b| <= abs + rel*max(|a|,|b|); NaN is never close
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
pub fn expect(name: &str, got: f64, want: f64, rel: f64, abs: f64) -> Result<(), String> {
    if close(got, want, rel, abs) {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, the contract says {:?}", name, got, want))
    }
}
pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if c { Ok(()) } else { Err(msg()) }
}

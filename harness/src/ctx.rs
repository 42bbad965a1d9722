//! Deterministic case runner: every case is a closure over the real code; a panic, a wrong answer or a call that
//! does not return is a violation.
use std::cell::RefCell;
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Watch {
    pub desc: String,
    pub start: Option<Instant>,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub trace: Option<String>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub started: Instant,
    pub budget: Duration,
    pub watch: Arc<Mutex<Watch>>,
    pub findings: Vec<String>,
    pub phases: Vec<(String, u64)>,
    pub known: Vec<(String, String)>,
    pub rounds: u64,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}");
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn write_result(out: &str, status: &str, msg: &str, evals: u64, distinct: u64, samples: &[String], phases: &[(String, u64)], findings: &[String]) {
    let mut f = std::fs::File::create(out).unwrap();
    let q = |v: &[String]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    let ph = phases.iter().map(|(a, b)| format!("\"{}\":{}", esc(a), b)).collect::<Vec<_>>().join(",");
    write!(
        f,
        "{{\"status\":\"{status}\",\"message\":\"{}\",\"evaluations\":{evals},\"distinct\":{distinct},\"samples\":[{}],\"phases\":{{{ph}}},\"findings\":[{}]}}",
        esc(msg), q(samples), q(findings)
    ).unwrap();
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, out: &str, trace: Option<String>, budget: u64) -> Self {
        let watch = Arc::new(Mutex::new(Watch { desc: String::new(), start: None }));
        let w2 = watch.clone();
        let (o2, limit) = (out.to_string(), if thorough { 180 } else { 90 });
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let w = w2.lock().unwrap();
            if let Some(s) = w.start {
                if s.elapsed().as_secs() > limit {
                    write_result(&o2, "violation", &format!("the call did not return within {limit} s on:\n{}", w.desc), 0, 0, &[], &[], &[]);
                    std::process::exit(3);
                }
            }
        });
        Ctx {
            prop: prop.into(), seed, thorough, out: out.into(), trace, evals: 0, distinct: HashSet::new(), samples: vec![],
            started: Instant::now(), budget: Duration::from_secs(budget), watch, findings: vec![], phases: vec![], known: vec![], rounds: 0,
        }
    }
    pub fn rng(&self, phase: &str) -> Rng {
        let mut h = DefaultHasher::new();
        phase.hash(&mut h);
        self.prop.hash(&mut h);
        Rng::new(h.finish() ^ self.seed)
    }
    pub fn time_left(&self) -> bool {
        self.started.elapsed() < self.budget
    }
    /// n cases in the quick tier, a multiple in the thorough one
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough { quick * 12 } else { quick }
    }
    /// run one case. `desc` is the full replayable input.
    pub fn case(&mut self, nontrivial: bool, desc: String, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        if let Some(t) = &self.trace {
            std::fs::write(t, &desc).unwrap();
        }
        {
            let mut w = self.watch.lock().unwrap();
            w.desc = desc.clone();
            w.start = Some(Instant::now());
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.watch.lock().unwrap().start = None;
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone()))),
        };
        if nontrivial {
            let mut h = DefaultHasher::new();
            desc.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 3 && (self.samples.is_empty() || self.evals % 37 == 5) {
                self.samples.push(desc.clone());
            }
        }
        if let Err(e) = r {
            for (pat, what) in self.known.iter() {
                if desc.contains(pat.as_str()) {
                    let s = format!("{what}");
                    if !self.findings.contains(&s) {
                        self.findings.push(s);
                    }
                    return;
                }
            }
            let msg = format!("{e}\n--- input ---\n{desc}");
            println!("{msg}");
            write_result(&self.out, "violation", &msg, self.evals, self.distinct.len() as u64, &self.samples, &self.phases, &self.findings);
            std::process::exit(3);
        }
    }
    pub fn phase(&mut self, name: &str) {
        let done: u64 = self.phases.iter().map(|p| p.1).sum();
        let n = self.evals - done;
        match self.phases.iter_mut().find(|p| p.0 == name) {
            Some(p) => p.1 += n,
            None => self.phases.push((name.into(), n)),
        }
    }
    pub fn finish(&self) {
        write_result(&self.out, "ok", "", self.evals, self.distinct.len() as u64, &self.samples, &self.phases, &self.findings);
    }
}

//! Bookkeeping of a run: what was observed, what was violated.
use crate::gen::Rng;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd)]
pub enum Tier {
    Tiny,
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub subject: String,
    pub value: u128,
    pub got: String,
    pub want: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub tier: Tier,
    pub seed: u64,
    pub kinds: &'static [&'static str],
    pub evals: u64,
    pub plain: u64,
    pub set: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub ignored: u64,
}

static STOP: AtomicBool = AtomicBool::new(false);

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a with a final mix: fixed across runs, unlike the std hasher
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let z = (self.0 ^ (self.0 >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93);
            z ^ (z >> 32)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.finish()
}

impl Ctx {
    pub fn new(seed: u64, stream: u64, tier: Tier, kinds: &'static [&'static str]) -> Self {
        Ctx {
            rng: Rng::new(seed, stream),
            tier,
            seed,
            kinds,
            evals: 0,
            plain: 0,
            set: HashSet::new(),
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            samples: Vec::new(),
            viols: Vec::new(),
            ignored: 0,
        }
    }
    pub fn stop(&self) -> bool {
        STOP.load(Ordering::Relaxed) || self.viols.len() >= 5
    }
    pub fn hit(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        if let Some(c) = self.maxima.get_mut(name) {
            *c = (*c).max(n);
        } else {
            self.maxima.insert(name.to_string(), n);
        }
    }
    /// Counts a case as distinct and non-trivial unless it was seen before.
    pub fn distinct<T: Hash>(&mut self, t: &T) -> bool {
        self.set.insert(hash(t))
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    pub fn violate(&mut self, kind: &str, subject: &str, value: u128, got: impl Into<String>, want: impl Into<String>) {
        if kind != "harness" && !self.kinds.is_empty() && !self.kinds.contains(&kind) {
            self.ignored += 1;
            return;
        }
        if self.viols.len() < 20 {
            self.viols.push(Viol {
                kind: kind.into(),
                subject: subject.chars().take(4000).collect(),
                value,
                got: got.into(),
                want: want.into(),
            });
        }
        if self.viols.len() >= 20 {
            STOP.store(true, Ordering::Relaxed);
        }
    }
    pub fn crumb_text(&self, f: impl FnOnce() -> String) {
        if cfg!(not(miri)) {
            let t = f();
            // keep the end of a long history: that is where it happens
            let n = t.len();
            let mut from = n.saturating_sub(crate::mon::SLOT_BYTES - 33);
            while !t.is_char_boundary(from) {
                from += 1;
            }
            crate::mon::crumb(&t[from..], 99, 0);
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evals += o.evals;
        self.plain += o.plain;
        if self.set.len() < o.set.len() {
            let mine = std::mem::replace(&mut self.set, o.set);
            self.set.extend(mine);
        } else {
            self.set.extend(o.set);
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let m = self.maxima.entry(k).or_default();
            *m = (*m).max(v);
        }
        self.samples.extend(o.samples);
        self.viols.extend(o.viols);
        self.ignored += o.ignored;
    }
    pub fn distinct_total(&self) -> u64 {
        self.plain + self.set.len() as u64
    }
}

/// When no further units are started.
pub static DEADLINE: Mutex<Option<std::time::Instant>> = Mutex::new(None);

pub fn late() -> bool {
    DEADLINE.lock().unwrap().is_some_and(|d| std::time::Instant::now() > d)
}

/// Which part of the units this process runs: (index, of how many).
pub static SHARD: Mutex<(usize, usize)> = Mutex::new((0, 1));

pub type Unit<'a> = (String, Box<dyn Fn(&mut Ctx) + Send + 'a>);

#[cfg(feature = "fuzz")]
thread_local! {
    /// The units, for a fuzzer to choose from.
    pub static UNITS: std::cell::RefCell<Vec<Unit<'static>>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Runs all units on `threads` threads; each unit has its own deterministic
/// random stream, so the result does not depend on scheduling.
pub fn run_units(units: Vec<Unit<'_>>, total: &mut Ctx, threads: usize) {
    #[cfg(feature = "fuzz")]
    {
        // Whatever the units borrow was leaked by the fuzzer's start-up.
        let kept: Vec<Unit<'static>> = unsafe { std::mem::transmute(units) };
        UNITS.with(|u| u.borrow_mut().extend(kept));
        let _ = (total, threads);
    }
    #[cfg(not(feature = "fuzz"))]
    run_them(units, total, threads);
}

#[cfg_attr(feature = "fuzz", allow(dead_code))]
fn run_them(units: Vec<Unit<'_>>, total: &mut Ctx, threads: usize) {
    let shard = *SHARD.lock().unwrap();
    let units = units.into_iter().enumerate().filter(|(i, _)| i % shard.1 == shard.0);
    let queue = Mutex::new(units.collect::<std::collections::VecDeque<_>>());
    let done: Mutex<Vec<(usize, Ctx)>> = Mutex::new(Vec::new());
    let (seed, tier, kinds) = (total.seed, total.tier, total.kinds);
    let work = || {
        crate::mon::register_thread();
        loop {
            let Some((i, (name, f))) = queue.lock().unwrap().pop_front() else { break };
            let mut cx = Ctx::new(seed, hash(&name), tier, kinds);
            if late() {
                cx.hit("units left out for lack of time", 1);
            } else if !STOP.load(Ordering::Relaxed) {
                crate::mon::crumb(&name, 98, 0);
                let (r, _) = crate::mon::observe_unlimited(|| f(&mut cx));
                if let Err(p) = r {
                    // a panic of the library while a system is being set up is
                    // the library's; any other one is the harness's own
                    let kind = if p.contains("/repo/src/") { "panic" } else { "harness" };
                    cx.violate(kind, &name, 0, format!("observation stopped: {p}"), "the workload runs to its end");
                }
            }
            done.lock().unwrap().push((i, cx));
        }
        crate::mon::unregister_thread();
    };
    if threads <= 1 {
        work();
    } else {
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, work).unwrap();
            }
        });
    }
    let mut all = done.into_inner().unwrap();
    all.sort_by_key(|(i, _)| *i);
    for (_, c) in all {
        total.merge(c);
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn to_json(&self) -> String {
        let mut o = String::from("{");
        o.push_str(&format!("\"evaluations\":{},\"distinct\":{},\"ignored\":{},", self.evals, self.distinct_total(), self.ignored));
        let obj = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",")
        };
        o.push_str(&format!("\"counters\":{{{}}},\"maxima\":{{{}}},", obj(&self.counters), obj(&self.maxima)));
        // spread the samples over the whole run
        let n = self.samples.len();
        let step = n.div_ceil(12).max(1);
        let s: Vec<String> = self.samples.iter().step_by(step).map(|s| esc(s)).collect();
        o.push_str(&format!("\"samples\":[{}],", s.join(",")));
        let v: Vec<String> = self
            .viols
            .iter()
            .take(40)
            .map(|v| {
                format!(
                    "{{\"kind\":{},\"subject\":{},\"value\":\"{}\",\"observed\":{},\"expected\":{}}}",
                    esc(&v.kind), esc(&v.subject), v.value, esc(&v.got), esc(&v.want)
                )
            })
            .collect();
        o.push_str(&format!("\"violations\":[{}]}}", v.join(",")));
        o
    }
}

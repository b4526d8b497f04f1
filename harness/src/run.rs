//! Workload driver: runs sections of deterministic cases, turns failed oracles into violations and
//! records what was observed.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

use crate::rng::{hash_all, hash_str, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub verbose: bool,
    log: Vec<String>,
    sigs: Vec<u64>,
    events: BTreeMap<&'static str, u64>,
    pub small: bool,
}

/// Shortens the text if it lists the elements of a large array.
fn cut(mut s: String) -> String {
    if s.len() > 3000 {
        let at = |mut k: usize| {
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            k
        };
        let tail = s[at(s.len() - 600)..].to_string();
        s.truncate(at(2000));
        s.push_str(" [...] ");
        s.push_str(&tail);
    }
    s
}

impl Case {
    /// A case outside of the driver, for helpers that only need the random numbers.
    pub fn plain(seed: u64) -> Case {
        Case {
            rng: Rng::new(seed),
            index: 0,
            verbose: false,
            log: Vec::new(),
            sigs: Vec::new(),
            events: BTreeMap::new(),
            small: cfg!(miri),
        }
    }

    /// Adds a line to the description of the case (evaluated only when it is wanted).
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            self.log.push(cut(f()));
        }
    }

    /// Takes over the log and the events of another case.
    pub fn merge(&mut self, o: Case) {
        self.log.extend(o.log);
        for (k, n) in o.events {
            *self.events.entry(k).or_insert(0) += n;
        }
    }

    /// Marks the case as non-trivial, with a signature that identifies what was exercised.
    pub fn seen(&mut self, parts: &[u64]) {
        self.sigs.push(hash_all(parts));
    }

    /// Counts observations made by a monitor.
    pub fn ev(&mut self, kind: &'static str, n: usize) {
        *self.events.entry(kind).or_insert(0) += n as u64;
    }

    /// Upper limit for the number of elements in this build.
    pub fn cap(&self, native: usize) -> usize {
        if self.small {
            native.min(24)
        } else {
            native
        }
    }
}

type Body<'a> = Box<dyn FnMut(&mut Case) + 'a>;

struct Section<'a> {
    name: &'static str,
    count: u64,
    done: u64,
    ran: u64,
    body: Body<'a>,
    wall: f64,
    failed: bool,
    large: bool,
}

struct Violation {
    section: String,
    index: u64,
    msg: String,
    log: Vec<String>,
}

pub struct Runner<'a> {
    prop: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub variant: String,
    only: Option<(String, u64)>,
    filter: Vec<String>,
    deadline: f64,
    scale: f64,
    shard: (u64, u64),
    trace: bool,
    sections: Vec<Section<'a>>,
    events: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    evaluations: u64,
    nontrivial: u64,
    samples: Vec<String>,
    violations: Vec<Violation>,
    start: Instant,
    /// Judge memory safety only: sanitizers, interpreter, checking allocator and the registry of
    /// tracked elements decide, failed oracles of other properties end their case and are counted.
    memory: bool,
    others: u64,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs the closure, returning the panic message if it panics.
pub fn caught<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            drop(e);
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

/// Message of the last panic of this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// True if the closure panics.
pub fn panics<T, F: FnOnce() -> T>(f: F) -> bool {
    caught(f).is_err()
}

/// JSON string literal.
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|x| !x.is_empty())
}

/// Reports a case that does not come to an end (cases normally take milliseconds).
struct Watch(std::sync::Arc<std::sync::Mutex<Option<(&'static str, u64, Instant)>>>);

/// Marks a failed oracle that says nothing about memory safety.
const OTHER: &str = "other: ";

const CASE_LIMIT_S: u64 = 90;

impl Watch {
    fn start(prop: &'static str, variant: String, seed: u64) -> Watch {
        let w = std::sync::Arc::new(std::sync::Mutex::new(None::<(&'static str, u64, Instant)>));
        let v = w.clone();
        if !cfg!(miri) {
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_secs(2));
                let cur = *v.lock().unwrap();
                if let Some((name, i, t)) = cur {
                    if t.elapsed().as_secs() >= CASE_LIMIT_S {
                        let msg = format!("the case does not finish within {CASE_LIMIT_S} s");
                        println!(
                            "VHREPORT {{\"property\":{},\"variant\":{},\"seed\":{seed},\"evaluations\":1,\"nontrivial\":0,\
                             \"distinct_nontrivial\":0,\"events\":{{}},\"sections\":[],\"samples\":[],\"violations\":\
                             [{{\"section\":{},\"case\":{i},\"message\":{},\"log\":[]}}],\"truncated_by_deadline\":true,\"wall_s\":0}}",
                            js(prop), js(&variant), js(name), js(&msg)
                        );
                        std::process::exit(1);
                    }
                }
            });
        }
        Watch(w)
    }

    fn begin(&self, name: &'static str, i: u64) {
        *self.0.lock().unwrap() = Some((name, i, Instant::now()));
    }

    fn end(&self) {
        *self.0.lock().unwrap() = None;
    }
}

impl<'a> Runner<'a> {
    pub fn new(prop: &'static str) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line()));
            let _ = LAST_PANIC.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    *p = msg + &loc.unwrap_or_default();
                }
            });
        }));
        let tier =
            if env("VH_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
        let only = env("VH_ONLY").and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        Runner {
            prop,
            seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            tier,
            variant: env("VH_VARIANT").unwrap_or_else(|| "dbg".into()),
            only,
            filter: env("VH_SECTIONS")
                .map(|s| s.split(',').map(|x| x.to_string()).collect())
                .unwrap_or_default(),
            deadline: env("VH_DEADLINE").and_then(|s| s.parse().ok()).unwrap_or(120.0),
            scale: env("VH_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            shard: env("VH_SHARD")
                .and_then(|s| {
                    let (a, b) = s.split_once('/')?;
                    Some((a.parse().ok()?, b.parse().ok()?))
                })
                .unwrap_or((0, 1)),
            trace: env("VH_TRACE").is_some(),
            sections: Vec::new(),
            events: BTreeMap::new(),
            distinct: HashSet::new(),
            evaluations: 0,
            nontrivial: 0,
            samples: Vec::new(),
            violations: Vec::new(),
            start: Instant::now(),
            memory: env("VH_MEMORY").is_some(),
            others: 0,
        }
    }

    fn add(&mut self, name: &'static str, count: u64, body: Body<'a>) {
        if !self.filter.is_empty() && !self.filter.iter().any(|x| name.starts_with(x.as_str())) {
            return;
        }
        self.sections.push(Section { name, count, done: 0, ran: 0, body, wall: 0.0, failed: false, large: false });
    }

    pub fn is_miri(&self) -> bool {
        cfg!(miri)
    }

    /// Registers a section of `quick` cases (native builds) or `miri` cases (interpreter).
    pub fn section<F: FnMut(&mut Case) + 'a>(&mut self, name: &'static str, quick: u64, miri: u64, f: F) {
        let n = if cfg!(miri) { miri } else { quick };
        let n = (n as f64 * self.scale).ceil() as u64;
        self.add(name, n, Box::new(f));
    }

    /// Registers a section in which the first array is large (more than 65536 elements).
    pub fn large<F: FnMut(&mut Case) + 'a>(&mut self, name: &'static str, quick: u64, mut f: F) {
        if !cfg!(miri) {
            self.section(name, quick, 0, move |c| {
                c.rng.set_large(1);
                f(c)
            });
            self.sections.last_mut().unwrap().large = true;
        }
    }

    /// Registers a section with a fixed number of cases that enumerate a finite space.
    pub fn fixed<F: FnMut(&mut Case) + 'a>(&mut self, name: &'static str, count: u64, miri: u64, f: F) {
        let n = if cfg!(miri) { miri.min(count) } else { count };
        self.add(name, n, Box::new(f));
    }

    fn one(
        sec: &mut Section<'a>,
        seed: u64,
        index: u64,
        verbose: bool,
        memory: bool,
    ) -> (Case, Result<(), String>) {
        let mut c = Case {
            rng: Rng::new(hash_all(&[seed, hash_str(sec.name), index])),
            index,
            verbose,
            log: Vec::new(),
            sigs: Vec::new(),
            events: BTreeMap::new(),
            small: cfg!(miri),
        };
        crate::track::reset();
        let body = &mut sec.body;
        let res = caught(|| body(&mut c));
        let res = match (res, crate::alloc::error_text(), crate::track::first_error()) {
            (Ok(()), Some(e), _) | (Err(_), Some(e), _) if memory => Err(format!("memory monitor: {e}")),
            (_, _, Some(e)) if memory => Err(format!("element monitor: {e}")),
            (Err(e), _, _) if memory => Err(format!("{OTHER}{e}")),
            (Ok(()), Some(e), _) => Err(format!("memory monitor: {e}")),
            (r, _, _) => r,
        };
        crate::track::reset();
        (c, res)
    }

    pub fn finish(mut self) {
        let mut sections = std::mem::take(&mut self.sections);

        if let Some((name, index)) = self.only.clone() {
            for s in sections.iter_mut().filter(|s| s.name == name) {
                let (c, res) = Self::one(s, self.seed, index, true, self.memory);
                for l in &c.log {
                    println!("  {l}");
                }
                match res {
                    Ok(()) => println!("case {name}:{index} held"),
                    Err(e) if e.starts_with(OTHER) => println!("case {name}:{index} {e}"),
                    Err(e) => {
                        println!("case {name}:{index} VIOLATED: {e}");
                        std::process::exit(1);
                    }
                }
            }
            std::process::exit(0);
        }

        let watch = Watch::start(self.prop, self.variant.clone(), self.seed);
        let rounds = 8;
        let mut truncated = false;
        // The sections with large arrays come last and have time of their own.
        let extra = if self.memory { 6.0 } else { 0.6 * self.deadline + 8.0 };
        'all: for round in 0..2 * rounds {
            let (large, round) = (round >= rounds, round % rounds);
            let deadline = self.deadline + if large { extra } else { 0.0 };
            for s in sections.iter_mut().filter(|s| s.large == large) {
                let upto = (s.count * (round + 1)).div_ceil(rounds);
                let t = Instant::now();
                while s.done < upto && !s.failed {
                    if self.start.elapsed().as_secs_f64() > deadline {
                        truncated = true;
                        s.wall += t.elapsed().as_secs_f64();
                        continue 'all;
                    }
                    let i = s.done;
                    s.done += 1;
                    if i % self.shard.1 != self.shard.0 {
                        continue;
                    }
                    s.ran += 1;
                    if self.trace {
                        eprintln!("CASE {}:{}", s.name, i);
                    }
                    watch.begin(s.name, i);
                    let verbose = i < 2 && !cfg!(miri);
                    let (mut c, mut res) = Self::one(s, self.seed, i, verbose, self.memory);
                    watch.end();
                    self.evaluations += 1;
                    for (k, n) in std::mem::take(&mut c.events) {
                        *self.events.entry(k).or_insert(0) += n;
                    }
                    if !c.sigs.is_empty() {
                        self.nontrivial += 1;
                    }
                    for g in c.sigs.drain(..) {
                        self.distinct.insert(hash_all(&[g, hash_str(s.name)]));
                    }
                    if i < 2 && !c.log.is_empty() && self.samples.len() < 12 {
                        self.samples.push(format!("{}:{}: {}", s.name, i, c.log.join("; ")));
                    }
                    if matches!(&res, Err(e) if e.starts_with(OTHER)) {
                        self.others += 1;
                        continue;
                    }
                    if let Err(e) = res.as_mut() {
                        // Run again with a full description; keep the first message if the
                        // second run differs.
                        let log = if crate::alloc::error_text().is_none() && !verbose {
                            Self::one(s, self.seed, i, true, self.memory).0.log
                        } else {
                            c.log
                        };
                        s.failed = true;
                        self.violations.push(Violation {
                            section: s.name.to_string(),
                            index: i,
                            msg: cut(e.clone()),
                            log,
                        });
                        if crate::alloc::error_text().is_some() {
                            break 'all;
                        }
                    }
                }
                s.wall += t.elapsed().as_secs_f64();
            }
        }

        let sec: Vec<String> = sections
            .iter()
            .map(|s| {
                format!(
                    "{{\"section\":{},\"cases\":{},\"planned\":{},\"wall_s\":{:.3}}}",
                    js(s.name), s.ran, s.count, s.wall
                )
            })
            .collect();
        let viol: Vec<String> = self
            .violations
            .iter()
            .map(|v| {
                let log: Vec<String> = v.log.iter().map(|l| js(l)).collect();
                format!(
                    "{{\"section\":{},\"case\":{},\"message\":{},\"log\":[{}]}}",
                    js(&v.section), v.index, js(&v.msg), log.join(",")
                )
            })
            .collect();
        if crate::alloc::active() {
            self.events.insert(
                "allocator blocks checked on free",
                crate::alloc::CHECKED.load(std::sync::atomic::Ordering::Relaxed),
            );
        }
        if self.memory {
            self.events.insert("cases ended by the oracle of another property", self.others);
        }
        let ev: Vec<String> = self.events.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
        let samples: Vec<String> = self.samples.iter().map(|l| js(l)).collect();
        let text = format!(
            "{{\"property\":{},\"variant\":{},\"seed\":{},\"evaluations\":{},\"nontrivial\":{},\
             \"distinct_nontrivial\":{},\"events\":{{{}}},\"sections\":[{}],\"samples\":[{}],\
             \"violations\":[{}],\"truncated_by_deadline\":{truncated},\"wall_s\":{:.3}}}",
            js(self.prop), js(&self.variant), self.seed, self.evaluations, self.nontrivial,
            self.distinct.len(), ev.join(","), sec.join(","), samples.join(","), viol.join(","),
            self.start.elapsed().as_secs_f64()
        );
        // The report goes to stdout on one line (files are not available in the interpreter).
        println!("VHREPORT {text}");
        if !self.violations.is_empty() {
            std::process::exit(1);
        }
    }
}

//! Case running: parallel workers, batching, shrinking, evidence, violations, known findings.
use crate::spadec::{self, File, Out};
use crate::tape::{self, Gen};
use crate::vparse::Design;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Failure {
    /// stable class of the failure; shrinking keeps it
    pub class: String,
    pub msg: String,
}
pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { class: class.to_string(), msg: msg.into() })
}

pub struct Known {
    pub prop: String,
    pub id: String,
    pub what: String,
    pub class: String,
    pub data: Value,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub evaluations: AtomicU64,
    pub nontrivial: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<Value>>,
    pub counters: Mutex<BTreeMap<String, u64>>,
    pub violations: Mutex<Vec<Value>>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub known: Vec<Known>,
    pub stop: AtomicBool,
    pub budget: Duration,
    pub workers: usize,
    /// running without writing evidence (development)
    pub dry: bool,
    pub max_violations: usize,
    /// replaying one recorded case instead of searching
    pub replay: Option<(String, Vec<u64>)>,
}

/// What one executed case reports.
pub struct CaseOk {
    pub nontrivial: Option<u64>,
    pub sample: Value,
    pub feats: Vec<&'static str>,
}

type Slot = std::sync::Arc<Mutex<Option<(usize, Instant, String)>>>;
thread_local! { static SLOT: std::cell::RefCell<Option<Slot>> = const { std::cell::RefCell::new(None) }; }
/// tell the watchdog what is being worked on now
pub fn beat(what: &str) {
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            if let Some(x) = &mut *s.lock().unwrap() {
                x.1 = Instant::now();
                x.2 = what.to_string();
            }
        }
    });
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{VERIF}/known_findings.jsonl")) {
            for l in t.lines() {
                let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
                if v["status"] == "known" && v["property"] == prop {
                    known.push(Known {
                        prop: prop.into(),
                        id: v["id"].as_str().unwrap_or("").into(),
                        what: v["what"].as_str().unwrap_or("").into(),
                        class: v["class"].as_str().unwrap_or("").into(),
                        data: v.clone(),
                    });
                }
            }
        }
        let env = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
        Ctx {
            prop,
            tier,
            seed,
            start: Instant::now(),
            evaluations: AtomicU64::new(0),
            nontrivial: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            counters: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]),
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            known,
            stop: AtomicBool::new(false),
            budget: Duration::from_secs(env("VH_BUDGET").unwrap_or(if tier == Tier::Quick { 240 } else { 600 })),
            workers: env("VH_WORKERS").unwrap_or(8) as usize,
            dry: false,
            max_violations: env("VH_MAXV").unwrap_or(1) as usize,
            replay: None,
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn eval(&self, nontrivial: Option<u64>) {
        self.evaluations.fetch_add(1, Ordering::Relaxed);
        if let Some(h) = nontrivial {
            self.nontrivial.lock().unwrap().insert(h);
        }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 4 {
            s.push(v);
        }
    }
    pub fn rule(&self, r: &str) {
        *self.rule.lock().unwrap() = r.to_string();
    }
    pub fn assume(&self, r: &str) {
        self.assumptions.lock().unwrap().push(r.to_string());
    }
    /// quick: n cases; thorough: as many rounds as fit in the time budget
    pub fn amount(&self, quick: usize, thorough: usize) -> usize {
        let m = std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        let n = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        ((n as f64) * m).ceil() as usize
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    pub fn is_known(&self, class: &str) -> bool {
        self.known.iter().any(|k| !k.class.is_empty() && k.class == class)
    }
    /// record a violation; `data` is what `vh replay` needs
    pub fn violation(&self, f: &Failure, mut data: Value) {
        if self.is_known(&f.class) {
            self.count(&format!("known finding met by the search: {}", f.class), 1);
            return;
        }
        let mut v = self.violations.lock().unwrap();
        data["property"] = json!(self.prop);
        data["class"] = json!(f.class);
        data["message"] = json!(f.msg);
        v.push(data);
        if v.len() >= self.max_violations {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::SeqCst)
    }
    pub fn finish(&self) -> i32 {
        let viol = self.violations.lock().unwrap();
        let dir = format!("{VERIF}/evidence");
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let mut code = 0;
        for v in viol.iter() {
            let t = serde_json::to_string_pretty(v).unwrap();
            let path = format!("{dir}/replays/{}-{:016x}.json", self.prop, tape::hash_str(&t));
            let _ = std::fs::write(&path, t);
            println!("  class: {}", v["class"].as_str().unwrap_or(""));
            println!("  {}", v["message"].as_str().unwrap_or("").replace('\n', "\n  "));
            println!("VIOLATION property={} replay={}", self.prop, path);
            code = 1;
        }
        for k in &self.known {
            let n = self.counters.lock().unwrap().get(&format!("known finding met by the search: {}", k.class)).copied().unwrap_or(0);
            if n > 0 {
                println!("KNOWN-FINDING: property={} {} ({n} cases)", self.prop, k.what);
            }
        }
        let mut cov = json!({
            "evaluations": self.evaluations.load(Ordering::Relaxed),
            "distinct_nontrivial": self.nontrivial.lock().unwrap().len(),
            "rule": *self.rule.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
        });
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov[k] = json!(v);
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        if !self.dry {
            std::fs::write(format!("{dir}/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.prop,
            self.evaluations.load(Ordering::Relaxed),
            self.nontrivial.lock().unwrap().len(),
            viol.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  {k}: {v}");
        }
        let _ = std::fs::remove_dir_all(spadec::scratch());
        code
    }
    /// run `f(i)` for 0..n on all workers; every worker owns a one-thread rayon pool so that the
    /// compiler's parallel iterators stay on that worker's (large) stack
    pub fn parallel(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let slots: Vec<Slot> = (0..self.workers).map(|_| Slot::default()).collect();
        let done = AtomicUsize::new(0);
        let only = std::env::var("VH_JOB").ok().and_then(|s| s.parse::<usize>().ok());
        std::thread::scope(|s| {
            for w in 0..self.workers {
                let (next, f, slots, done) = (&next, &f, &slots, &done);
                s.spawn(move || {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(512 << 20).build().unwrap();
                    pool.install(|| {
                        SLOT.with(|s| *s.borrow_mut() = Some(slots[w].clone()));
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || self.stopped() || self.out_of_time() {
                                break;
                            }
                            if only.is_some_and(|o| o != i) {
                                continue;
                            }
                            *slots[w].lock().unwrap() = Some((i, Instant::now(), String::new()));
                            if let Err(p) = spadec::catch(|| f(i)) {
                                // the harness' own generators and models: no verdict about this case
                                eprintln!("harness failure in job {i}: {p}");
                                self.count("harness failures (no verdict)", 1);
                            }
                            *slots[w].lock().unwrap() = None;
                        }
                    });
                    done.fetch_add(1, Ordering::SeqCst);
                });
            }
            // watchdog: a case that never ends is a violation of its own
            let limit = Duration::from_secs(std::env::var("VH_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(300));
            while done.load(Ordering::SeqCst) < self.workers {
                std::thread::sleep(Duration::from_millis(20));
                for sl in &slots {
                    let g = sl.lock().unwrap().clone();
                    if let Some((i, t, what)) = g {
                        if t.elapsed() > limit {
                            self.violation(
                                &Failure { class: "hang".into(), msg: format!("job {i} did not finish within {limit:?}") },
                                json!({"kind": "source", "job": i, "seed": self.seed, "source": what}),
                            );
                            let c = self.finish();
                            std::process::exit(if c == 0 { 0 } else { 1 });
                        }
                    }
                }
            }
        });
    }
}

pub fn in_pool<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(512 << 20).build().unwrap();
    pool.install(f)
}

// ---------------------------------------------------------------------------------- unit batches

pub struct Built<'a> {
    pub out: &'a Out,
    pub design: &'a Design,
}
pub struct Made {
    pub src: String,
    pub std: bool,
    pub judge: Box<dyn Fn(&Built) -> Result<(), Failure>>,
    /// hash if non-trivial
    pub nontrivial: Option<u64>,
    pub sample: Value,
    pub feats: Vec<&'static str>,
}
/// generates one unit; identifiers at the top level must start with `prefix`
pub type MakeFn<'a> = &'a (dyn Fn(&mut Gen, &str) -> Made + Sync);

pub fn compile_and_parse(files: &[File], o: &spadec::Opts) -> Result<(Out, Design), Failure> {
    beat(&files.iter().map(|f| f.src.as_str()).collect::<Vec<_>>().join("\n"));
    let out = spadec::run(files, o);
    if let Some(p) = &out.panic {
        return fail(&format!("panic {}", norm_panic(p)), format!("the compiler panicked: {p}"));
    }
    if !out.ok {
        let e = out.first_error();
        let m = out.errors().first().map(|d| norm_msg(&d.msg)).unwrap_or_default();
        return fail(&format!("reject {m}"), format!("a valid program was rejected: {e}"));
    }
    let Some(v) = &out.verilog else { return fail("no output", "compilation succeeded but no Verilog was written") };
    match crate::vparse::parse(v) {
        Ok(d) => Ok((out, d)),
        Err(e) => fail("malformed verilog", format!("the emitted Verilog does not parse: {e}")),
    }
}
/// strip specifics (numbers, quoted names) so that shrinking keeps the kind of failure
pub fn norm_msg(s: &str) -> String {
    let mut o = String::new();
    let mut q = false;
    for c in s.chars() {
        if c == '`' {
            q = !q;
            o.push(c);
        } else if q {
        } else if c.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#')
            }
        } else {
            o.push(c)
        }
    }
    o.truncate(80);
    o
}
pub fn norm_panic(s: &str) -> String {
    // keep the location
    match s.rsplit_once(" @ ") {
        Some((_, loc)) => loc.trim_start_matches("/repo/").to_string(),
        None => norm_msg(s),
    }
}

pub fn judge_one(made: &Made, opts: &spadec::Opts) -> Result<(), Failure> {
    let o = spadec::Opts { std: made.std, ..opts.clone() };
    let (out, design) = compile_and_parse(&spadec::single(&made.src), &o)?;
    let b = Built { out: &out, design: &design };
    match spadec::catch(|| (made.judge)(&b)) {
        Ok(r) => r,
        Err(p) => fail("harness panic", format!("harness panic: {p}")),
    }
}

pub fn shrink_unit(make: MakeFn, opts: &spadec::Opts, data: Vec<u64>, class: &str, budget: usize) -> (Vec<u64>, Failure, String) {
    let mut fails = |t: &[u64]| {
        let r = spadec::catch(|| {
            let mut g = Gen::replay(t.to_vec());
            let m = make(&mut g, "u0_");
            judge_one(&m, opts)
        });
        matches!(r, Ok(Err(f)) if f.class == class)
    };
    let t0 = Instant::now();
    let mut timed = |t: &[u64]| t0.elapsed() < Duration::from_secs(60) && fails(t);
    let spans = |t: &[u64]| {
        let t = t.to_vec();
        spadec::catch(|| {
            let mut g = Gen::replay(t);
            make(&mut g, "u0_");
            let n = g.used();
            (g.spans, n)
        })
        .unwrap_or((vec![], usize::MAX))
    };
    let data = tape::shrink_spans(data, t0 + Duration::from_secs(35), &spans, &mut timed);
    let best = tape::shrink(data, budget, &mut timed);
    let mut g = Gen::replay(best.clone());
    let m = make(&mut g, "u0_");
    let f = judge_one(&m, opts).err().unwrap_or(Failure { class: class.into(), msg: "not reproducible after shrinking".into() });
    (best, f, m.src)
}

/// Run `n` generated units, `k` per compilation.
pub fn run_units(ctx: &Ctx, label: &str, make: MakeFn, opts: &spadec::Opts, n: usize, k: usize) {
    if let Some((l, t)) = &ctx.replay {
        if l == label {
            let t = t.clone();
            let r = in_pool(|| {
                let mut g = Gen::replay(t.clone());
                let m = make(&mut g, "u0_");
                println!("{}", m.src);
                (judge_one(&m, opts), m.src)
            });
            ctx.eval(Some(0));
            if let (Err(f), src) = r {
                ctx.violation(&f, json!({"kind": "tape", "label": label, "tape": t, "source": src}));
            }
        }
        return;
    }
    if ctx.stopped() || ctx.out_of_time() || std::env::var("VH_LABEL").is_ok_and(|l| l != label) {
        return;
    }
    let batches = n.div_ceil(k);
    ctx.parallel(batches, |b| {
        let mut units = vec![];
        for j in 0..k.min(n - b * k) {
            let idx = b * k + j;
            let seed = tape::mix(&[ctx.seed, tape::hash_str(ctx.prop), tape::hash_str(label), idx as u64]);
            let mut g = Gen::random(seed);
            match spadec::catch(|| make(&mut g, &format!("u{j}_"))) {
                Ok(m) => units.push((m, g.data)),
                Err(p) => {
                    eprintln!("harness failure in {label} {idx}: {p}");
                    ctx.count("harness failures (no verdict)", 1);
                }
            }
        }
        let mut singles = vec![];
        for std in [false, true] {
            let group: Vec<usize> = (0..units.len()).filter(|i| units[*i].0.std == std).collect();
            if group.is_empty() {
                continue;
            }
            let src: String = group.iter().map(|i| units[*i].0.src.clone()).collect::<Vec<_>>().join("\n");
            let o = spadec::Opts { std, ..opts.clone() };
            match compile_and_parse(&spadec::single(&src), &o) {
                Ok((out, design)) => {
                    let bt = Built { out: &out, design: &design };
                    for i in &group {
                        let m = &units[*i].0;
                        match spadec::catch(|| (m.judge)(&bt)) {
                            Ok(Ok(())) => {
                                for f in &m.feats {
                                    ctx.count(f, 1);
                                }
                                ctx.eval(m.nontrivial);
                                if m.nontrivial.is_some() {
                                    ctx.sample(m.sample.clone());
                                }
                            }
                            Ok(Err(f)) => singles.push((*i, Some(f))),
                            Err(p) => singles.push((*i, Some(Failure { class: "harness panic".into(), msg: p }))),
                        }
                    }
                }
                Err(f) => {
                    let before = singles.len();
                    for i in &group {
                        match judge_one(&units[*i].0, opts) {
                            Ok(()) => ctx.eval(units[*i].0.nontrivial),
                            Err(f) => singles.push((*i, Some(f))),
                        }
                    }
                    if singles.len() == before {
                        ctx.violation(&f, json!({"kind": "source", "std": std, "source": src, "note": "fails only as a batch of otherwise independent units"}));
                    }
                }
            }
        }
        for (i, f) in singles {
            let f = f.unwrap();
            if ctx.is_known(&f.class) {
                ctx.count(&format!("known finding met by the search: {}", f.class), 1);
                continue;
            }
            // does it fail on its own as well?
            let data = units[i].1.clone();
            let alone = {
                let mut g = Gen::replay(data.clone());
                let m = make(&mut g, "u0_");
                judge_one(&m, opts)
            };
            match alone {
                Err(f1) => {
                    let (t, f2, src) = shrink_unit(make, opts, data, &f1.class, 600);
                    ctx.violation(&f2, json!({"kind": "tape", "label": label, "tape": t, "source": src}));
                }
                Ok(()) => {
                    let src: String = units.iter().map(|u| u.0.src.clone()).collect::<Vec<_>>().join("\n");
                    ctx.violation(&f, json!({"kind": "source", "source": src, "note": "this unit fails only when compiled together with the others", "unit": i}));
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}


// ---------------------------------------------------------------------------------- plain cases

/// a case: generates from the tape and decides; on failure also returns data describing the input
pub type CaseFn<'a> = &'a (dyn Fn(&mut Gen) -> Result<CaseOk, (Failure, Value)> + Sync);

fn guarded(f: CaseFn, g: &mut Gen) -> Result<CaseOk, (Failure, Value)> {
    beat("");
    match spadec::catch(|| f(g)) {
        Ok(r) => r,
        Err(p) => Err((Failure { class: format!("panic {}", norm_panic(&p)), msg: format!("panicked: {p}") }, json!({}))),
    }
}

/// Run `n` generated cases, each decided on its own.
pub fn run_cases(ctx: &Ctx, label: &str, f: CaseFn, n: usize) {
    run_cases_b(ctx, label, f, n, 400)
}
pub fn run_cases_b(ctx: &Ctx, label: &str, f: CaseFn, n: usize, shrink_budget: usize) {
    if let Some((l, t)) = &ctx.replay {
        if l == label {
            let t = t.clone();
            let r = in_pool(|| guarded(f, &mut Gen::replay(t.clone())));
            ctx.eval(Some(0));
            if let Err((fl, d)) = r {
                ctx.violation(&fl, json!({"kind": "tape", "label": label, "tape": t, "input": d}));
            }
        }
        return;
    }
    if ctx.stopped() || ctx.out_of_time() || std::env::var("VH_LABEL").is_ok_and(|l| l != label) {
        return;
    }
    ctx.parallel(n, |i| {
        let seed = tape::mix(&[ctx.seed, tape::hash_str(ctx.prop), tape::hash_str(label), i as u64]);
        let mut g = Gen::random(seed);
        match guarded(f, &mut g) {
            Ok(ok) => {
                for x in &ok.feats {
                    ctx.count(x, 1);
                }
                ctx.eval(ok.nontrivial);
                if ok.nontrivial.is_some() {
                    ctx.sample(ok.sample);
                }
            }
            Err((fl, d)) => {
                if ctx.is_known(&fl.class) {
                    ctx.count(&format!("known finding met by the search: {}", fl.class), 1);
                    return;
                }
                let t0 = Instant::now();
                let mut fails = |t: &[u64]| {
                    t0.elapsed() < Duration::from_secs(60) && matches!(guarded(f, &mut Gen::replay(t.to_vec())), Err((f2, _)) if f2.class == fl.class)
                };
                let best = tape::shrink(g.data.clone(), shrink_budget, &mut fails);
                let (fl, d) = match guarded(f, &mut Gen::replay(best.clone())) {
                    Err(x) => x,
                    Ok(_) => (fl, d),
                };
                ctx.violation(&fl, json!({"kind": "tape", "label": label, "tape": best, "input": d}));
            }
        }
    });
}

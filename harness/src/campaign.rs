//! Running campaigns: case generation, shrinking, evidence, replay.

use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestCaseResult, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use tracing::level_filters::LevelFilter;

use crate::cover::{mutate, places, reset, Dice, Seen};
use crate::fail::{Fail, Info, Res};
use crate::watch::{watched, Watch, NOT};

pub const RUNTIME: &str = if cfg!(feature = "rt-tokio") { "tokio" } else { "agnostic" };
/// Half-second rounds of the watchdog, in each of which it ran, that one case may take.
const HANG_ROUNDS: u32 = 120;

/// One family of generated cases with its oracle.
pub struct C<T: Debug> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: Box<dyn Fn(bool) -> BoxedStrategy<T> + Send + Sync>,
    pub run: fn(&T) -> Res,
}

pub trait Campaign: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn shard(&self, ctx: &Ctx, shard: u64) -> Stats;
    fn replay(&self, case: &Value) -> Result<Outcome, String>;
    /// Whether the outcome depends on the timing of threads.
    fn timing(&self) -> bool;
    /// Searches for cases which reach something new.
    fn guided(&self, ctx: &Ctx, secs: f64) -> Stats;
}

pub struct Ctx {
    prop: String,
    seed: u64,
    thorough: bool,
    shards: u64,
    scale: f64,
    deadline: Instant,
    stop: AtomicBool,
    journal: Option<String>,
    slots: Vec<Mutex<Option<(u64, Box<dyn Fn() -> Value + Send>)>>>,
    evals: AtomicU64,
    executions: AtomicU64,
}

#[derive(Default)]
pub struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    foreign: u64,
    foreign_sample: Option<String>,
    failure: Option<(Value, String)>,
    harness_error: Option<String>,
    corpus: u64,
    reached: (u64, u64),
}

/// Outcome of one execution, with panics told apart.
pub enum Outcome {
    Pass(Info),
    Fail(Fail),
    /// The harness itself panicked.
    Broken(String),
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(info.payload());
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

pub fn execute<T: Debug>(run: fn(&T) -> Res, case: &T) -> Outcome {
    let w = by_chance(case);
    watched(w, || execute_with(|| run(case))).0
}

/// Some cases run with logging, some while the crate's values are looked at.
fn by_chance(case: &impl Debug) -> Watch {
    struct Hashing(DefaultHasher);
    impl std::fmt::Write for Hashing {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.write(s.as_bytes());
            Ok(())
        }
    }
    let mut h = Hashing(DefaultHasher::new());
    let _ = write!(h, "{case:?}");
    match h.0.finish() % 8 {
        0..=3 => NOT,
        4 | 5 => Watch { level: LevelFilter::TRACE, look: false },
        6 => Watch { level: LevelFilter::ERROR, look: true },
        _ => Watch { level: LevelFilter::TRACE, look: true },
    }
}

pub fn execute_with(run: impl FnOnce() -> Res) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(run)) {
        Ok(Ok(info)) => Outcome::Pass(info),
        Ok(Err(f)) => Outcome::Fail(f),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("harness/src/") {
                Outcome::Broken(format!("harness panicked at {loc}: {msg}"))
            } else {
                Outcome::Fail(Fail::all(format!("panic at {loc}: {msg}")))
            }
        }
    }
}

pub fn hash64(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

impl<T> Campaign for C<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }

    fn replay(&self, case: &Value) -> Result<Outcome, String> {
        let case: T = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(execute(self.run, &case))
    }

    fn timing(&self) -> bool {
        self.name.contains("threads")
    }

    fn guided(&self, ctx: &Ctx, secs: f64) -> Stats {
        self.explore(ctx, secs)
    }

    fn shard(&self, ctx: &Ctx, shard: u64) -> Stats {
        let few = self.quick < 1000;
        let total = match (ctx.thorough, few) {
            // Campaigns of few, expensive cases.
            (t, true) => if t { self.thorough } else { self.quick },
            (true, _) => self.thorough.saturating_mul(4),
            (false, _) => self.quick * 6,
        };
        let cases = ((total as f64 * ctx.scale) as u64 / ctx.shards).max(1) as u32;
        let mut seed = [0u8; 32];
        for (i, c) in seed.chunks_mut(8).enumerate() {
            let h = hash64(&(ctx.seed, &ctx.prop, self.name, RUNTIME, shard, i));
            c.copy_from_slice(&h.to_le_bytes());
        }
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: if self.timing() { 200 } else { 20_000 },
            max_shrink_time: 60_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(
            config,
            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
        );
        let stats = RefCell::new(Stats::default());
        let shrinking = RefCell::new(false);
        let result = runner.run(&(self.strategy)(ctx.thorough), |case| -> TestCaseResult {
            let shrink = *shrinking.borrow();
            if !shrink && (ctx.stop.load(Ordering::Relaxed) || Instant::now() > ctx.deadline) {
                return Ok(());
            }
            let mut st = stats.borrow_mut();
            if !shrink {
                st.evals += 1;
                ctx.evals.fetch_add(1, Ordering::Relaxed);
            }
            let case = Arc::new(case);
            {
                let (c, prop, name) = (case.clone(), ctx.prop.clone(), self.name);
                let describe = move || replay_value(&prop, name, &*c, "did not finish");
                if let Some(path) = &ctx.journal {
                    let _ = std::fs::write(
                        format!("{path}.{shard}"),
                        serde_json::to_vec(&describe()).unwrap(),
                    );
                }
                *ctx.slots[shard as usize].lock().unwrap() =
                    Some((ctx.executions.fetch_add(1, Ordering::Relaxed), Box::new(describe)));
            }
            let out = execute(self.run, &*case);
            *ctx.slots[shard as usize].lock().unwrap() = None;
            match out {
                Outcome::Pass(info) => {
                    if shrink {
                        return Ok(());
                    }
                    for c in &info.classes {
                        *st.classes.entry(c.to_string()).or_default() += 1;
                    }
                    if info.nontrivial {
                        let text = serde_json::to_string(&*case).unwrap();
                        if st.nontrivial.insert(hash64(&text)) && st.samples.len() < 2 {
                            st.samples.push(sample(self.name, &text));
                        }
                    }
                    Ok(())
                }
                Outcome::Fail(f) if f.concerns(&ctx.prop) => {
                    if !shrink {
                        // Another shard's failure is enough; shrink only one.
                        if ctx.stop.swap(true, Ordering::SeqCst) {
                            return Ok(());
                        }
                        *shrinking.borrow_mut() = true;
                    }
                    Err(TestCaseError::fail(f.msg))
                }
                Outcome::Fail(f) => {
                    if !shrink {
                        st.foreign += 1;
                        st.foreign_sample.get_or_insert(format!("{:?}: {}", f.tags, f.msg));
                    }
                    Ok(())
                }
                Outcome::Broken(m) => {
                    st.harness_error.get_or_insert(format!("{m}; case {case:?}"));
                    ctx.stop.store(true, Ordering::SeqCst);
                    Ok(())
                }
            }
        });
        let mut st = stats.into_inner();
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                st.failure = Some((
                    replay_value(&ctx.prop, self.name, &case, reason.message()),
                    reason.message().to_string(),
                ));
            }
            Err(TestError::Abort(reason)) => {
                st.harness_error = Some(format!("{}: generation aborted: {reason}", self.name));
            }
        }
        st
    }
}

impl<T> C<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn tree(strategy: &BoxedStrategy<T>, bytes: &[u8]) -> Option<Box<dyn ValueTree<Value = T>>> {
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::PassThrough, bytes),
        );
        strategy.new_tree(&mut runner).ok()
    }

    fn explore(&self, ctx: &Ctx, secs: f64) -> Stats {
        let end = Instant::now() + Duration::from_secs_f64(secs);
        let mut st = Stats::default();
        let mut dice = Dice::new(hash64(&(ctx.seed, &ctx.prop, self.name, RUNTIME, "guided")));
        let mut corpus: Vec<Vec<u8>> = vec![];
        let mut seen = Seen::default();
        let strategy = (self.strategy)(true);
        while Instant::now() < end {
            // Ever so often from scratch.
            let input = if corpus.len() < 8 || dice.below(16) == 0 {
                let n = [2048, 16384, 65536][dice.below(3)];
                dice.bytes(n)
            } else {
                // The latest finds are the least explored.
                let recent = corpus.len().saturating_sub(32);
                let i = if dice.below(2) == 0 { recent + dice.below(corpus.len() - recent) } else { dice.below(corpus.len()) };
                let j = dice.below(corpus.len());
                mutate(&mut dice, &corpus[i], &corpus[j])
            };
            let Some(mut tree) = Self::tree(&strategy, &input) else { continue };
            let case = tree.current();
            let out = self.attempt(ctx, &case, || reset());
            st.evals += 1;
            let new = seen.add();
            match out {
                Outcome::Pass(info) => {
                    for c in &info.classes {
                        *st.classes.entry(c.to_string()).or_default() += 1;
                    }
                    if info.nontrivial {
                        let text = serde_json::to_string(&case).unwrap();
                        if st.nontrivial.insert(hash64(&text)) && new > 0 && st.samples.len() < 2 {
                            st.samples.push(sample(self.name, &text));
                        }
                    }
                    if new > 0 {
                        corpus.push(input);
                    }
                }
                Outcome::Fail(f) if f.concerns(&ctx.prop) => {
                    let (case, msg) = self.minimize(ctx, &mut *tree, f.msg);
                    st.failure = Some((replay_value(&ctx.prop, self.name, &case, &msg), msg));
                    break;
                }
                Outcome::Fail(f) => {
                    st.foreign += 1;
                    st.foreign_sample.get_or_insert(format!("{:?}: {}", f.tags, f.msg));
                }
                Outcome::Broken(m) => {
                    st.harness_error.get_or_insert(format!("{m}; case {case:?}"));
                    break;
                }
            }
        }
        st.corpus = corpus.len() as u64;
        st.reached = (seen.reached() as u64, places() as u64);
        st
    }

    /// Runs a case which the watchdog can see.
    fn attempt(&self, ctx: &Ctx, case: &T, before: impl FnOnce()) -> Outcome {
        let (c, prop, name) = (Arc::new(case.clone()), ctx.prop.clone(), self.name);
        let describe = move || replay_value(&prop, name, &*c, "did not finish");
        if let Some(path) = &ctx.journal {
            let _ = std::fs::write(format!("{path}.0"), serde_json::to_vec(&describe()).unwrap());
        }
        *ctx.slots[0].lock().unwrap() =
            Some((ctx.executions.fetch_add(1, Ordering::Relaxed), Box::new(describe)));
        before();
        let out = execute(self.run, case);
        *ctx.slots[0].lock().unwrap() = None;
        out
    }

    fn minimize(&self, ctx: &Ctx, tree: &mut dyn ValueTree<Value = T>, msg: String) -> (T, String) {
        let mut best = (tree.current(), msg);
        let until = Instant::now() + Duration::from_secs(60);
        if !tree.simplify() {
            return best;
        }
        while Instant::now() < until {
            let case = tree.current();
            let more = match self.attempt(ctx, &case, || {}) {
                Outcome::Fail(f) if f.concerns(&ctx.prop) => {
                    best = (case, f.msg);
                    tree.simplify()
                }
                _ => tree.complicate(),
            };
            if !more {
                break;
            }
        }
        best
    }
}

fn sample(name: &str, text: &str) -> Value {
    if text.len() <= 1500 {
        json!({"campaign": name, "case": serde_json::from_str::<Value>(text).unwrap_or_default()})
    } else {
        let mut cut = 1500;
        while !text.is_char_boundary(cut) {
            cut -= 1;
        }
        json!({"campaign": name, "case_prefix": &text[..cut], "case_bytes": text.len()})
    }
}

fn replay_value<T: Serialize>(prop: &str, name: &str, case: &T, message: &str) -> Value {
    json!({
        "property": prop, "campaign": name, "runtime": RUNTIME,
        "message": message, "case": serde_json::to_value(case).unwrap_or_default(),
    })
}

struct Opts(BTreeMap<String, String>);
impl Opts {
    fn parse(args: &[String]) -> Opts {
        let mut m = BTreeMap::new();
        let mut it = args.iter();
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().cloned().unwrap_or_default());
            }
        }
        Opts(m)
    }
    fn get(&self, k: &str) -> Option<&String> {
        self.0.get(k)
    }
    fn num<T: std::str::FromStr>(&self, k: &str, d: T) -> T {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

pub fn main(args: &[String]) -> i32 {
    install_panic_hook();
    crate::watch::install();
    match args.first().map(|s| s.as_str()) {
        Some("run") if args.len() > 1 => run(&args[1], &Opts::parse(&args[2..])),
        Some("replay") if args.len() > 1 => replay(&args[1]),
        Some("isolated") => crate::props::isolated(),
        Some("list") => {
            for p in crate::props::ids() {
                for c in crate::props::campaigns(p).unwrap() {
                    println!("{p} {}", c.name());
                }
            }
            0
        }
        _ => {
            eprintln!("usage: harness run ID [--seed N] [--tier quick|thorough] [--out F] | replay FILE | list");
            2
        }
    }
}

fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| {
        serde_json::from_slice(&b).map_err(|e| e.to_string())
    }) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let prop = v["property"].as_str().unwrap_or("");
    let name = v["campaign"].as_str().unwrap_or("");
    let Some(c) = crate::props::campaigns(prop)
        .and_then(|cs| cs.into_iter().find(|c| c.name() == name))
    else {
        eprintln!("no campaign {prop}/{name}");
        return 2;
    };
    // Cases on real threads depend on timing.
    let tries = if c.timing() { 20 } else { 1 };
    let mut outcome = c.replay(&v["case"]);
    for _ in 1..tries {
        if matches!(outcome, Ok(Outcome::Pass(_))) {
            outcome = c.replay(&v["case"]);
        }
    }
    match outcome {
        Ok(Outcome::Pass(_)) => {
            println!("replay passed: property={prop} campaign={name} runtime={RUNTIME}");
            0
        }
        Ok(Outcome::Fail(f)) if f.concerns(prop) => {
            println!("replay failed: property={prop} campaign={name} runtime={RUNTIME}: {}", f.msg);
            1
        }
        Ok(Outcome::Fail(f)) => {
            println!("replay breaks other properties only {:?}: {}", f.tags, f.msg);
            0
        }
        Ok(Outcome::Broken(m)) | Err(m) => {
            eprintln!("{m}");
            2
        }
    }
}

fn run(prop: &str, o: &Opts) -> i32 {
    let Some(mut camps) = crate::props::campaigns(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    if let Some(only) = o.get("only") {
        camps.retain(|c| c.name() == only);
    }
    // Seconds for each campaign of a search guided by coverage, in a single thread.
    let guided: f64 = o.num("guided", 0.0);
    if guided > 0.0 {
        if places() == 0 {
            eprintln!("built without coverage counters");
            return 2;
        }
        // What happens on other threads or in other processes is not this case's coverage.
        camps.retain(|c| !c.timing() && c.name() != "several servers");
    }
    let shards: u64 = if guided > 0.0 { 1 } else { o.num("shards", 4) };
    let ctx = Arc::new(Ctx {
        prop: prop.to_string(),
        seed: o.num("seed", 1),
        thorough: o.get("tier").map(|t| t == "thorough").unwrap_or(false),
        shards,
        scale: o.num("scale", 1.0),
        deadline: Instant::now() + Duration::from_secs(o.num("max-secs", 200)),
        stop: AtomicBool::new(false),
        journal: o.get("journal").cloned(),
        slots: (0..shards).map(|_| Mutex::new(None)).collect(),
        evals: AtomicU64::new(0),
        executions: AtomicU64::new(0),
    });
    let hang_file = o.get("hang-file").cloned().unwrap_or_else(|| "/tmp/harness-hang.json".into());
    {
        let ctx = ctx.clone();
        std::thread::spawn(move || {
            let mut last = vec![(u64::MAX, 0u32); ctx.slots.len()];
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for (s, (seen, rounds)) in ctx.slots.iter().zip(&mut last) {
                    let s = s.lock().unwrap();
                    let Some((n, describe)) = &*s else { continue };
                    if n != seen {
                        (*seen, *rounds) = (*n, 0);
                        continue;
                    }
                    *rounds += 1;
                    if *rounds > HANG_ROUNDS {
                        let v = describe();
                        let _ = std::fs::write(&hang_file, serde_json::to_vec_pretty(&v).unwrap());
                        println!("HANG {hang_file}");
                        let _ = std::io::stdout().flush();
                        std::process::exit(3);
                    }
                }
            }
        });
    }

    let t0 = Instant::now();
    let mut out = json!({"runtime": RUNTIME, "campaigns": []});
    let mut code = 0;
    for c in &camps {
        let t1 = Instant::now();
        let all: Vec<Stats> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..shards)
                .map(|i| {
                    let (c, ctx) = (&**c, &ctx);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || match guided > 0.0 {
                            true => c.guided(ctx, guided),
                            false => c.shard(ctx, i),
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut m = Stats::default();
        for s in all {
            m.evals += s.evals;
            m.nontrivial.extend(s.nontrivial);
            for (k, v) in s.classes {
                *m.classes.entry(k).or_default() += v;
            }
            m.samples.extend(s.samples);
            m.foreign += s.foreign;
            m.foreign_sample = m.foreign_sample.or(s.foreign_sample);
            m.failure = m.failure.or(s.failure);
            m.harness_error = m.harness_error.or(s.harness_error);
            m.corpus += s.corpus;
            m.reached = s.reached;
        }
        m.samples.truncate(2);
        let mut r = json!({
            "name": c.name(), "rule": c.rule(), "evaluations": m.evals,
            "distinct_nontrivial": m.nontrivial.len(), "classes": m.classes,
            "samples": m.samples, "foreign": m.foreign, "wall_s": t1.elapsed().as_secs_f64(),
        });
        if guided > 0.0 {
            r["corpus"] = m.corpus.into();
            r["places_reached"] = json!([m.reached.0, m.reached.1]);
        }
        if let Some(f) = m.foreign_sample {
            r["foreign_sample"] = f.into();
        }
        if let Some((case, msg)) = m.failure {
            r["failure"] = json!({"replay": case, "message": msg});
            code = 1;
        }
        if let Some(e) = m.harness_error {
            eprintln!("HARNESS ERROR: {e}");
            r["harness_error"] = e.into();
            if code == 0 {
                code = 2;
            }
        }
        out["campaigns"].as_array_mut().unwrap().push(r);
        if code != 0 {
            break;
        }
    }
    out["wall_s"] = t0.elapsed().as_secs_f64().into();
    let text = serde_json::to_string_pretty(&out).unwrap();
    match o.get("out") {
        Some(p) => std::fs::write(p, text).expect("write result"),
        None => println!("{text}"),
    }
    code
}

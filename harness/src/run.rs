//! The runner every check shares: shards a generator over threads, counts what was covered,
//! shrinks a failure, writes the replay file and the evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub trait Input: Clone + Debug + Send + Sync + 'static {
    fn to_json(&self) -> Value;
    fn from_json(v: &Value) -> Self;
    /// Simpler inputs to try in place of a failing one.
    fn smaller(&self) -> Vec<Self>;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check covered.
#[derive(Default)]
pub struct Rec {
    pub evals: u64,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: std::collections::BTreeSet<String>,
    sample_every: u64,
}

impl Rec {
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn label(&mut self, l: &str) {
        if let Some(c) = self.labels.get_mut(l) {
            *c += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    /// Counts one case as non-trivial, and keeps a few of them as samples.
    pub fn nontrivial(&mut self, key: impl Hash, sample: impl FnOnce() -> String) {
        if self.nontrivial.insert(hash(&key)) {
            self.sample_every += 1;
            // spread over the run: keep the 1st, 10th, 100th, ... of each shard
            let k = self.sample_every;
            if k == 1 || k == 10 || k == 100 || k == 1000 || k == 10000 || k == 100_000 {
                self.samples.push(sample());
            }
        }
    }
    pub fn merge(&mut self, o: Self) {
        self.evals += o.evals;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.nontrivial.extend(o.nontrivial);
        self.samples.extend(o.samples);
        self.known.extend(o.known);
    }
}

pub fn hash(k: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

pub type Verdict = Result<(), String>;

pub struct Spec<I> {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub strategy: fn(Tier) -> BoxedStrategy<I>,
    pub run: fn(&I, &mut Rec) -> Verdict,
    /// cases that do not depend on the seed (enumerations, corpora)
    pub fixed: fn(Tier) -> Vec<I>,
    pub fixed_note: &'static str,
    /// generated cases, all shards together
    pub quick: u64,
    pub thorough: u64,
}

// Code under test may take the whole process down (a stack overflow, an abort): the check runs in a
// child process which notes what each thread is at, and the parent looks for the input that does it.

const CHILD: &str = "VERIF_CHILD_NOTES";

/// Notes the input the code under test is about to get in this thread.
pub fn note(input: &Value) {
    use std::os::unix::fs::FileExt;
    thread_local! {
        static NOTES: Option<std::fs::File> = {
            static NEXT: AtomicU64 = AtomicU64::new(0);
            std::env::var_os(CHILD).and_then(|d| {
                let n = NEXT.fetch_add(1, Ordering::SeqCst);
                std::fs::File::create(Path::new(&d).join(format!("{n:06}"))).ok()
            })
        };
    }
    NOTES.with(|f| {
        if let Some(f) = f {
            let t = input.to_string();
            let _ = f.set_len(0);
            let _ = f.write_all_at(t.as_bytes(), 0);
        }
    });
}

/// Runs `work` in a child process. `died` deals with the inputs noted by one that was killed by what
/// it ran. Does not return.
pub fn supervise(work: impl FnOnce() -> i32, died: impl FnOnce(Vec<Value>, &str) -> i32) -> ! {
    if std::env::var_os(CHILD).is_some() {
        std::process::exit(work());
    }
    let dir = env().root.join("build").join(format!("notes-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let (code, how) = spawn(&std::env::args().skip(1).collect::<Vec<_>>(), &dir, false);
    let code = code.unwrap_or_else(|| {
        let mut v: Vec<PathBuf> = std::fs::read_dir(&dir)
            .map(|d| d.filter_map(|e| Some(e.ok()?.path())).collect())
            .unwrap_or_default();
        v.sort();
        let v: Vec<Value> = v
            .iter()
            .filter_map(|p| serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok())
            .collect();
        died(v, &how)
    });
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code);
}

/// The exit code of a child process, or none if it did not get to give one.
fn spawn(args: &[String], notes: &Path, quiet: bool) -> (Option<i32>, String) {
    let mut c = std::process::Command::new(std::env::current_exe().expect("this program"));
    c.args(args).env(CHILD, notes);
    if quiet {
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    let st = c.status().expect("a process of this program");
    match st.code() {
        Some(n @ 0..=2) => (Some(n), String::new()),
        _ => (None, format!("the process died ({st})")),
    }
}

/// Whether the process dies when it runs this input.
fn kills(id: &str, input: &Value, dir: &Path) -> Option<String> {
    let f = dir.join("try.json");
    std::fs::write(&f, json!({"property": id, "input": input}).to_string()).ok()?;
    let (code, how) = spawn(&["replay".to_string(), f.display().to_string()], dir, true);
    code.is_none().then_some(how)
}

/// Looks for the input that took the process down and reports it.
pub fn died_at(id: &str, noted: Vec<Value>, how: &str, smaller: impl Fn(&Value) -> Vec<Value>) -> i32 {
    println!("{id}: {how}");
    let root = env().root;
    let dir = root.join("build").join(format!("died-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("a directory for inputs");
    let mut code = 2;
    'search: for mut v in noted {
        let Some(mut m) = kills(id, &v, &dir) else {
            continue;
        };
        let t = Instant::now();
        'again: loop {
            for s in smaller(&v) {
                if t.elapsed() > Duration::from_secs(40) {
                    break 'again;
                }
                if let Some(n) = kills(id, &s, &dir) {
                    v = s;
                    m = n;
                    continue 'again;
                }
            }
            break;
        }
        let t = v.to_string();
        println!("{id}: {m} on {}", t.chars().take(600).collect::<String>());
        let p = write_replay(&root, id, v, &m);
        println!("VIOLATION property={id} replay={}", p.display());
        code = 1;
        break 'search;
    }
    if code == 2 {
        println!("HARNESS ERROR in {id}: {how}, on no input in particular");
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// `died_at` for the checks that run on this runner.
pub fn died<I: Input>(s: &'static Spec<I>, noted: Vec<Value>, how: &str) -> i32 {
    died_at(s.id, noted, how, |v| {
        I::from_json(v).smaller().iter().map(Input::to_json).collect()
    })
}

struct Slot {
    tid: AtomicU64,
    cpu_at: AtomicU64,
    inside: &'static AtomicU64,
    case: Mutex<Option<Value>>,
}

fn cpu_ticks(tid: u64) -> u64 {
    // utime + stime of the thread, in clock ticks (1/100 s)
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else {
        return 0;
    };
    let Some(r) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[r + 1..].split_whitespace().collect();
    f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
}
fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0)
}
fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
}

/// CPU seconds the code under test may take for one call before it counts as not ending. The
/// slowest generated case takes well under a second.
const CASE_CPU_S: u64 = 90;
const HARNESS_CPU_S: u64 = 600;
const MEM_LIMIT: u64 = 16 << 30;

pub struct Env {
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
}

pub fn env() -> Env {
    Env {
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
            Tier::Thorough
        } else {
            Tier::Quick
        },
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        root: PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())),
    }
}

/// Findings listed in known-findings.txt for a property, by signature.
fn listed(id: &str) -> &'static BTreeMap<String, String> {
    static L: std::sync::OnceLock<BTreeMap<String, String>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let txt = std::fs::read_to_string(env().root.join("known-findings.txt")).unwrap_or_default();
        txt.lines()
            .filter_map(|l| {
                let l = l.strip_prefix(&format!("finding: property={id} signature="))?;
                let (sig, what) = l.split_once(' ')?;
                Some((sig.to_string(), what.to_string()))
            })
            .collect()
    })
}

/// The message of a failure that has the signature of a finding.
pub fn finding(sig: &str, msg: &str) -> String {
    format!("[finding {sig}] {msg}")
}

fn run_caught<I: Input>(s: &Spec<I>, i: &I, r: &mut Rec) -> Verdict {
    // a panic that is not inside a guarded call is a fault of the harness
    match catch_unwind(AssertUnwindSafe(|| (s.run)(i, r))) {
        Ok(Err(m)) => {
            // a failure with the exact signature of a listed finding is counted, not reported
            if let Some(sig) = m
                .strip_prefix("[finding ")
                .and_then(|m| m.split_once(']'))
                .map(|x| x.0)
            {
                if listed(s.id).contains_key(sig) {
                    r.label(&format!("known finding {sig}"));
                    r.known.insert(sig.to_string());
                    return Ok(());
                }
            }
            Err(m)
        }
        Ok(v) => v,
        Err(e) => {
            println!(
                "HARNESS ERROR in {}: {} on {}",
                s.id,
                crate::sym::payload(&*e),
                i.to_json()
            );
            std::process::exit(2);
        }
    }
}

fn minimize<I: Input>(s: &Spec<I>, mut i: I, mut msg: String, budget: Duration) -> (I, String) {
    let t = Instant::now();
    'again: loop {
        for c in i.smaller() {
            if t.elapsed() > budget {
                return (i, msg);
            }
            note(&c.to_json());
            if let Err(m) = run_caught(s, &c, &mut Rec::default()) {
                i = c;
                msg = m;
                continue 'again;
            }
        }
        return (i, msg);
    }
}

fn write_replay(root: &Path, id: &str, input: Value, msg: &str) -> PathBuf {
    let dir = root.join("replays");
    std::fs::create_dir_all(&dir).expect("replay directory");
    let v = json!({"property": id, "message": msg, "input": input});
    let txt = serde_json::to_string_pretty(&v).unwrap();
    let p = dir.join(format!("{id}-{:016x}.json", hash(&v["input"].to_string())));
    std::fs::write(&p, txt).expect("replay file");
    p
}

fn shard_seed(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for k in 0..4u64 {
        let h = hash(&(seed, id, shard, k));
        out[k as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub const SHARDS: u64 = 8;

pub fn check<I: Input>(s: &'static Spec<I>) -> i32 {
    let env = env();
    let start = Instant::now();
    let cases = match env.tier {
        Tier::Quick => s.quick,
        Tier::Thorough => s.thorough,
    };
    let cases = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(cases);
    // a run that takes longer stops where it is and says so
    let budget = Duration::from_secs(match env.tier {
        Tier::Quick => 300,
        Tier::Thorough => 3000,
    });

    let corpus: Vec<I> = corpus(&env.root, s.id);
    let ncorpus = corpus.len();
    let mut fixed = corpus;
    fixed.extend((s.fixed)(env.tier));
    let nfixed = fixed.len() - ncorpus;
    let fixed = Arc::new(fixed);

    let stop = Arc::new(AtomicBool::new(false));
    let cut = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..SHARDS)
            .map(|_| Slot {
                tid: AtomicU64::new(0),
                cpu_at: AtomicU64::new(0),
                inside: Box::leak(Box::new(AtomicU64::new(0))),
                case: Mutex::new(None),
            })
            .collect(),
    );
    let failures: Arc<Mutex<Vec<(u64, I, String)>>> = Arc::new(Mutex::new(Vec::new()));
    let total = Arc::new(Mutex::new(Rec::default()));
    let done = Arc::new(AtomicU64::new(0));

    std::thread::scope(|sc| {
        for shard in 0..SHARDS {
            let (stop, cut, slots, failures, total, done, fixed) = (
                stop.clone(),
                cut.clone(),
                slots.clone(),
                failures.clone(),
                total.clone(),
                done.clone(),
                fixed.clone(),
            );
            let env = &env;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let slot = &slots[shard as usize];
                    slot.tid.store(my_tid(), Ordering::SeqCst);
                    crate::sym::report_guards(slot.inside);
                    let mut rec = Rec::default();
                    let enter = |i: &I| {
                        let v = i.to_json();
                        note(&v);
                        *slot.case.lock().unwrap() = Some(v);
                        slot.cpu_at
                            .store(cpu_ticks(slot.tid.load(Ordering::SeqCst)), Ordering::SeqCst);
                    };
                    let fail = |i: I, m: String| {
                        failures.lock().unwrap().push((shard, i, m));
                        stop.store(true, Ordering::SeqCst);
                    };
                    let mut failed = false;
                    for i in fixed.iter().skip(shard as usize).step_by(SHARDS as usize) {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        enter(i);
                        if let Err(m) = run_caught(s, i, &mut rec) {
                            fail(i.clone(), m);
                            failed = true;
                            break;
                        }
                    }
                    if !failed {
                        let mut runner = runner(env.seed, s.id, shard);
                        let strat = (s.strategy)(env.tier);
                        let mine = cases / SHARDS + u64::from(shard < cases % SHARDS);
                        for _ in 0..mine {
                            if stop.load(Ordering::SeqCst) {
                                break;
                            }
                            if start.elapsed() > budget {
                                cut.store(true, Ordering::SeqCst);
                                break;
                            }
                            let mut tree = match strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    println!("HARNESS ERROR in {}: generator: {e}", s.id);
                                    std::process::exit(2);
                                }
                            };
                            let cur = tree.current();
                            enter(&cur);
                            done.fetch_add(1, Ordering::Relaxed);
                            if let Err(m) = run_caught(s, &cur, &mut rec) {
                                // shrink through the generator, then structurally
                                let mut best = (cur, m);
                                let t = Instant::now();
                                while t.elapsed() < Duration::from_secs(10) {
                                    if !tree.simplify() {
                                        break;
                                    }
                                    loop {
                                        let c = tree.current();
                                        enter(&c);
                                        match run_caught(s, &c, &mut Rec::default()) {
                                            Err(m) => {
                                                best = (c, m);
                                                break;
                                            }
                                            Ok(()) => {
                                                if t.elapsed() > Duration::from_secs(10)
                                                    || !tree.complicate()
                                                {
                                                    break;
                                                }
                                            }
                                        }
                                    }
                                }
                                fail(best.0, best.1);
                                break;
                            }
                        }
                    }
                    slot.tid.store(0, Ordering::SeqCst);
                    total.lock().unwrap().merge(rec);
                })
                .expect("thread");
        }
        // watchdog: code under test that never ends, or eats the memory, is a failure of that case;
        // time spent outside of guarded calls is the harness's own
        let (slots, root) = (slots.clone(), env.root.clone());
        let id = s.id;
        let mut seen = vec![(0u64, 0u64); slots.len()];
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let hog = rss_bytes() > MEM_LIMIT;
            let mut worst: Option<(u64, usize)> = None;
            for (i, sl) in slots.iter().enumerate() {
                let tid = sl.tid.load(Ordering::SeqCst);
                if tid == 0 {
                    continue;
                }
                let (cpu, n) = (cpu_ticks(tid), sl.inside.load(Ordering::SeqCst));
                if cpu.saturating_sub(sl.cpu_at.load(Ordering::SeqCst)) > HARNESS_CPU_S * 100 && n % 2 == 0 {
                    println!("HARNESS ERROR in {id}: a case takes the harness over {HARNESS_CPU_S} s");
                    std::process::exit(2);
                }
                if n % 2 == 0 || seen[i].0 != n {
                    seen[i] = (n, cpu);
                    continue;
                }
                let used = cpu.saturating_sub(seen[i].1);
                if worst.map_or(true, |w| used > w.0) {
                    worst = Some((used, i));
                }
            }
            if hog && worst.is_none() {
                println!("HARNESS ERROR in {id}: out of memory outside of the code under test");
                std::process::exit(2);
            }
            if let Some((used, i)) = worst {
                if used > CASE_CPU_S * 100 || hog {
                    let case = slots[i].case.lock().unwrap().clone();
                    let msg = if hog {
                        "the case uses more than 16 GB of memory".to_string()
                    } else {
                        format!("the case did not end within {CASE_CPU_S} s of CPU time")
                    };
                    if let Some(c) = case {
                        let p = write_replay(&root, id, c, &msg);
                        println!("{id}: {msg}");
                        println!("VIOLATION property={id} replay={}", p.display());
                        std::process::exit(1);
                    }
                    std::process::exit(2);
                }
            }
        });
    });

    let rec = std::mem::take(&mut *total.lock().unwrap());
    let mut fails = std::mem::take(&mut *failures.lock().unwrap());
    fails.sort_by_key(|f| f.0);
    let failure = fails.into_iter().next().map(|(_, i, m)| {
        // in a thread of its own, in case a simpler input never ends
        let (tx, rx) = std::sync::mpsc::channel();
        let (i2, m2) = (i.clone(), m.clone());
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let _ = tx.send(minimize(s, i2, m2, Duration::from_secs(20)));
            })
            .expect("thread");
        rx.recv_timeout(Duration::from_secs(60)).unwrap_or((i, m))
    });
    finish(
        &Facts {
            id: s.id,
            rule: s.rule,
            assumptions: s.assumptions,
            generated: done.load(Ordering::Relaxed),
            ncorpus,
            nfixed,
            fixed_note: s.fixed_note,
            cut: cut.load(Ordering::SeqCst),
            start,
        },
        &env,
        &rec,
        failure,
    )
}

/// What a run reports besides its counts.
pub struct Facts<'a> {
    pub id: &'a str,
    pub rule: &'a str,
    pub assumptions: &'a [&'a str],
    pub generated: u64,
    pub ncorpus: usize,
    pub nfixed: usize,
    pub fixed_note: &'a str,
    pub cut: bool,
    pub start: Instant,
}

/// Writes the evidence and the replay file, says how the run ended, gives the exit code.
pub fn finish<I: Input>(f: &Facts, env: &Env, rec: &Rec, failure: Option<(I, String)>) -> i32 {
    for sig in &rec.known {
        println!("KNOWN-FINDING: property={} {sig}: {}", f.id, listed(f.id)[sig]);
    }
    let mut samples = rec.samples.clone();
    samples.sort_by_key(|s| hash(s));
    samples.truncate(12);
    let mut violations = 0;
    let mut code = 0;
    let mut replay = Value::Null;
    if let Some((i, m)) = failure {
        let p = write_replay(&env.root, f.id, i.to_json(), &m);
        println!("{}: {m}", f.id);
        println!("{}: smallest failing input: {i:?}", f.id);
        println!("VIOLATION property={} replay={}", f.id, p.display());
        violations = 1;
        code = 1;
        replay = json!(p.display().to_string());
    }
    let ev = json!({
        "property": f.id,
        "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rec.evals,
            "distinct_nontrivial": rec.nontrivial.len(),
            "rule": f.rule,
            "samples": samples,
            "generated_cases": f.generated,
            "corpus_cases": f.ncorpus,
            "fixed_cases": f.nfixed,
            "fixed_cases_are": f.fixed_note,
            "labels": rec.labels,
            "known_findings_met": rec.known,
            "stopped_early": f.cut,
            "exhaustive": false,
        },
        "assumptions": f.assumptions,
        "wall_s": (f.start.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": violations,
        "replay": replay,
    });
    let evdir = env.root.join("evidence");
    std::fs::create_dir_all(&evdir).expect("evidence directory");
    std::fs::write(
        evdir.join(format!("{}.json", f.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("evidence file");
    if code == 0 {
        println!(
            "{}: held on {} evaluations ({} distinct non-trivial), {:.1} s",
            f.id,
            rec.evals,
            rec.nontrivial.len(),
            f.start.elapsed().as_secs_f64()
        );
        if rec.nontrivial.is_empty() {
            println!("HARNESS ERROR in {}: nothing non-trivial was generated", f.id);
            return 2;
        }
    }
    code
}

/// The inputs kept for a property, run before anything is generated.
pub fn corpus<I: Input>(root: &Path, id: &str) -> Vec<I> {
    corpus_files(root, id)
        .iter()
        .map(|p| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
            I::from_json(&v["input"])
        })
        .collect()
}

/// A deterministic source of randomness for a shard of a run.
pub fn runner(seed: u64, id: &str, shard: u64) -> TestRunner {
    let cfg = Config {
        failure_persistence: None,
        rng_seed: RngSeed::Random,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &shard_seed(seed, id, shard));
    TestRunner::new_with_rng(cfg, rng)
}

fn corpus_files(root: &Path, id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(root.join("regress").join(id))
        .map(|d| {
            d.filter_map(|e| Some(e.ok()?.path()))
                .filter(|p| p.extension().map_or(false, |e| e == "json"))
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

pub fn replay<I: Input>(s: &Spec<I>, v: &Value) -> i32 {
    let i = I::from_json(&v["input"]);
    println!("{}: replaying {i:?}", s.id);
    match run_caught(s, &i, &mut Rec::default()) {
        Ok(()) => {
            println!("{}: held", s.id);
            0
        }
        Err(m) => {
            println!("{}: {m}", s.id);
            1
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

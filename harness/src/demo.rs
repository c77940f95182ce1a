//! The check of the demonstration program: it is built, run, and what it prints is read back.
use crate::run::{self, Facts, Input, Rec, Tier, Verdict, SHARDS};
use crate::tool::{cargo, die};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Line(pub String);
impl Input for Line {
    fn to_json(&self) -> Value {
        json!(self.0)
    }
    fn from_json(v: &Value) -> Self {
        Self(v.as_str().expect("line").to_string())
    }
    fn smaller(&self) -> Vec<Self> {
        let n = self.0.len();
        let mut out = Vec::new();
        for k in [n / 2, n / 4, 2, 1] {
            if k == 0 {
                continue;
            }
            for i in (0..n).step_by(k) {
                let mut s = self.0.clone();
                s.replace_range(i..(i + k).min(n), "");
                out.push(Self(s));
            }
        }
        out
    }
}

fn line() -> BoxedStrategy<Line> {
    let any_char = || prop::sample::select("()[]{}dc".chars().collect::<Vec<_>>());
    let nest = prop::collection::vec(0usize..3, 1..30).prop_map(|v| {
        let mut s: String = v.iter().map(|k| ['(', '[', '{'][*k]).collect();
        s.extend(v.iter().rev().map(|k| [')', ']', '}'][*k]));
        s
    });
    let edited = (nest.clone(), prop::collection::vec((any::<u8>(), any_char(), 0..4u8), 1..4)).prop_map(
        |(s, edits)| {
            let mut v: Vec<char> = s.chars().collect();
            for (at, c, how) in edits {
                let at = at as usize % (v.len() + 1);
                match how {
                    0 => v.insert(at, c),
                    1 if at < v.len() => v[at] = c,
                    2 if at < v.len() => drop(v.remove(at)),
                    _ => v.truncate(at),
                }
            }
            v.into_iter().collect()
        },
    );
    let random = prop::collection::vec(any_char(), 0..12).prop_map(|v| v.into_iter().collect());
    (
        prop_oneof![3 => nest, 4 => edited, 2 => random],
        prop::sample::select(vec!["", "", "", " ", "\t"]),
        prop::sample::select(vec!["", "", "", " ", "\r"]),
    )
        .prop_map(|(s, a, b): (String, _, _)| Line(format!("{a}{s}{b}")))
        .boxed()
}

/// All lines of up to five brackets of two kinds.
fn fixed() -> Vec<Line> {
    let mut out = vec![Line(String::new())];
    let mut last = vec![String::new()];
    for _ in 0..5 {
        last = last
            .iter()
            .flat_map(|p| "()[]".chars().map(move |c| format!("{p}{c}")))
            .collect();
        out.extend(last.iter().cloned().map(Line));
    }
    out.extend("{}dc".chars().map(|c| Line(c.to_string())));
    out
}

/// The first character (or the end) no properly nested line can continue with, and what it could
/// continue with.
fn wrong(s: &[char]) -> Option<(usize, Vec<String>)> {
    let opens = ["(", "[", "{"];
    let close = |c: char| match c {
        '(' => ')',
        '[' => ']',
        _ => '}',
    };
    let mut open: Vec<char> = Vec::new();
    // nothing may be opened any more once something was closed
    let mut closing = false;
    for i in 0..=s.len() {
        let done = closing && open.is_empty();
        let mut exp: Vec<String> = Vec::new();
        if !closing {
            exp.extend(opens.iter().map(|o| (*o).to_string()));
        }
        if let Some(o) = open.last() {
            exp.push(close(*o).to_string());
        }
        if done {
            exp.push("$".into());
        }
        let c = s.get(i).map_or("$".to_string(), char::to_string);
        if !exp.contains(&c) {
            exp.sort();
            return Some((i, exp));
        }
        let Some(c) = s.get(i) else { return None };
        if "([{".contains(*c) {
            open.push(*c);
        } else {
            open.pop();
            closing = true;
        }
    }
    None
}

/// The cells of the rows of a printed table.
fn rows(t: &str) -> Vec<Vec<String>> {
    t.lines()
        .filter(|l| l.starts_with('|'))
        .map(|l| {
            let l = l.trim_end();
            l[1..l.len() - 1]
                .split('|')
                .map(|c| c.trim().to_string())
                .collect()
        })
        .collect()
}
fn unquote(s: &str) -> String {
    s.trim().trim_matches('"').to_string()
}
/// The quoted words of a cell.
fn quoted(s: &str) -> Vec<String> {
    s.split('"').skip(1).step_by(2).map(str::to_string).collect()
}

struct Tables {
    /// (state, symbol) to the printed action
    acts: BTreeMap<(usize, String), String>,
}

fn tables(text: &str) -> Result<Tables, String> {
    // tables are separated by two border lines in a row
    let mut parts: Vec<Vec<&str>> = vec![vec![]];
    let mut border = false;
    for l in text.lines() {
        let b = l.starts_with("+-");
        if b && border {
            parts.push(vec![]);
        }
        border = b;
        parts.last_mut().unwrap().push(l);
    }
    let parts: Vec<Vec<Vec<String>>> = parts.iter().map(|p| rows(&p.join("\n"))).collect();
    ensure!(parts.len() == 3, "{} tables are printed first instead of three", parts.len());
    // FIRST and FOLLOW
    let want = BTreeMap::from([
        ("'S".to_string(), (vec!["(", "[", "{"], vec!["$"])),
        ("S".to_string(), (vec!["(", "[", "{"], vec!["$", ")", "]", "}"])),
    ]);
    let mut got = BTreeMap::new();
    for r in parts[0].iter().skip(1) {
        ensure!(r.len() == 3, "a row of the first table is {r:?}");
        let mut f = quoted(&r[1]);
        let mut g = quoted(&r[2]);
        f.sort();
        g.sort();
        got.insert(r[0].clone(), (f, g));
    }
    ensure!(
        got.len() == want.len()
            && want.iter().all(|(k, w)| got.get(k).map_or(false, |g| g.0 == w.0 && g.1 == w.1)),
        "FIRST and FOLLOW are printed as {got:?}"
    );
    // actions: the columns are the terminals, the state, the non-terminals
    let head: Vec<String> = parts[2].first().ok_or("no action table")?.iter().map(|c| unquote(c)).collect();
    let terms: Vec<&String> = head.iter().filter(|c| !c.is_empty() && !c.contains('S')).collect();
    let nts: Vec<&String> = head.iter().filter(|c| c.contains('S')).collect();
    ensure!(terms.len() == 7 && nts.len() == 2, "the action table's columns are {head:?}");
    let mut acts = BTreeMap::new();
    for (i, r) in parts[2].iter().skip(1).enumerate() {
        ensure!(r.len() == 10, "a row of the action table is {r:?}");
        let st: usize = r[7].parse().map_err(|_| format!("the state of a row is {:?}", r[7]))?;
        ensure!(st == i, "row {i} is for state {st}");
        for (k, t) in terms.iter().enumerate() {
            if !r[k].is_empty() {
                acts.insert((st, (*t).clone()), r[k].clone());
            }
        }
        for (k, t) in nts.iter().enumerate() {
            if !r[8 + k].is_empty() {
                acts.insert((st, (*t).clone()), r[8 + k].clone());
            }
        }
    }
    Ok(Tables { acts })
}

fn number(a: &str, kind: &str) -> Option<usize> {
    a.strip_prefix(kind)?.strip_prefix('(')?.strip_suffix(')')?.parse().ok()
}

/// What is printed for one line, against the printed table and the language of nested brackets.
fn judge(t: &Tables, l: &Line, text: &str) -> Result<usize, String> {
    let s: Vec<char> = l.0.trim().chars().collect();
    let rs = rows(text);
    ensure!(rs.len() >= 3, "printed {text:?}");
    let last = rs.last().unwrap();
    let steps = &rs[1..rs.len() - 1];
    // run the printed table
    let mut states = vec![0usize];
    let mut syms: Vec<String> = Vec::new();
    let mut at = 0;
    for (n, r) in steps.iter().enumerate() {
        ensure!(r.len() == 5, "step {} is printed as {r:?}", n + 1);
        let rest: Vec<String> = s[at..].iter().map(char::to_string).chain(["$".to_string()]).collect();
        let top = *states.last().unwrap();
        let act = t.acts.get(&(top, rest[0].clone()));
        let mut stack = vec!["0".to_string()];
        for (x, y) in syms.iter().zip(&states[1..]) {
            stack.push(format!("{x:?}"));
            stack.push(y.to_string());
        }
        let want = [
            (n + 1).to_string(),
            stack.join(" "),
            format!("{rest:?}"),
            format!("{top}:{:?}", rest[0]),
            act.cloned().unwrap_or_else(|| "n/a".into()),
        ];
        ensure!(
            want.iter().zip(r).all(|(w, g)| w == g),
            "step {} is printed as {r:?}, the table leads to {want:?}",
            n + 1
        );
        let end = n + 1 == steps.len();
        let Some(a) = act else {
            ensure!(end, "the run goes on after step {}, which has no action", n + 1);
            break;
        };
        if a == "Acc" {
            ensure!(end, "the run goes on after step {}, which accepts", n + 1);
            break;
        }
        ensure!(!end, "the run stops at step {}, before {a}", n + 1);
        if let Some(to) = number(a, "Shift") {
            syms.push(rest[0].clone());
            states.push(to);
            at += 1;
        } else if a.starts_with("Reduce") {
            let mut q = quoted(a);
            ensure!(q.len() >= 2 && q.len() <= syms.len() + 1, "{a} at {r:?}");
            let lhs = q.remove(0);
            let from = syms.len() - q.len();
            ensure!(syms[from..] == q[..], "{a} with the stack {:?}", r[1]);
            syms.truncate(from);
            states.truncate(from + 1);
            let go = t
                .acts
                .get(&(*states.last().unwrap(), lhs.clone()))
                .and_then(|a| number(a, "Goto"))
                .ok_or_else(|| format!("no way to go on after {a} at step {}", n + 1))?;
            syms.push(lhs);
            states.push(go);
        } else {
            return Err(format!("the action {a:?}"));
        }
    }
    // and how it ends
    ensure!(last.len() >= 2 && last[0] == "state", "the last row is {last:?}");
    match wrong(&s) {
        None => ensure!(last[1] == "ok", "{:?} ends with {:?}", l.0, last[1]),
        Some((k, exp)) => {
            let c = s.get(k).map_or("$".to_string(), char::to_string);
            let q = quoted(&last[1]);
            ensure!(
                last[1].starts_with("unexpected token") && q.first() == Some(&c),
                "{:?} ends with {:?}, the first wrong character is {c:?}",
                l.0,
                last[1]
            );
            ensure!(at == k, "{:?}: the run stops after {at} characters instead of {k}", l.0);
            let mut g: Vec<String> = q[1..].iter().filter(|x| !x.contains('S')).cloned().collect();
            g.sort();
            // LALR(1) may list more than what can really stand there
            ensure!(
                exp.iter().all(|x| g.contains(x)) && !g.contains(&c),
                "{:?} expects {g:?}, what can stand there is {exp:?}",
                l.0
            );
        }
    }
    Ok(steps.len())
}

/// Runs the program on the lines; the first line whose output is wrong, with what is wrong.
/// Gives the number of steps of each line before it.
fn run_lines(bin: &Path, lines: &[Line]) -> (Vec<usize>, Option<(usize, String)>) {
    let mut child = Command::new("prlimit")
        .args(["--cpu=300", "--as=8000000000"])
        .arg(bin)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| die(&format!("the demonstration program: {e}")));
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let input: String = lines.iter().map(|l| l.0.clone() + "\n").collect();
    // standard input stays open until everything was answered
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(input.as_bytes());
        let _ = stdin.flush();
        let _ = rx.recv_timeout(Duration::from_secs(400));
    });
    let mut out: Vec<u8> = Vec::new();
    let mut buf = vec![0u8; 1 << 16];
    let mut prompts = 0;
    let prompt = b"input: ";
    let mut seen = 0;
    // it asks once more than there are lines
    while prompts <= lines.len() {
        let n = stdout.read(&mut buf).unwrap_or(0);
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
        while let Some(k) = out[seen..].windows(prompt.len()).position(|w| w == prompt) {
            prompts += 1;
            seen += k + prompt.len();
        }
    }
    let _ = child.kill();
    let _ = child.wait();
    let _ = tx.send(());
    let _ = writer.join();
    let text = String::from_utf8_lossy(&out).into_owned();
    let mut parts = text.split("input: ");
    let mut steps = Vec::new();
    let t = match tables(parts.next().unwrap_or("")) {
        Ok(t) => t,
        Err(e) => return (steps, Some((0, e))),
    };
    let parts: Vec<&str> = parts.collect();
    for (k, l) in lines.iter().enumerate() {
        // the answer is complete once the next prompt is printed
        if k + 1 >= parts.len() {
            return (steps, Some((k, format!("no answer to {:?}: the program ended or hung", l.0))));
        }
        match judge(&t, l, parts[k]) {
            Ok(n) => steps.push(n),
            Err(e) => return (steps, Some((k, e))),
        }
    }
    (steps, None)
}

fn build(root: &Path) -> PathBuf {
    let dir = root.join("build").join("gen").join("C19");
    let target = root.join("build").join("lrpdemo");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{}: {e}", dir.display())));
    // a crate of its own: building inside /repo would rewrite /repo's lock file
    std::fs::write(
        dir.join("Cargo.toml"),
        "[package]\nname = \"lrpdemo\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nlrp = { path = \"/repo\" }\nprettytable-rs = \"0.10.0\"\n[[bin]]\nname = \"lrpdemo\"\npath = \"/repo/src/main.rs\"\n[profile.dev]\ndebug = false\nincremental = false\nopt-level = 2\n",
    )
    .unwrap_or_else(|e| die(&format!("{e}")));
    let _ = std::fs::copy(root.join("harness/Cargo.lock"), dir.join("Cargo.lock"));
    if let Err(e) = cargo(&dir, &dir.join("Cargo.toml"), &target, &[]) {
        die(&format!("the demonstration program does not build: {e}"));
    }
    let _ = std::fs::remove_dir_all(&dir);
    target.join("debug/lrpdemo")
}

fn one(bin: &Path, l: &Line) -> Verdict {
    match run_lines(bin, std::slice::from_ref(l)).1 {
        Some((_, e)) => Err(e),
        None => Ok(()),
    }
}

pub fn replay(v: &Value) -> i32 {
    let l = Line::from_json(&v["input"]);
    println!("C19: replaying {l:?}");
    match one(&build(&run::env().root), &l) {
        Ok(()) => {
            println!("C19: held");
            0
        }
        Err(m) => {
            println!("C19: {m}");
            1
        }
    }
}

pub fn check() -> i32 {
    let env = run::env();
    let start = Instant::now();
    let n: u64 = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if env.tier == Tier::Quick { 8_000 } else { 200_000 });
    let bin = build(&env.root);
    let corpus: Vec<Line> = run::corpus(&env.root, "C19");
    let ncorpus = corpus.len();
    let fixed = fixed();
    let nfixed = fixed.len();
    let mut rec = Rec::default();
    let mut generated = 0;
    let mut failure: Option<(Line, String)> = None;
    type Part = (Vec<Line>, Vec<usize>, Option<(usize, String)>);
    let parts: Vec<Part> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..SHARDS)
            .map(|sh| {
                let (bin, corpus, fixed, seed) = (&bin, &corpus, &fixed, env.seed);
                sc.spawn(move || {
                    let mut r = run::runner(seed, "C19", sh);
                    let st = line();
                    let mut v: Vec<Line> = Vec::new();
                    if sh == 0 {
                        v.extend(corpus.iter().cloned());
                    }
                    v.extend(fixed.iter().skip(sh as usize).step_by(SHARDS as usize).cloned());
                    for _ in 0..n / SHARDS {
                        v.push(
                            st.new_tree(&mut r)
                                .unwrap_or_else(|e| die(&format!("generator: {e}")))
                                .current(),
                        );
                    }
                    // one run takes a few thousand lines at most
                    let mut steps = Vec::new();
                    let mut bad = None;
                    for (k, part) in v.chunks(4000).enumerate() {
                        let (s, b) = run_lines(bin, part);
                        steps.extend(s);
                        if let Some((i, m)) = b {
                            bad = Some((k * 4000 + i, m));
                            break;
                        }
                    }
                    (v, steps, bad)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| die("a thread of the check")))
            .collect()
    });
    for (v, steps, bad) in parts {
        generated += v.len() as u64;
        for (l, n) in v.iter().zip(&steps) {
            rec.eval();
            let ok = wrong(&l.0.trim().chars().collect::<Vec<_>>()).is_none();
            rec.label(if ok { "nested" } else { "not nested" });
            if *n >= 4 {
                rec.nontrivial(l, || l.0.clone());
            }
        }
        if let Some((k, m)) = bad {
            if failure.as_ref().map_or(true, |f| v[k].0.len() < f.0 .0.len()) {
                failure = Some((v[k].clone(), m));
            }
        }
    }
    if let Some((mut l, mut m)) = failure.take() {
        let t = Instant::now();
        'again: while t.elapsed() < Duration::from_secs(30) {
            for c in l.smaller() {
                if t.elapsed() > Duration::from_secs(30) {
                    break 'again;
                }
                if let Err(e) = one(&bin, &c) {
                    l = c;
                    m = e;
                    continue 'again;
                }
            }
            break;
        }
        failure = Some((l, m));
    }
    run::finish(
        &Facts {
            id: "C19",
            rule: "A case is one line given to the running program; an evaluation is one answer read back. Non-trivial: at least four steps; counted by distinct lines.",
            assumptions: &["the program prints its tables, then a prompt, a table and a result for each line", "lines hold brackets, d, c and surrounding blanks (the program stops at any other character)"],
            generated,
            ncorpus,
            nfixed,
            fixed_note: "all lines of up to five brackets of two kinds",
            cut: false,
            start,
        },
        &env,
        &rec,
        failure,
    )
}

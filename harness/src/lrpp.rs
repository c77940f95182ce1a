//! C20: programs written against the library. Grammars are written down as source text, with the
//! library's macro and symbols of several types, built into programs and run; what the programs
//! print about their grammars and parsers is compared with the grammars meant.
use super::*;
use crate::run::{self, Facts, SHARDS};
use crate::tool::{cargo, die};
use proptest::strategy::ValueTree;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const KINDS: [&str; 8] = [
    "string literals",
    "character literals",
    "integer literals",
    "byte literals",
    "unit variants of an enum",
    "constants",
    "local variables",
    "unit structs of one trait's type",
];

fn with_choices(t: Tier) -> BoxedStrategy<Case> {
    (with_inputs(t), prop::collection::vec(any::<u8>(), 8))
        .prop_map(|(c, extra)| Case { extra, ..c })
        .boxed()
}

fn byte(c: &Case, i: usize) -> usize {
    c.extra.get(i).copied().unwrap_or(0) as usize
}
fn kind(c: &Case) -> usize {
    byte(c, 0) % KINDS.len()
}

const ODD: [&str; 20] = [
    "", " ", "\n", "\"", "\\", "é", "→", "$", "'", "|", "->", "{}", "a b", "Rule", "0", "\0", "{0:?}", "//", "a", "日本",
];
const LOCALS: [&str; 12] =
    ["rule", "hmp", "grammar", "terms", "map", "vec", "x", "new", "Map", "k", "e", "s"];

/// How a symbol is written in the program and how it prints.
fn symbol(c: &Case, s: u16) -> (String, String) {
    let n = c.g.rank.len();
    // distinct numbers in an order of their own
    let i = (s as usize * (2 * (byte(c, 2) % 40) + 1) + byte(c, 3)) % n.next_power_of_two();
    let odd = || format!("{}{}", ODD[(i + byte(c, 4)) % ODD.len()], if i < ODD.len() { String::new() } else { i.to_string() });
    match kind(c) {
        0 => {
            let t = odd();
            (format!("{t:?}"), format!("{t:?}"))
        }
        1 => {
            let t = char::from_u32(if i < 90 { 33 + i as u32 } else { 0x4e00 + i as u32 }).unwrap();
            (format!("{t:?}"), format!("{t:?}"))
        }
        2 => {
            let t = i as i32 * 3 - 40;
            (t.to_string(), t.to_string())
        }
        3 => (
            format!("b'\\x{i:02x}'"),
            i.to_string(),
        ),
        4 => (format!("V{i}"), format!("V{i}")),
        5 => (format!("K{i}"), format!("{:?}", odd())),
        6 => (
            LOCALS.get(i).map_or_else(|| format!("v{i}"), |l| (*l).to_string()),
            format!("{:?}", odd()),
        ),
        _ => (format!("U{i}"), format!("<{i}>")),
    }
}

fn rules_of(c: &Case) -> Vec<usize> {
    let mut v: Vec<usize> = (0..c.g.nts).collect();
    v.rotate_left(byte(c, 5) % c.g.nts);
    if byte(c, 5) >= 128 {
        v.reverse();
    }
    v
}

/// The function of one grammar.
fn function(c: &Case, n: usize) -> String {
    let g = &c.g;
    let w = |s: u16| symbol(c, s).0;
    let mut o = format!("fn g{n}() {{\n");
    match kind(c) {
        4 => o.push_str("    use V::*;\n"),
        5 | 6 => {
            for s in 0..g.rank.len() as u16 {
                let (name, value) = symbol(c, s);
                o.push_str(&if kind(c) == 5 {
                    format!("    const {name}: &str = {value};\n")
                } else {
                    format!("    let {name} = {value};\n")
                });
            }
        }
        7 => {
            for s in 0..g.rank.len() as u16 {
                let (name, _) = symbol(c, s);
                o.push_str(&format!("    const {name}: U = U({});\n", &name[1..]));
            }
        }
        _ => {}
    }
    let rules: Vec<String> = rules_of(c)
        .into_iter()
        .map(|l| {
            let prods: Vec<String> = g.prods[l]
                .iter()
                .map(|p| p.iter().map(|s| w(*s)).collect::<Vec<_>>().join(" "))
                .collect();
            format!("        {} -> {}", w(l as u16), prods.join(" | "))
        })
        .collect();
    let (open, close) = [("(", ")"), ("[", "]"), ("{", "}")][byte(c, 6) % 3];
    o.push_str(&format!("    let rules = lrp::grammar_map!{open}\n{}\n    {close};\n", rules.join(",\n")));
    let words: Vec<String> = c
        .inputs
        .iter()
        .map(|x| format!("vec![{}]", x.iter().map(|s| w(*s)).collect::<Vec<_>>().join(", ")))
        .collect();
    o.push_str(&format!(
        "    show(lrp::Grammar::new({}, rules, {}), vec![{}]);\n}}\n",
        w(0),
        w(g.eof()),
        words.join(", ")
    ));
    o
}

const HEAD: &str = r#"#![allow(warnings)]
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// not Copy, and it prints only for debugging
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum V { @VARIANTS@ }

/// ordered backwards
#[derive(Clone, PartialEq, Eq)]
struct U(u32);
impl PartialOrd for U { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for U { fn cmp(&self, o: &Self) -> std::cmp::Ordering { o.0.cmp(&self.0) } }
impl Debug for U { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.0) } }

fn parser<T: Clone + Ord + Debug, P: lrp::Parser<T>>(kind: &str, g: &lrp::Grammar<T>, words: &[Vec<T>]) {
    let p = P::new(g.clone());
    let free = p.tables().conflicts().count() == 0;
    print!("{kind} {free} ");
    if free {
        for w in words {
            print!("{}", p.validate(lrp::to_tokens(w.clone())) as u8);
        }
    }
    println!();
}

fn show<T: Clone + Ord + Debug>(g: lrp::Grammar<T>, words: Vec<Vec<T>>) {
    for (k, r) in &g.rules {
        print!("rule {k:?} {:?}:", r.name);
        for p in r.prods() {
            print!(" {}{:?}", p.1, p.0);
        }
        println!();
    }
    println!("terminals {:?}", g.terminals);
    parser::<T, lrp::Slr<T>>("SLR", &g, &words);
    parser::<T, lrp::Lalr<T>>("LALR", &g, &words);
    parser::<T, lrp::Clr<T>>("canonical LR(1)", &g, &words);
}
"#;

fn program(cases: &[&Case]) -> String {
    let vs: Vec<String> = (0..256).map(|i| format!("V{i}")).collect();
    let mut o = HEAD.replace("@VARIANTS@", &vs.join(", "));
    for (n, c) in cases.iter().enumerate() {
        o.push_str(&function(c, n));
    }
    o.push_str("fn main() {\n    let all: &[fn()] = &[");
    for n in 0..cases.len() {
        o.push_str(&format!("g{n}, "));
    }
    o.push_str("];\n    for (n, g) in all.iter().enumerate() {\n        println!(\"== {n}\");\n        let r = catch_unwind(AssertUnwindSafe(g));\n        println!(\"end {}\", r.is_ok());\n    }\n}\n");
    o
}

/// What the program has to print for a grammar, line by line (in any order where the library's
/// maps decide it), and the derivable words among the inputs.
struct Expected {
    rules: Vec<String>,
    terminals: Vec<String>,
    parsers: Vec<String>,
}
fn expected(c: &Case) -> Option<Expected> {
    let g = &c.g;
    if g.rank.len() > 100 || g.n_prods() > 45 {
        return None;
    }
    let rf = Refs::new(g)?;
    if rf.clr.rows.len() > 200 {
        return None;
    }
    let d = |s: u16| symbol(c, s).1;
    let mut rules: Vec<String> = g
        .prods
        .iter()
        .enumerate()
        .map(|(l, alts)| {
            let n = d(l as u16);
            let ps: String = alts
                .iter()
                .enumerate()
                .map(|(i, p)| format!(" {i}[{}]", p.iter().map(|s| d(*s)).collect::<Vec<_>>().join(", ")))
                .collect();
            format!("rule {n} {n}:{ps}")
        })
        .collect();
    rules.sort();
    let mut used: Vec<u16> = g.prods.iter().flatten().flatten().copied().filter(|s| *s as usize >= g.nts).collect();
    used.push(g.eof());
    used.sort_unstable();
    used.dedup();
    let mut terminals: Vec<String> = used.iter().map(|s| d(*s)).collect();
    terminals.sort();
    let mut bits = String::new();
    for w in &c.inputs {
        bits.push(if rf.rg.earley(w)?.accepts { '1' } else { '0' });
    }
    let parsers = Kind::ALL
        .iter()
        .map(|k| {
            let free = rf.auto(*k).conflicts() == 0;
            format!("{} {free} {}", k.name(), if free { &bits } else { "" })
        })
        .collect();
    Some(Expected { rules, terminals, parsers })
}

fn judge(c: &Case, e: &Expected, text: Option<&str>) -> Verdict {
    let how = KINDS[kind(c)];
    let Some(text) = text else {
        return Err(format!("written with {how}: the program does not get to the end of this grammar"));
    };
    ensure!(text.ends_with("end true\n"), "written with {how}: the program panics");
    // the symbols may hold line breaks of no sort: they print escaped
    let lines: Vec<&str> = text.lines().collect();
    let mut rules: Vec<&str> = lines.iter().copied().filter(|l| l.starts_with("rule ")).collect();
    rules.sort_unstable();
    ensure!(
        rules.iter().eq(e.rules.iter()),
        "written with {how}, the rules are {rules:?} and not {:?}",
        e.rules
    );
    let t = lines
        .iter()
        .find_map(|l| l.strip_prefix("terminals "))
        .unwrap_or("");
    // as text: the library decides the order
    let want: usize = e.terminals.iter().map(String::len).sum::<usize>() + 2 * e.terminals.len();
    ensure!(
        t.len() == want && e.terminals.iter().all(|x| t.contains(x.as_str())),
        "written with {how}, the terminals are {t} and not {:?}",
        e.terminals
    );
    for w in &e.parsers {
        ensure!(
            lines.contains(&w.as_str()),
            "written with {how}: no line {w:?} (construction, whether free of conflicts, which words are accepted) among {:?}",
            lines.iter().filter(|l| !l.starts_with("rule ")).collect::<Vec<_>>()
        );
    }
    Ok(())
}

struct Shop {
    dir: PathBuf,
    target: PathBuf,
}
impl Shop {
    fn open(root: &Path) -> Self {
        let s = Self {
            dir: root.join("build").join("gen").join("C20"),
            target: root.join("build").join("lrpprog"),
        };
        let io = |e: std::io::Error| die(&format!("{}: {e}", s.dir.display()));
        let _ = std::fs::remove_dir_all(&s.dir);
        std::fs::create_dir_all(&s.dir).unwrap_or_else(|e| io(e));
        let _ = std::fs::copy(root.join("harness/Cargo.lock"), s.dir.join("Cargo.lock"));
        s
    }
    /// Builds one program for each part.
    fn build(&self, parts: &[Vec<&Case>]) -> Result<Vec<PathBuf>, String> {
        let io = |e: std::io::Error| die(&format!("{}: {e}", self.dir.display()));
        let mut m = String::from("[package]\nname = \"lrpprog\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nlrp = { path = \"/repo\" }\n[profile.dev]\ndebug = false\nincremental = false\nopt-level = 1\n");
        for (k, p) in parts.iter().enumerate() {
            m.push_str(&format!("[[bin]]\nname = \"p{k}\"\npath = \"p{k}.rs\"\n"));
            std::fs::write(self.dir.join(format!("p{k}.rs")), program(p)).unwrap_or_else(|e| io(e));
        }
        std::fs::write(self.dir.join("Cargo.toml"), m).unwrap_or_else(|e| io(e));
        cargo(&self.dir, &self.dir.join("Cargo.toml"), &self.target, &[])?;
        Ok((0..parts.len()).map(|k| self.target.join(format!("debug/p{k}"))).collect())
    }
    /// What the programs print for each case, part by part; or the cases of a part do not build.
    fn run(&self, parts: &[Vec<&Case>]) -> Result<Vec<Vec<Option<String>>>, String> {
        let bins = self.build(parts)?;
        Ok(std::thread::scope(|sc| {
            let hs: Vec<_> = bins
                .iter()
                .zip(parts)
                .map(|(b, p)| sc.spawn(move || outputs(b, p.len())))
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| die("a thread of the check")))
                .collect()
        }))
    }
}
impl Drop for Shop {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn outputs(bin: &Path, n: usize) -> Vec<Option<String>> {
    let o = Command::new("prlimit")
        .args(["--cpu=120", "--as=6000000000", "--core=0"])
        .arg(bin)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .unwrap_or_else(|e| die(&format!("{}: {e}", bin.display())));
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut v: Vec<Option<String>> = text
        .split("== ")
        .skip(1)
        .map(|t| t.split_once('\n').map(|x| x.1.to_string()).filter(|t| t.contains("\nend ")))
        .collect();
    v.resize(n, None);
    v
}

/// Looks for a case of `cases` which does not build, knowing that some set of them does not.
fn unbuildable(shop: &Shop, cases: &[&Case], err: &str) -> (Case, String) {
    if let Err(e) = shop.build(&[vec![]]) {
        die(&format!("a program that only uses the library's types does not build: {e}"));
    }
    let mut set: Vec<&Case> = cases.to_vec();
    let mut err = err.to_string();
    while set.len() > 1 {
        let (a, b) = set.split_at(set.len() / 2);
        let (a, b) = (a.to_vec(), b.to_vec());
        match shop.build(&[a.clone()]) {
            Err(e) => {
                set = a;
                err = e;
            }
            Ok(_) => match shop.build(&[b.clone()]) {
                Err(e) => {
                    set = b;
                    err = e;
                }
                Ok(_) => die(&format!("programs build apart but not together: {err}")),
            },
        }
    }
    let first: Vec<&str> = err.lines().filter(|l| l.starts_with("error")).take(2).collect();
    (
        set[0].clone(),
        format!("written with {}, the program does not build: {}", KINDS[kind(set[0])], first.join("; ")),
    )
}

/// The cases of a batch which fail, the first of each part.
fn failing(shop: &Shop, parts: &[Vec<(&Case, &Expected)>]) -> Vec<(Case, String)> {
    let only: Vec<Vec<&Case>> = parts.iter().map(|p| p.iter().map(|x| x.0).collect()).collect();
    match shop.run(&only) {
        Err(e) => vec![unbuildable(shop, &only.concat(), &e)],
        Ok(outs) => parts
            .iter()
            .zip(outs)
            .filter_map(|(p, o)| {
                p.iter()
                    .zip(o)
                    .find_map(|((c, e), t)| judge(c, e, t.as_deref()).err().map(|m| ((*c).clone(), m)))
            })
            .collect(),
    }
}

pub fn replay(v: &Value) -> i32 {
    let c = Case::from_json(&v["input"]);
    println!("C20: replaying {c:?}");
    let Some(e) = expected(&c) else {
        println!("C20: too large");
        return 2;
    };
    let shop = Shop::open(&run::env().root);
    match failing(&shop, &[vec![(&c, &e)]]).first() {
        None => {
            println!("C20: held");
            0
        }
        Some((_, m)) => {
            println!("C20: {m}");
            1
        }
    }
}

pub fn check() -> i32 {
    let env = run::env();
    let start = Instant::now();
    let n: u64 = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if env.tier == Tier::Quick { 800 } else { 16_000 });
    let shop = Shop::open(&env.root);
    let corpus: Vec<Case> = run::corpus(&env.root, "C20");
    let ncorpus = corpus.len();
    // each shard writes programs with one sort of symbols
    let made: Vec<Vec<(Case, Expected)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..SHARDS)
            .map(|sh| {
                let (corpus, seed, tier) = (&corpus, env.seed, env.tier);
                sc.spawn(move || {
                    let mut r = run::runner(seed, "C20", sh);
                    let st = with_choices(tier);
                    let mut v: Vec<(Case, Expected)> = Vec::new();
                    if sh == 0 {
                        v.extend(corpus.iter().filter_map(|c| Some((c.clone(), expected(c)?))));
                    }
                    let end = v.len() + (n / SHARDS) as usize;
                    for _ in 0..n {
                        if v.len() >= end {
                            break;
                        }
                        let mut c = st
                            .new_tree(&mut r)
                            .unwrap_or_else(|e| die(&format!("generator: {e}")))
                            .current();
                        c.extra[0] = sh as u8 % KINDS.len() as u8;
                        if let Some(e) = expected(&c) {
                            v.push((c, e));
                        }
                    }
                    v
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| die("a thread of the check")))
            .collect()
    });
    let generated = made.iter().map(Vec::len).sum::<usize>() as u64;
    let mut rec = Rec::default();
    let mut failure: Option<(Case, String)> = None;
    let mut round = 0;
    const PART: usize = 100;
    loop {
        let parts: Vec<Vec<(&Case, &Expected)>> = made
            .iter()
            .map(|v| v.iter().skip(round * PART).take(PART).map(|(c, e)| (c, e)).collect())
            .filter(|p: &Vec<_>| !p.is_empty())
            .collect();
        if parts.is_empty() {
            break;
        }
        let bad = failing(&shop, &parts);
        for (c, e) in parts.iter().flatten() {
            rec.eval();
            rec.label(KINDS[kind(c)]);
            let both = e.parsers.iter().any(|p| p.contains('1') && p.contains('0'));
            if e.parsers.iter().all(|p| p.contains("false")) {
                rec.label("with conflicts in every construction");
            }
            if both && c.g.n_prods() >= 3 {
                rec.nontrivial((&c.g, &c.inputs, kind(c)), || function(c, 0));
            }
        }
        failure = bad.into_iter().min_by_key(|(c, _)| c.g.size());
        if failure.is_some() {
            break;
        }
        round += 1;
    }
    if let Some((mut c, mut m)) = failure.take() {
        let t = Instant::now();
        let unbuilt = m.contains("does not build");
        'again: while t.elapsed() < Duration::from_secs(90) {
            let small: Vec<(Case, Expected)> = c
                .smaller()
                .into_iter()
                .filter(|s| s.extra.len() == c.extra.len())
                .filter_map(|s| expected(&s).map(|e| (s, e)))
                .take(if unbuilt { 6 } else { 400 })
                .collect();
            if small.is_empty() {
                break;
            }
            let parts: Vec<Vec<(&Case, &Expected)>> = if unbuilt {
                small.iter().map(|(c, e)| vec![(c, e)]).collect()
            } else {
                small.chunks(50).map(|p| p.iter().map(|(c, e)| (c, e)).collect()).collect()
            };
            let groups: Vec<Vec<Vec<(&Case, &Expected)>>> =
                if unbuilt { parts.into_iter().map(|p| vec![p]).collect() } else { vec![parts] };
            for p in groups {
                if let Some((s, n)) = failing(&shop, &p).into_iter().min_by_key(|(c, _)| (c.g.size(), c.inputs.len())) {
                    c = s;
                    m = n;
                    continue 'again;
                }
            }
            break;
        }
        failure = Some((c, m));
    }
    drop(shop);
    run::finish(
        &Facts {
            id: "C20",
            rule: "A case is a generated grammar of up to 45 productions with up to eight words, written down as a program: with the library's macro, its rules in any order, its symbols as string, character, integer or byte literals, unit variants of an enum, constants of two types or local variables. An evaluation is one grammar's part of a program that was built and run. Non-trivial: at least three productions, free of conflicts in some construction, with words both inside and outside the language; counted by distinct (grammar, words, sort of symbols).",
            assumptions: &[
                "the programs are built with the installed compiler, the profile for development and optimisation level 1",
                "words outside the language are told from those inside by an Earley recogniser",
            ],
            generated,
            ncorpus,
            nfixed: 0,
            fixed_note: "none",
            cut: false,
            start,
        },
        &env,
        &rec,
        failure,
    )
}

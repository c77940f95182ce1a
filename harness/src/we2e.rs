//! Checks which compile the code wop generates and run it.
use crate::run::{self, Facts, Input, Rec, Tier, Verdict, SHARDS};
use crate::sym::{guard, payload};
use crate::tool::{cargo, die};
use crate::wgen::{render, smaller_text, tokens, Decl, Item, Src, Variant, What};
use crate::wref::{self, Sp, Val, XDecl, XItem, XKind, XRule};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::ValueTree;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use wop::builder::Builder;

const NTS: usize = 6;
const TS: usize = 14;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Case {
    pub src: String,
    /// how each sentence is derived
    pub words: Vec<Vec<u8>>,
    /// generated by the command line tool, or by the library
    pub cli: bool,
}
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{} {:?} sentences from {:?}",
            if self.cli { "wop" } else { "Builder" },
            self.src,
            self.words
        )
    }
}
impl Input for Case {
    fn to_json(&self) -> Value {
        json!({"source": self.src, "sentences": self.words, "command_line": self.cli})
    }
    fn from_json(v: &Value) -> Self {
        Self {
            src: v["source"].as_str().expect("source").into(),
            words: v["sentences"]
                .as_array()
                .expect("sentences")
                .iter()
                .map(|w| {
                    w.as_array()
                        .expect("sentence")
                        .iter()
                        .map(|b| b.as_u64().expect("byte") as u8)
                        .collect()
                })
                .collect(),
            cli: v["command_line"].as_bool().unwrap_or(false),
        }
    }
    fn smaller(&self) -> Vec<Self> {
        let mut out = Vec::new();
        if self.words.len() > 1 {
            for w in &self.words {
                out.push(Self {
                    words: vec![w.clone()],
                    ..self.clone()
                });
            }
        }
        if self.cli {
            out.push(Self {
                cli: false,
                ..self.clone()
            });
        }
        let mut seen = BTreeSet::new();
        for s in smaller_text(&self.src) {
            if let Some(src) = recode(&s) {
                if src.len() < self.src.len() && seen.insert(src.clone()) {
                    out.push(Self {
                        src,
                        ..self.clone()
                    });
                }
            }
        }
        for (k, w) in self.words.iter().enumerate() {
            for cut in [0, w.len() / 2, w.len().saturating_sub(1)] {
                if cut < w.len() {
                    let mut c = self.clone();
                    c.words[k].truncate(cut);
                    out.push(c);
                }
            }
        }
        out
    }
}

// ---- sources --------------------------------------------------------------------------------

fn tok(k: usize, how: u8) -> What {
    let k = k % TS;
    match how % 8 {
        0 | 1 | 2 => What::Path(vec![format!("T{k}")]),
        3 => What::Path(vec!["Sym".into(), format!("T{k}")]),
        4 => What::Path(vec!["crate".into(), "Sym".into(), format!("T{k}")]),
        5 | 6 => What::Str(LITS[k % LITS.len()].to_string()),
        _ => What::Path(vec![format!("tok{k}")]),
    }
}
const LITS: &[&str] = &[
    "\"+\"", "\"(\"", "\"\\\"\"", "\"->\"", "\"}%\"", "\"//\"", "\"\"", "\"T1\"", "\"/*\"", "\"é\"", "\"::\"", "\";\"",
    "\"\\\\\"", "\"N1\"",
];
fn non(k: usize, n: usize, how: u8) -> What {
    let k = k % n;
    What::Path(spell(&format!("N{k}"), how))
}
/// A symbol has several names.
fn spell(name: &str, how: u8) -> Vec<String> {
    let p = |s: &[&str]| s.iter().map(|x| (*x).to_string()).collect::<Vec<_>>();
    let k = name.strip_prefix('N').and_then(|k| k.parse::<usize>().ok());
    match (how % 6, k) {
        (0 | 1, _) => p(&[name]),
        (2, _) => p(&["Sym", name]),
        // constants whose names look like those of other symbols
        (3, Some(k)) => p(&["crate", &format!("Sym_N{}", (k + NTS - 1) % NTS)]),
        (4, Some(k)) => p(&["crate", &format!("Sym__N{}", (k + NTS - 2) % NTS)]),
        _ => p(&["crate", "Sym", name]),
    }
}
/// The rule which the last part of a name stands for.
fn rule_no(last: &str) -> Option<usize> {
    let (k, shift) = if let Some(k) = last.strip_prefix("Sym__N") {
        (k, 2)
    } else if let Some(k) = last.strip_prefix("Sym_N") {
        (k, 1)
    } else {
        (last.strip_prefix('N')?, 0)
    };
    let v: usize = k.parse().ok()?;
    (v < NTS && v.to_string() == k).then_some((v + shift) % NTS)
}

fn bind() -> impl Strategy<Value = Option<(bool, String)>> {
    prop::option::weighted(
        0.55,
        (
            any::<bool>(),
            select(vec!["x", "y", "z", "item", "a_1", "op", "_p", "value"]).prop_map(str::to_string),
        ),
    )
}
fn g_item() -> BoxedStrategy<Item> {
    let leaf = (
        prop_oneof![
            4 => (any::<usize>(), any::<u8>()).prop_map(|(k, h)| tok(k, h)),
            1 => (any::<usize>(), any::<u8>()).prop_map(|(k, h)| non(k, NTS, h)),
        ],
        prop::bool::weighted(0.25),
        bind(),
    )
        .prop_map(|(what, opt, bind)| Item { what, opt, bind });
    leaf.prop_recursive(3, 12, 3, |inner| {
        (
            prop::collection::vec(
                prop::collection::vec(inner, 1..4)
                    .prop_map(|items| Variant { items, code: None }),
                1..4,
            ),
            prop::bool::weighted(0.4),
            bind(),
        )
            .prop_map(|(g, opt, bind)| Item {
                what: What::Group(g),
                opt,
                bind,
            })
    })
    .boxed()
}

fn remap(items: &mut [Item], n: usize) {
    for i in items {
        match &mut i.what {
            What::Group(v) => v.iter_mut().for_each(|v| remap(&mut v.items, n)),
            What::Path(p) => {
                let l = p.last().unwrap();
                if let Some(k) = rule_no(l) {
                    let how = match (p.len(), l.as_bytes()[0] == b'S', l.starts_with("Sym__")) {
                        (1, ..) => 0,
                        (_, true, false) => 3,
                        (_, true, true) => 4,
                        (2, ..) => 2,
                        _ => 5,
                    };
                    *p = spell(&format!("N{}", k % n), how);
                }
            }
            What::Str(_) => {}
        }
    }
}

/// Trivia that is also fit to stand inside Rust code (paths are copied with what is in them).
fn rust_layout() -> BoxedStrategy<Vec<String>> {
    let t = select(vec![
        "", " ", " ", "\n", "\t", "\r\n", " /* c */ ", " // c\n", " /* * **/", "// }%\n", " /* -> */ ",
    ])
    .prop_map(str::to_string);
    prop_oneof![
        1 => Just(vec![" ".to_string()]),
        1 => Just(vec![String::new()]),
        2 => prop::collection::vec(t, 1..20),
    ]
    .boxed()
}

pub fn case() -> BoxedStrategy<Case> {
    let rule = (
        prop::collection::vec(prop::collection::vec(g_item(), 1..5), 1..4),
        // begin the alternatives of the rule with terminals of their own
        prop::bool::weighted(0.6),
        any::<u8>(),
    );
    (
        prop::collection::vec(rule, 1..NTS),
        prop::collection::vec((any::<bool>(), any::<u8>(), bind()), 0..3),
        any::<u8>(),
        rust_layout(),
        prop::collection::vec(prop::collection::vec(any::<u8>(), 0..24), 3..8),
        prop::bool::weighted(0.3),
        any::<u8>(),
        prop::option::weighted(0.12, prop::collection::vec((any::<usize>(), any::<u8>(), bind()), 10..30)),
    )
        .prop_map(|(mut rules, entry, style, layout, words, cli, others, long)| {
            // a long alternative
            if let Some(l) = long {
                let items = l.into_iter().enumerate().map(|(i, (k, h, bind))| Item {
                    what: tok(k, h),
                    opt: i > 8 && h == 77,
                    bind,
                });
                rules[0].0[0].extend(items);
            }
            let n = rules.len();
            let p = |s: &[&str]| s.iter().map(|x| (*x).to_string()).collect::<Vec<_>>();
            let mut imports = vec![
                Decl::Import(p(&["crate", "Ast"]), false),
                Decl::Import(p(&["crate", "Sym"]), true),
            ];
            if style % 3 == 0 {
                imports.push(Decl::Import(p(&["crate", "Sym"]), false));
            }
            if others % 2 == 0 {
                let n = others as usize / 2 % (OTHERS.len() + 1);
                imports.extend(OTHERS[..n].iter().map(|o| Decl::Import(p(o), false)));
                let n = imports.len();
                imports.rotate_left(others as usize / 16 % n);
            }
            // all in the beginning, or all in the end
            let (mut d, tail) = if others % 5 == 0 {
                (Vec::new(), imports)
            } else {
                (imports, Vec::new())
            };
            for k in 0..TS {
                d.push(Decl::Alias(Err(LITS[k].to_string()), p(&["Sym", &format!("T{k}")])));
                d.push(Decl::Alias(Ok(format!("tok{k}")), vec![format!("T{k}")]));
            }
            let path = |name: String, how: u8| spell(&name, how);
            let ty = |how: u8| match how % 4 {
                0 | 1 => p(&["Ast"]),
                2 => p(&["crate", "Ast"]),
                _ => p(&["crate", "kind", "Value"]),
            };
            let mut body: Vec<Decl> = Vec::new();
            let mut lead = 0;
            for (k, (alts, leading, how)) in rules.into_iter().enumerate() {
                let alts = alts
                    .into_iter()
                    .map(|mut items| {
                        remap(&mut items, n);
                        if leading {
                            items.insert(
                                0,
                                Item {
                                    what: tok(lead, how),
                                    opt: false,
                                    bind: None,
                                },
                            );
                            lead += 1;
                        }
                        Variant {
                            items,
                            code: Some("->}%".into()),
                        }
                    })
                    .collect();
                body.push(Decl::Rule(path(format!("N{k}"), how), ty(how / 8), alts));
            }
            let mut e = vec![Item {
                what: non(0, n, style),
                opt: false,
                bind: None,
            }];
            for (t, k, b) in entry {
                e.push(Item {
                    what: if t {
                        tok(k as usize, style)
                    } else {
                        non(k as usize, n, style)
                    },
                    opt: false,
                    bind: b,
                });
            }
            let at = style as usize % (body.len() + 1);
            body.insert(
                at,
                Decl::Rule(
                    path("EntryPoint".into(), style / 5),
                    ty(style / 3),
                    vec![Variant {
                        items: e,
                        code: Some("->}%".into()),
                    }],
                ),
            );
            d.extend(body);
            d.extend(tail);
            crate::wgen::tame(&mut d, 24, "T13");
            // only the aliases in use, in most sources
            if style % 4 != 0 {
                let t = tokens(&d);
                let used = |s: &str| t.iter().filter(|x| x.1 == s).count() > 1;
                d.retain(|x| match x {
                    Decl::Alias(Ok(s) | Err(s), _) => used(s),
                    _ => true,
                });
            }
            let src = render(&tokens(&d), &layout).0;
            Case {
                src: recode(&src).unwrap_or(src),
                words,
                cli,
            }
        })
        .boxed()
}

/// The code block describing everything a reductor is given.
fn code_for(rule: usize, alt: usize, items: &[XItem], src: &str) -> Option<String> {
    let mut c = String::new();
    for (n, (opt, slice, clone)) in wref::types(items, src)? {
        let f = match (slice, opt, clone) {
            (false, false, false) => "d_ref",
            (false, false, true) => "d_own",
            (false, true, false) => "d_oref",
            (false, true, true) => "d_oown",
            (true, false, false) => "d_sl",
            (true, false, true) => "d_vec",
            (true, true, false) => "d_osl",
            (true, true, true) => "d_ovec",
        };
        write!(c, "(\"{n}\", crate::{f}({n})), ").unwrap();
    }
    let call = format!("crate::node(\"r{rule}.{alt}\", toks, &[{c}])");
    Some(match (rule + alt) % 3 {
        0 => format!("-> {{ {call} }}%"),
        1 => format!("-> {{\n\t// 100% of {{}} it\n\tlet v = {call};\n\tv\n}}%"),
        _ => format!("->{{{{ let _ = 7 % 4; {call} }}}}%"),
    })
}

/// The same source with the code blocks its names ask for.
fn recode(src: &str) -> Option<String> {
    if !wref::known(src) {
        return None;
    }
    let decls = wref::parse(&wref::lex(src)).ok()?;
    if !wref::supported(&decls, src) {
        return None;
    }
    let mut out = String::new();
    let mut p = 0;
    let mut rule = 0;
    for (d, _) in &decls {
        if let XDecl::Rule(_, _, alts) = d {
            for (k, a) in alts.iter().enumerate() {
                let c = a.code?;
                out.push_str(&src[p..c.0]);
                out.push_str(&code_for(rule, k, &a.items, src)?);
                p = c.1;
            }
            rule += 1;
        }
    }
    out.push_str(&src[p..]);
    Some(out)
}

// ---- oracle ---------------------------------------------------------------------------------

/// A symbol of the generated crate: 0 is the entry, then the rules, the terminals, the end.
fn sym_of(path: &str) -> Option<usize> {
    let p: Vec<&str> = path.split(' ').filter(|x| *x != "::").collect();
    let n = match p[..] {
        ["crate", n] if n.starts_with("Sym_") => return rule_no(n).map(|k| 1 + k),
        [n] | ["Sym", n] | ["crate", "Sym", n] if !n.starts_with("Sym_") => n,
        _ => return None,
    };
    if n == "EntryPoint" {
        return Some(0);
    }
    if let Some(k) = rule_no(n) {
        return Some(1 + k);
    }
    let k = n.strip_prefix('T')?;
    let v: usize = k.parse().ok()?;
    (v < TS && v.to_string() == k).then_some(1 + NTS + v)
}
fn sym_name(s: usize) -> String {
    match s {
        0 => "EntryPoint".into(),
        _ if s <= NTS => format!("N{}", s - 1),
        _ => format!("T{}", s - 1 - NTS),
    }
}

struct XP {
    alt: usize,
    syms: Vec<usize>,
    binds: Vec<wref::Bind>,
}
/// What the source stands for.
struct Meaning {
    /// by symbol: which rule it is, and its productions
    rules: BTreeMap<usize, (usize, Vec<XP>)>,
    best: BTreeMap<usize, usize>,
}

/// Other things to import.
const OTHERS: &[&[&str]] = &[
    &["std", "rc", "Rc"],
    &["core", "cmp", "Ordering"],
    &["std", "collections", "BTreeMap"],
    &["std", "collections", "BTreeSet"],
    &["std", "fmt", "Debug"],
    &["crate", "kind"],
];
/// `None`: outside the domain of the check, with the reason.
fn meaning(c: &Case) -> Result<Meaning, &'static str> {
    let src = c.src.as_str();
    if !wref::known(src) {
        return Err("unknown character");
    }
    let decls = wref::parse(&wref::lex(src)).map_err(|_| "no program")?;
    if !wref::supported(&decls, src) {
        return Err("unsupported source");
    }
    let t = |s: Sp| wref::squeeze(&src[s.0..s.1]);
    let mut imports = BTreeSet::new();
    for (d, _) in &decls {
        if let XDecl::Import(s) = d {
            imports.insert(t(*s));
        }
    }
    if !(imports.contains("crate :: Ast") && imports.contains("crate :: Sym :: *"))
        || imports.iter().any(|i| {
            !["crate :: Ast", "crate :: Sym :: *", "crate :: Sym"].contains(&i.as_str())
                && !OTHERS.iter().any(|o| o.join(" :: ") == *i)
        })
        || imports.len()
            != decls
                .iter()
                .filter(|d| matches!(d.0, XDecl::Import(_)))
                .count()
    {
        return Err("other imports");
    }
    fn names<'a>(items: &[XItem], src: &'a str, out: &mut Vec<&'a str>) {
        for i in items {
            out.extend(i.bind.map(|b| &src[b.0..b.1]));
            if let XKind::Group(v) = &i.kind {
                v.iter().for_each(|v| names(&v.items, src, out));
            }
        }
    }
    let b = wref::build(&decls, src).map_err(|_| "not to be built")?;
    let mut k = 0;
    for (d, _) in &decls {
        if let XDecl::Rule(_, ty, alts) = d {
            if !["Ast", "crate :: Ast", "crate :: kind :: Value"].contains(&t(*ty).as_str()) {
                return Err("other types");
            }
            for (j, a) in alts.iter().enumerate() {
                let mut n = Vec::new();
                names(&a.items, src, &mut n);
                let fine = |n: &&str| {
                    n.starts_with(|c: char| "xyzioa_v".contains(c))
                        && n.len() < 9
                        && !["in", "as", "if", "_", "async", "impl", "abstract", "virtual", "yield", "await"].contains(n)
                };
                if !n.iter().all(fine) {
                    return Err("other names");
                }
                let c = a.code.expect("built");
                if code_for(k, j, &a.items, src).as_deref() != Some(&src[c.0..c.1]) {
                    return Err("other code blocks");
                }
            }
            k += 1;
        }
    }
    let mut rules: BTreeMap<usize, (usize, Vec<XP>)> = BTreeMap::new();
    for (k, XRule { name, alts, .. }) in b.rules.iter().enumerate() {
        let id = sym_of(&t(*name)).ok_or("unknown rule")?;
        if id > NTS {
            return Err("a rule of a terminal");
        }
        let mut ps = Vec::new();
        for (j, a) in alts.iter().enumerate() {
            for p in &a.prods {
                ps.push(XP {
                    alt: j,
                    syms: p
                        .syms
                        .iter()
                        .map(|s| sym_of(&t(*s)))
                        .collect::<Option<_>>()
                        .ok_or("unknown symbol")?,
                    binds: p.binds.clone(),
                });
            }
        }
        if rules.insert(id, (k, ps)).is_some() {
            return Err("two rules of one symbol");
        }
    }
    if rules.get(&0).map_or(true, |r| r.1.len() != 1) {
        return Err("no entry of one production");
    }
    for s in rules.values().flat_map(|r| &r.1).flat_map(|p| &p.syms) {
        if *s == 0 || (*s <= NTS && !rules.contains_key(s)) {
            return Err("a rule that does not exist");
        }
    }
    // lowest derivations
    let mut h: BTreeMap<usize, usize> = BTreeMap::new();
    let mut best = BTreeMap::new();
    loop {
        let mut ch = false;
        for (s, (_, ps)) in &rules {
            for (i, p) in ps.iter().enumerate() {
                let v = p
                    .syms
                    .iter()
                    .map(|x| {
                        if *x <= NTS {
                            h.get(x).copied()
                        } else {
                            Some(0)
                        }
                    })
                    .max_by_key(|x| x.map_or(usize::MAX, |x| x))
                    .flatten();
                let all = p.syms.iter().all(|x| *x > NTS || h.contains_key(x));
                if let (Some(v), true) = (v, all) {
                    if h.get(s).map_or(true, |o| v + 1 < *o) {
                        h.insert(*s, v + 1);
                        best.insert(*s, i);
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    if !rules.keys().all(|k| h.contains_key(k)) {
        return Err("an unproductive rule");
    }
    // conflict-free, so that a sentence has one derivation
    let g = lrp::Grammar::new(
        0usize,
        rules
            .iter()
            .map(|(s, (_, ps))| {
                (
                    *s,
                    lrp::grammar::Rule::new(*s, ps.iter().map(|p| p.syms.clone()).collect::<Vec<_>>()),
                )
            })
            .collect(),
        1 + NTS + TS,
    );
    let free = guard(u64::MAX, || {
        use lrp::Parser;
        lrp::Lalr::new(g)
            .tables()
            .actions
            .iter()
            .all(|r| r.values().all(|a| !matches!(a, lrp::Action::Conflict(..))))
    });
    match free {
        Ok(true) => {}
        Ok(false) => return Err("conflicts"),
        Err(_) => return Err("no tables"),
    }
    Ok(Meaning { rules, best })
}

struct Node {
    sym: usize,
    text: String,
    span: Sp,
}

impl Meaning {
    fn derive(&self, sym: usize, c: &mut std::slice::Iter<u8>, out: &mut Vec<usize>, depth: usize) -> Node {
        if sym > NTS {
            let i = out.len();
            out.push(sym);
            let span = (3 * i, 3 * i + 2);
            return Node {
                sym,
                text: format!("{}@{}..{}", sym_name(sym), span.0, span.1),
                span,
            };
        }
        let (rule, ps) = &self.rules[&sym];
        let k = if out.len() > 60 || depth > 40 {
            self.best[&sym]
        } else {
            c.next().map_or(self.best[&sym], |b| *b as usize % ps.len())
        };
        let p = &ps[k];
        let kids: Vec<Node> = p
            .syms
            .iter()
            .map(|s| self.derive(*s, c, out, depth + 1))
            .collect();
        let at = |n: &Node| format!("{}@{}..{}", sym_name(n.sym), n.span.0, n.span.1);
        let mut text = format!("{}:r{rule}.{}(", sym_name(sym), p.alt);
        for n in &kids {
            text.push_str(&n.text);
            text.push(' ');
        }
        text.push_str("){");
        let mut binds: Vec<_> = p.binds.iter().collect();
        binds.sort_by(|a, b| a.name.cmp(&b.name));
        for b in binds {
            let v = match b.val {
                Val::Absent => "none".to_string(),
                Val::Item(i) => at(&kids[i]),
                Val::Slice(i, j) => {
                    let v: Vec<_> = kids[i..j].iter().map(at).collect();
                    format!("[{}]", v.join(" "))
                }
            };
            let v = if b.opt && b.val != Val::Absent {
                format!("some {v}")
            } else {
                v
            };
            write!(text, "{}={v};", b.name).unwrap();
        }
        text.push('}');
        Node {
            sym,
            text,
            span: (kids[0].span.0, kids.last().unwrap().span.1),
        }
    }
    /// A sentence, and what parsing it must leave.
    fn sentence(&self, choices: &[u8]) -> (Vec<usize>, String) {
        let mut c = choices.iter();
        let mut w = Vec::new();
        let p = &self.rules[&0].1[0];
        let v: Vec<String> = p
            .syms
            .iter()
            .map(|s| self.derive(*s, &mut c, &mut w, 0).text)
            .collect();
        (w, v.join(" "))
    }
}

// ---- the generated crate --------------------------------------------------------------------

const RUNTIME: &str = r#"
use lrp::{Grammar, Parser, ReductMap, Span, Token};
pub use lrp::Meta;
pub type Gramem = Token<Meta<Ast>, Sym>;
#[derive(Debug, Clone)]
pub enum Ast { Tok(Sym), Node(String) }
fn at(t: &Gramem) -> String { format!("{:?}@{}..{}", t.ty, t.item.span.start, t.item.span.end) }
fn full(t: &Gramem) -> String { match &t.item.item { Ast::Tok(s) => { assert_eq!(*s, t.ty); at(t) } Ast::Node(n) => format!("{:?}:{n}", t.ty) } }
fn many(v: &[Gramem]) -> String { format!("[{}]", v.iter().map(at).collect::<Vec<_>>().join(" ")) }
fn opt<T>(o: Option<T>, f: impl Fn(T) -> String) -> String { o.map_or("none".to_string(), |t| format!("some {}", f(t))) }
pub fn d_ref(t: &Gramem) -> String { at(t) }
pub fn d_own(t: Gramem) -> String { at(&t) }
pub fn d_oref(t: Option<&Gramem>) -> String { opt(t, at) }
pub fn d_oown(t: Option<Gramem>) -> String { opt(t, |t| at(&t)) }
pub fn d_sl(t: &[Gramem]) -> String { many(t) }
pub fn d_vec(t: Vec<Gramem>) -> String { many(&t) }
pub fn d_osl(t: Option<&[Gramem]>) -> String { opt(t, many) }
pub fn d_ovec(t: Option<Vec<Gramem>>) -> String { opt(t, |t| many(&t)) }
pub fn node(label: &str, toks: &[Gramem], binds: &[(&str, String)]) -> Ast {
    let mut s = format!("{label}(");
    for t in toks { s.push_str(&full(t)); s.push(' '); }
    s.push_str("){");
    for (n, b) in binds { s.push_str(&format!("{n}={b};")); }
    s.push('}');
    Ast::Node(s)
}
type Made = (Grammar<Sym>, ReductMap<Meta<Ast>, Sym>);
fn main() {
    let input = std::fs::read_to_string(std::env::args().nth(1).expect("input")).expect("input");
    std::panic::set_hook(Box::new(|_| ()));
    for line in input.lines() {
        let mut f = line.split_whitespace();
        let id: usize = f.next().unwrap().parse().unwrap();
        let k: usize = f.next().unwrap().parse().unwrap();
        let syms: Vec<usize> = f.map(|x| x.parse().unwrap()).collect();
        let res = std::panic::catch_unwind(|| {
            let (g, r) = make(id);
            let p = lrp::Lalr::new(g);
            let toks = syms.iter().enumerate().map(|(i, s)| Token::new(Meta::new(Ast::Tok(SYMS[*s]), Span::new(3 * i, 3 * i + 2)), SYMS[*s])).collect::<Vec<_>>();
            let mut dfa = p.dfa(toks.into_iter(), r);
            match dfa.start() {
                Ok(()) => format!("ok {}", dfa.items.iter().map(full).collect::<Vec<_>>().join(" ")),
                Err(e) => format!("error {e:?}"),
            }
        }).unwrap_or_else(|e| format!("panic {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()));
        println!("{id} {k} {}", res.replace('\n', " "));
    }
}
"#;

fn runtime(order: usize, mods: usize) -> String {
    let all = 2 + NTS + TS;
    let name = |s: usize| {
        if s == all - 1 {
            "Eof".to_string()
        } else {
            sym_name(s)
        }
    };
    // the order of the variants is the order of the symbols
    let mut v: Vec<String> = (0..all).map(name).collect();
    v.rotate_left(order * 7 % all);
    if order % 2 == 1 {
        v.reverse();
    }
    let syms: Vec<String> = (0..all).map(|s| format!("Sym::{}", name(s))).collect();
    let mut o = String::from("#![allow(warnings)]\n");
    for m in 0..mods {
        writeln!(o, "mod m{m};").unwrap();
    }
    writeln!(
        o,
        "#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub enum Sym {{ {} }}\nconst SYMS: [Sym; {all}] = [{}];",
        v.join(", "),
        syms.join(", ")
    )
    .unwrap();
    for k in 0..NTS {
        writeln!(
            o,
            "pub const Sym_N{k}: Sym = Sym::N{};\npub const Sym__N{k}: Sym = Sym::N{};",
            (k + 1) % NTS,
            (k + 2) % NTS
        )
        .unwrap();
    }
    o.push_str("pub mod kind { pub type Value = super::Ast; }\n");
    o.push_str("fn make(id: usize) -> Made { match id {\n");
    for m in 0..mods {
        writeln!(o, "{m} => (m{m}::grammar(), m{m}::reduct_map()),").unwrap();
    }
    o.push_str("_ => panic!(\"no such grammar\") } }\n");
    o.push_str(RUNTIME);
    o
}

struct Tools {
    root: PathBuf,
    work: PathBuf,
    wop: PathBuf,
}

impl Tools {
    fn new(root: &Path, id: &str) -> Self {
        let work = root.join("build").join("gen").join(id);
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(&work).unwrap_or_else(|e| die(&format!("{}: {e}", work.display())));
        // the tool's main file as it is, in a crate of its own: building it inside /repo's workspace
        // would rewrite /repo's lock file
        let target = root.join("build").join("wopcli");
        let dir = work.join("wopcli");
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{e}")));
        std::fs::write(
            dir.join("Cargo.toml"),
            "[package]\nname = \"wopcli\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nlrp = \"0.1.0\"\nlogos = \"0.12.1\"\nwop = { path = \"/repo/wop\" }\n[[bin]]\nname = \"wop\"\npath = \"/repo/wop/src/main.rs\"\n[profile.dev]\ndebug = false\nincremental = false\nopt-level = 1\n",
        )
        .unwrap_or_else(|e| die(&format!("{e}")));
        let _ = std::fs::copy(root.join("harness/Cargo.lock"), dir.join("Cargo.lock"));
        if let Err(e) = cargo(&dir, &dir.join("Cargo.toml"), &target, &[]) {
            die(&format!("the wop tool does not build: {e}"));
        }
        Self {
            root: root.to_path_buf(),
            work,
            wop: target.join("debug/wop"),
        }
    }

    /// The module generated for a source.
    fn module(&self, c: &Case, slot: &str) -> Result<String, String> {
        if c.cli {
            return self.by_tool(&c.src, slot);
        }
        by_library(&c.src)
    }

    fn by_tool(&self, src: &str, slot: &str) -> Result<String, String> {
        let dir = self.work.join("cli").join(slot);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{}: {e}", dir.display())));
        std::fs::write(dir.join("in.grammar"), src).unwrap_or_else(|e| die(&format!("{e}")));
        let o = Command::new(&self.wop)
            .arg("in.grammar")
            .current_dir(&dir)
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| die(&format!("the wop tool: {e}")));
        if !o.status.success() {
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            let end: Vec<&str> = err.lines().rev().take(3).collect();
            return Err(format!("wop ended with {} on a correct program: {end:?}", o.status));
        }
        let out = std::fs::read_to_string(dir.join("out.rs"))
            .map_err(|e| format!("wop wrote no out.rs: {e}"));
        let _ = std::fs::remove_dir_all(&dir);
        out
    }

    fn write_crate(&self, name: &str, bins: &[(usize, Vec<String>)]) -> PathBuf {
        let dir = self.work.join(name);
        let _ = std::fs::remove_dir_all(&dir);
        let put = |p: PathBuf, t: &str| {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap_or_else(|e| die(&format!("{e}")));
            std::fs::write(&p, t).unwrap_or_else(|e| die(&format!("{}: {e}", p.display())));
        };
        put(
            dir.join("Cargo.toml"),
            "[package]\nname = \"generated\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nlrp = { path = \"/repo\" }\n[profile.dev]\ndebug = false\nincremental = false\n",
        );
        for (b, mods) in bins {
            let d = dir.join("src/bin").join(format!("b{b}"));
            put(d.join("main.rs"), &runtime(*b, mods.len()));
            for (m, t) in mods.iter().enumerate() {
                put(d.join(format!("m{m}.rs")), t);
            }
        }
        let _ = std::fs::copy(self.root.join("harness/Cargo.lock"), dir.join("Cargo.lock"));
        dir
    }

    fn target(&self) -> PathBuf {
        self.root.join("build").join("gen").join("target")
    }

    fn compile(&self, dir: &Path, extra: &[&str]) -> Result<(), String> {
        cargo(dir, &dir.join("Cargo.toml"), &self.target(), extra)
    }

    /// Exits when even a program without generated code does not compile.
    fn control(&self) {
        let dir = self.write_crate("control", &[(0, vec![])]);
        if let Err(e) = self.compile(&dir, &[]) {
            die(&format!("the program around the generated code does not compile: {e}"));
        }
    }

    /// Runs a compiled program on (module, sentence) pairs.
    fn run(&self, bin: usize, lines: &[(usize, usize, Vec<usize>)]) -> HashMap<(usize, usize), String> {
        let f = self.work.join(format!("in{bin}.txt"));
        let mut t = String::new();
        for (m, k, w) in lines {
            write!(t, "{m} {k}").unwrap();
            for s in w {
                write!(t, " {s}").unwrap();
            }
            t.push('\n');
        }
        std::fs::write(&f, t).unwrap_or_else(|e| die(&format!("{e}")));
        let o = Command::new("prlimit")
            // a program that does not end is stopped by its CPU time, over a hundred times what it needs
            .args(["--cpu=120", "--as=8000000000"])
            .arg(self.target().join("debug").join(format!("b{bin}")))
            .arg(&f)
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| die(&format!("the generated program: {e}")));
        let mut out = HashMap::new();
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let mut p = l.splitn(3, ' ');
            if let (Some(m), Some(k), Some(r)) = (p.next(), p.next(), p.next()) {
                if let (Ok(m), Ok(k)) = (m.parse(), k.parse()) {
                    out.insert((m, k), r.to_string());
                }
            }
        }
        if !o.status.success() {
            // the first pair without an answer is the one that did not end
            if let Some((m, k, _)) = lines.iter().find(|(m, k, _)| !out.contains_key(&(*m, *k))) {
                out.insert((*m, *k), format!("stopped: {}", o.status));
            }
        }
        out
    }

    /// One case on its own.
    fn one(&self, c: &Case) -> Verdict {
        let Ok(m) = meaning(c) else { return Ok(()) };
        let text = self.module(c, "one")?;
        let dir = self.write_crate("one", &[(9, vec![text])]);
        if let Err(e) = self.compile(&dir, &[]) {
            self.control();
            return Err(compile_message(&e));
        }
        let lines: Vec<_> = c
            .words
            .iter()
            .enumerate()
            .map(|(k, w)| (0, k, m.sentence(w).0))
            .collect();
        let out = self.run(9, &lines);
        judge(&m, c, 0, &out)
    }
}

fn by_library(src: &str) -> Result<String, String> {
    let r = guard(u64::MAX, || {
        let mut dfa = wop::build_parser(wop::lexer(src));
        dfa.start().map_err(|e| format!("a correct program was rejected: {e}"))?;
        let mut b = Builder::new("Gramem".to_string());
        b.process(&dfa.items[0], src);
        Ok::<_, String>((b.dump_grammar(src), b.dump_reductor(src)))
    })
    .map_err(|c| format!("generating code {c}"))?;
    let (g, r) = r?;
    Ok(format!(
        "use crate::{{Ast, Gramem, Meta, Sym}};\nuse lrp::{{Grammar, ReductMap, Span}};\npub fn grammar() -> Grammar<Sym> {{ Grammar::new(Sym::EntryPoint, {g}, Sym::Eof) }}\npub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {r}\n"
    ))
}

fn compile_message(e: &str) -> String {
    let mut m = String::from("the generated code does not compile:");
    let err = |l: &&str| l.starts_with("error");
    let l: Vec<&str> = e.lines().filter(|l| !l.trim().is_empty()).collect();
    let from = l.iter().position(err).unwrap_or(0);
    for l in l[from..].iter().take(12) {
        m.push_str("\n    ");
        m.push_str(&l.chars().take(200).collect::<String>());
    }
    m
}

fn judge(m: &Meaning, c: &Case, id: usize, out: &HashMap<(usize, usize), String>) -> Verdict {
    for (k, ch) in c.words.iter().enumerate() {
        let (w, want) = m.sentence(ch);
        let want = format!("ok {want}");
        let got = out.get(&(id, k)).map_or("no answer", String::as_str);
        if got != want {
            let w: Vec<String> = w.iter().map(|s| sym_name(*s)).collect();
            return Err(format!(
                "the sentence {} gives\n    {got}\ninstead of\n    {want}",
                w.join(" ")
            ));
        }
    }
    Ok(())
}

const RULE7: &str = "grammars with a group, an optional item or a name, whose code was compiled and run on every sentence; the compiled program's output was compared with the derivation the sentence was made from";
const ASSUME7: &[&str] = &[
    "grammars are free of LALR(1) conflicts, so that a sentence has one derivation (others are generated and left out)",
    "comments inside the paths of a source are comments in Rust as well",
    "names are lower-case Rust identifiers other than toks",
];

pub fn w07_replay(v: &Value) -> i32 {
    let c = Case::from_json(&v["input"]);
    println!("W07: replaying {c:?}");
    match Tools::new(&run::env().root, "W07").one(&c) {
        Ok(()) => {
            println!("W07: held");
            0
        }
        Err(m) => {
            println!("W07: {m}");
            1
        }
    }
}

fn shrink(tools: &Tools, mut c: Case, mut msg: String, budget: Duration) -> (Case, String) {
    let t = Instant::now();
    'again: loop {
        for s in c.smaller() {
            if t.elapsed() > budget {
                return (c, msg);
            }
            if meaning(&s).is_err() {
                continue;
            }
            if let Err(m) = tools.one(&s) {
                c = s;
                msg = m;
                continue 'again;
            }
        }
        return (c, msg);
    }
}

pub fn w07_check() -> i32 {
    let env = run::env();
    let start = Instant::now();
    let quick = env.tier == Tier::Quick;
    let per_bin = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|v| v.parse::<usize>().ok())
        .map_or(if quick { 60 } else { 120 }, |n| n.div_ceil(SHARDS as usize));
    let rounds = if quick { 1 } else { 25 };
    let tools = Tools::new(&env.root, "W07");
    tools.control();
    let mut rec = Rec::default();
    let mut generated = 0;
    let corpus: Vec<Case> = run::corpus(&env.root, "W07");
    let ncorpus = corpus.len();
    let mut failure: Option<(Case, String)> = None;
    let mut corpus = Some(corpus);
    let mut cut = false;
    for round in 0..rounds {
        if failure.is_some() {
            break;
        }
        if start.elapsed() > Duration::from_secs(3000) {
            cut = true;
            break;
        }
        // generate, shard by shard
        let parts: Vec<(Vec<(Case, Meaning)>, u64, BTreeMap<&'static str, u64>)> =
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..SHARDS)
                    .map(|sh| {
                        let seed = env.seed;
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sc, move || {
                                let mut r = run::runner(seed, "W07", sh + SHARDS * round);
                                let st = case();
                                let mut out = Vec::new();
                                let mut n = 0;
                                let mut why = BTreeMap::new();
                                while out.len() < per_bin && n < 400 * per_bin as u64 {
                                    n += 1;
                                    let c = st
                                        .new_tree(&mut r)
                                        .unwrap_or_else(|e| die(&format!("generator: {e}")))
                                        .current();
                                    match meaning(&c) {
                                        Ok(m) => out.push((c, m)),
                                        Err(w) => *why.entry(w).or_default() += 1,
                                    }
                                }
                                (out, n, why)
                            })
                            .expect("thread")
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| {
                        h.join()
                            .unwrap_or_else(|e| die(&format!("generator: {}", payload(&*e))))
                    })
                    .collect()
            });
        let mut bins: Vec<Vec<(Case, Meaning)>> = Vec::new();
        for (v, n, why) in parts {
            generated += n;
            for (w, k) in why {
                *rec.labels.entry(format!("left out: {w}")).or_default() += k;
            }
            bins.push(v);
        }
        for (k, c) in corpus.take().unwrap_or_default().into_iter().enumerate() {
            match meaning(&c) {
                Ok(m) => bins[k % SHARDS as usize].push((c, m)),
                Err(w) => die(&format!("a kept case is outside the domain: {w}")),
            }
        }
        // the code
        let texts: Vec<Result<Vec<String>, (usize, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = bins
                .iter()
                .enumerate()
                .map(|(b, v)| {
                    let tools = &tools;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            v.iter()
                                .enumerate()
                                .map(|(k, (c, _))| {
                                    run::note(&c.to_json());
                                    tools.module(c, &format!("b{b}")).map_err(|m| (k, m))
                                })
                                .collect()
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter()
                .map(|h| {
                    h.join()
                        .unwrap_or_else(|e| die(&format!("generating: {}", payload(&*e))))
                })
                .collect()
        });
        let mut mods = Vec::new();
        for (b, t) in texts.into_iter().enumerate() {
            match t {
                Ok(t) => mods.push((b, t)),
                Err((k, m)) => {
                    failure = Some((bins[b][k].0.clone(), m));
                    break;
                }
            }
        }
        if failure.is_none() {
            let dir = tools.write_crate("batch", &mods);
            if let Err(e) = tools.compile(&dir, &["--keep-going"]) {
                tools.control();
                // which modules the compiler complains of
                let mut blamed: Vec<(usize, usize)> = Vec::new();
                for l in e.lines() {
                    if let Some(p) = l.split("src/bin/b").nth(1) {
                        let mut f = p.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty());
                        if let (Some(b), Some(m), true) = (f.next(), f.next(), p.contains("/m")) {
                            let at = (b.parse().unwrap_or(0), m.parse().unwrap_or(0));
                            if !blamed.contains(&at) {
                                blamed.push(at);
                            }
                        }
                    }
                }
                // the shortest source first
                blamed.retain(|(b, m)| bins.get(*b).map_or(false, |v| *m < v.len()));
                blamed.sort_by_key(|(b, m)| bins[*b][*m].0.src.len());
                for (b, m) in blamed.into_iter().take(5) {
                    if let Err(msg) = tools.one(&bins[b][m].0) {
                        failure = Some((bins[b][m].0.clone(), msg));
                        break;
                    }
                }
                if failure.is_none() {
                    die(&format!("the generated programs do not compile together: {e}"));
                }
            }
        }
        if failure.is_none() {
            let mut fails: Vec<(Case, String)> = Vec::new();
            let outs: Vec<HashMap<(usize, usize), String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = bins
                    .iter()
                    .enumerate()
                    .map(|(b, v)| {
                        let tools = &tools;
                        sc.spawn(move || {
                            let mut lines = Vec::new();
                            for (id, (c, m)) in v.iter().enumerate() {
                                for (k, w) in c.words.iter().enumerate() {
                                    lines.push((id, k, m.sentence(w).0));
                                }
                            }
                            tools.run(b, &lines)
                        })
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| h.join().unwrap_or_else(|_| die("running")))
                    .collect()
            });
            for (v, out) in bins.iter().zip(&outs) {
                for (id, (c, m)) in v.iter().enumerate() {
                    rec.evals += c.words.len() as u64;
                    rec.label(if c.cli {
                        "grammars through the command line tool"
                    } else {
                        "grammars through the library"
                    });
                    let ps: Vec<&XP> = m.rules.values().flat_map(|r| &r.1).collect();
                    if ps.iter().any(|p| p.binds.iter().any(|b| b.val == Val::Absent)) {
                        rec.label("grammars with absent names");
                    }
                    if ps.iter().any(|p| p.binds.iter().any(|b| b.slice)) {
                        rec.label("grammars with names of groups");
                    }
                    if ps.iter().any(|p| p.binds.iter().any(|b| b.clone)) {
                        rec.label("grammars with cloning names");
                    }
                    if ps.iter().any(|p| !p.binds.is_empty())
                        || c.src.contains('(')
                        || c.src.contains('?')
                    {
                        let n = c.src.chars().count();
                        rec.nontrivial(&c.src, || c.src.chars().skip(n.saturating_sub(400)).collect());
                    }
                    if let Err(m) = judge(m, c, id, out) {
                        fails.push((c.clone(), m));
                    }
                }
            }
            // the shortest failing source
            fails.sort_by_key(|f| f.0.src.len());
            failure = fails.into_iter().next();
        }
    }
    if let Some((c, m)) = failure {
        failure = Some(shrink(&tools, c, m, Duration::from_secs(90)));
    }
    let code = run::finish(
        &Facts {
            id: "W07",
            rule: RULE7,
            assumptions: ASSUME7,
            generated,
            ncorpus,
            nfixed: 0,
            fixed_note: "none",
            cut,
            start,
        },
        &env,
        &rec,
        failure,
    );
    let _ = std::fs::remove_dir_all(&tools.work);
    code
}

// ---- W08 ------------------------------------------------------------------------------------

const SELF_MAIN: &str = r#"#![allow(warnings)]
pub use wop::{Ast, Gramem, Sym};
pub use lrp::{Meta, Parser};
mod out;
mod by_lib;
fn main() {
    let input = std::fs::read(std::env::args().nth(1).expect("input")).expect("input");
    std::panic::set_hook(Box::new(|_| ()));
    let mut p = 0;
    let mut k = 0;
    let again = lrp::Slr::new(out::grammar());
    let again_lib = lrp::Slr::new(by_lib::grammar());
    while p < input.len() {
        let e = p + input[p..].iter().position(|b| *b == b'\n').unwrap();
        let n: usize = std::str::from_utf8(&input[p..e]).unwrap().parse().unwrap();
        let src = std::str::from_utf8(&input[e + 1..e + 1 + n]).unwrap();
        p = e + 1 + n;
        let a = std::panic::catch_unwind(|| {
            let mut d = wop::build_parser(wop::lexer(src));
            let r = d.start();
            format!("{r:?} {:?} {:?}", d.items, d.buffer.peek())
        });
        for (how, again, map) in [("the tool", &again, out::reduct_map()), ("the library", &again_lib, by_lib::reduct_map())] {
            let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut d = again.dfa(wop::lexer(src), map);
                let r = d.start();
                format!("{r:?} {:?} {:?}", d.items, d.buffer.peek())
            }));
            let ok = match (&a, &b) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false };
            if !ok {
                let show = |r: &std::thread::Result<String>| r.as_ref().map_or("panic".to_string(), |s| s.chars().take(1500).collect());
                println!("{k} differs: shipped {} regenerated by {how} {}", show(&a), show(&b));
            }
        }
        k += 1;
    }
    println!("done {k}");
}
"#;

struct SelfHost {
    tools: Tools,
    bin: PathBuf,
}

impl SelfHost {
    /// The first source on which the shipped and the regenerated parser differ.
    fn differs(&self, srcs: &[&str], slot: usize) -> Option<(usize, String)> {
        let f = self.tools.work.join(format!("self{slot}.txt"));
        let mut t = Vec::new();
        for s in srcs {
            t.extend(format!("{}\n", s.len()).into_bytes());
            t.extend(s.as_bytes());
        }
        std::fs::write(&f, t).unwrap_or_else(|e| die(&format!("{e}")));
        let o = Command::new("prlimit")
            .args(["--cpu=600", "--as=8000000000"])
            .arg(&self.bin)
            .arg(&f)
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| die(&format!("the regenerated program: {e}")));
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let mut bad = None;
        for l in out.lines() {
            if let Some((k, m)) = l.split_once(" differs: ") {
                let k: usize = k.parse().unwrap_or(0);
                // the shortest source
                if bad.as_ref().map_or(true, |(b, _): &(usize, String)| srcs[k].len() < srcs[*b].len()) {
                    bad = Some((k, m.to_string()));
                }
            }
        }
        if bad.is_none() && !out.ends_with(&format!("done {}\n", srcs.len())) {
            die(&format!("the regenerated program ended with {}", o.status));
        }
        bad
    }
}

fn self_host(tools: Tools) -> Result<SelfHost, String> {
    let g = std::fs::read_to_string("/repo/wop/src/wop.grammar")
        .unwrap_or_else(|e| die(&format!("wop.grammar: {e}")));
    let text = tools.by_tool(&g, "self")?;
    let lib = by_library(&g)?;
    let dir = tools.work.join("self");
    let put = |p: PathBuf, t: &str| {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap_or_else(|e| die(&format!("{e}")));
        std::fs::write(&p, t).unwrap_or_else(|e| die(&format!("{e}")));
    };
    put(
        dir.join("Cargo.toml"),
        "[package]\nname = \"selfhost\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nlrp = \"0.1.0\"\nwop = { path = \"/repo/wop\" }\n[profile.dev]\ndebug = false\nincremental = false\nopt-level = 2\n",
    );
    let _ = std::fs::copy(tools.root.join("harness/Cargo.lock"), dir.join("Cargo.lock"));
    put(dir.join("src/main.rs"), SELF_MAIN);
    put(dir.join("src/out.rs"), &text);
    put(dir.join("src/by_lib.rs"), &lib);
    if let Err(e) = tools.compile(&dir, &[]) {
        // the same program around the shipped module
        let shipped = std::fs::read_to_string("/repo/wop/src/out.rs")
            .unwrap_or_else(|e| die(&format!("out.rs: {e}")));
        put(dir.join("src/out.rs"), &shipped);
        put(dir.join("src/by_lib.rs"), &shipped);
        if let Err(e) = tools.compile(&dir, &[]) {
            die(&format!("the program around the regenerated parser does not compile: {e}"));
        }
        return Err(format!("code generated from wop.grammar: {}", compile_message(&e)));
    }
    let bin = tools.target().join("debug/selfhost");
    Ok(SelfHost { tools, bin })
}

fn self_src() -> BoxedStrategy<Src> {
    prop_oneof![
        4 => crate::wgen::any_src(),
        3 => crate::wgen::token_src(),
        2 => crate::wgen::text_src(),
    ]
    .boxed()
}

const RULE8: &str = "sources of at least eight tokens which both parsers accept or reject after a first token";
const ASSUME8: &[&str] = &["both parsers use the same lexer (decided by W01) and the published lrp 0.1.0 which wop is built on"];

pub fn w08_replay(v: &Value) -> i32 {
    let s = Src::from_json(&v["input"]);
    println!("W08: replaying {s:?}");
    let r = self_host(Tools::new(&run::env().root, "W08")).and_then(|h| match h.differs(&[&s.0], 0) {
        Some((_, m)) => Err(m),
        None => Ok(()),
    });
    match r {
        Ok(()) => {
            println!("W08: held");
            0
        }
        Err(m) => {
            println!("W08: {m}");
            1
        }
    }
}

pub fn w08_check() -> i32 {
    let env = run::env();
    let start = Instant::now();
    let n: u64 = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if env.tier == Tier::Quick { 12_000 } else { 300_000 });
    let mut rec = Rec::default();
    let corpus: Vec<Src> = run::corpus(&env.root, "W08");
    let ncorpus = corpus.len();
    let tools = Tools::new(&env.root, "W08");
    let work = tools.work.clone();
    let mut failure = None;
    let mut generated = 0;
    match self_host(tools) {
        Err(m) => {
            let g = std::fs::read_to_string("/repo/wop/src/wop.grammar").unwrap_or_default();
            failure = Some((Src(g), m));
        }
        Ok(h) => {
            rec.label("wop.grammar regenerated");
            let grammar = std::fs::read_to_string("/repo/wop/src/wop.grammar").unwrap_or_default();
            let mut found: Vec<(Src, String)> = Vec::new();
            let parts: Vec<(Vec<Src>, Option<(usize, String)>)> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..SHARDS)
                    .map(|sh| {
                        let (h, corpus, grammar, seed) = (&h, &corpus, &grammar, env.seed);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sc, move || {
                                let mut r = run::runner(seed, "W08", sh);
                                let st = self_src();
                                let mut v = Vec::new();
                                if sh == 0 {
                                    v.push(Src(grammar.clone()));
                                    v.extend(corpus.iter().cloned());
                                }
                                for _ in 0..n / SHARDS {
                                    v.push(
                                        st.new_tree(&mut r)
                                            .unwrap_or_else(|e| die(&format!("generator: {e}")))
                                            .current(),
                                    );
                                }
                                let t: Vec<&str> = v.iter().map(|s| s.0.as_str()).collect();
                                let d = h.differs(&t, sh as usize);
                                (v, d)
                            })
                            .expect("thread")
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| h.join().unwrap_or_else(|e| die(&payload(&*e))))
                    .collect()
            });
            for (v, d) in parts {
                generated += v.len() as u64;
                for s in &v {
                    rec.eval();
                    let t = wref::lex(&s.0);
                    let p = wref::parse(&t);
                    rec.label(if p.is_ok() { "accepted" } else { "rejected" });
                    if t.len() >= 8 && p.err().map_or(true, |k| k > 0) {
                        rec.nontrivial(s, || s.0.chars().take(160).collect());
                    }
                }
                if let Some((k, m)) = d {
                    found.push((v[k].clone(), m));
                }
            }
            found.sort_by_key(|f| f.0 .0.len());
            if let Some((mut s, mut m)) = found.into_iter().next() {
                // all simpler texts at once
                for _ in 0..40 {
                    let c = s.smaller();
                    let t: Vec<&str> = c
                        .iter()
                        .map(|x| x.0.as_str())
                        .filter(|x| x.len() < s.0.len())
                        .collect();
                    match h.differs(&t, 99) {
                        Some((k, m2)) => {
                            s = Src(t[k].to_string());
                            m = m2;
                        }
                        None => break,
                    }
                }
                failure = Some((s, m));
            }
        }
    }
    let code = run::finish(
        &Facts {
            id: "W08",
            rule: RULE8,
            assumptions: ASSUME8,
            generated,
            ncorpus,
            nfixed: 1,
            fixed_note: "wop's own grammar, regenerated, compiled and parsed",
            cut: false,
            start,
        },
        &env,
        &rec,
        failure,
    );
    let _ = std::fs::remove_dir_all(&work);
    code
}

// ---- W09 ------------------------------------------------------------------------------------

fn tool_src() -> BoxedStrategy<Src> {
    prop_oneof![
        3 => crate::wgen::good_src(),
        3 => crate::wopc::faulty_src(),
        2 => crate::wgen::token_src(),
        1 => crate::wgen::any_src(),
        2 => crate::wgen::text_src(),
    ]
    .boxed()
}

/// The words of generated code, as a multiset: rules come out of a hash map in any order.
fn code_words(t: &str) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for w in t.split_whitespace() {
        *m.entry(w.to_string()).or_insert(0) += 1;
    }
    m
}

/// Runs the command-line tool on in.grammar.
fn tool(tools: &Tools, dir: &Path, heard: bool) -> std::process::Output {
    Command::new("prlimit")
        .args(["--cpu=60", "--as=8000000000", "--core=0"])
        .arg(&tools.wop)
        .arg("in.grammar")
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(if heard { Stdio::piped() } else { Stdio::null() })
        .stderr(Stdio::piped())
        .output()
        .unwrap_or_else(|e| die(&format!("the wop tool: {e}")))
}

/// `None`: not specified.
fn tool_run(tools: &Tools, s: &Src, slot: &str, r: &mut Rec) -> Verdict {
    let src = s.0.as_str();
    if !wref::known(src) {
        r.label("character outside the reference's classes (skipped)");
        return Ok(());
    }
    let parsed = wref::parse(&wref::lex(src));
    let want = match &parsed {
        Err(_) => Err("it is no program".to_string()),
        Ok(d) if !wref::supported(d, src) => {
            r.label("outside the supported sources (skipped)");
            return Ok(());
        }
        Ok(d) => wref::build(d, src).map(|_| ()).map_err(|f| format!("{f:?}")),
    };
    r.eval();
    let dir = tools.work.join("cli").join(slot);
    let _ = std::fs::create_dir_all(&dir);
    let old = dir.join("out.rs");
    let _ = std::fs::remove_file(&old);
    // there may be a file of an earlier run, whose content must go
    let stale = run::hash(&src) % 3;
    if stale > 0 {
        let text = "// STALE\n".repeat(if stale == 1 { 3 } else { 40_000 });
        std::fs::write(&old, text).unwrap_or_else(|e| die(&format!("{e}")));
    }
    std::fs::write(dir.join("in.grammar"), src).unwrap_or_else(|e| die(&format!("{e}")));
    let o = tool(tools, &dir, false);
    let err = || {
        let t = String::from_utf8_lossy(&o.stderr).into_owned();
        let v: Vec<&str> = t.lines().filter(|l| !l.starts_with("using literal")).take(4).collect();
        v.join(" / ")
    };
    match (&want, o.status.success()) {
        (Ok(()), false) => Err(format!("wop ended with {} on a correct program: {}", o.status, err())),
        (Err(f), true) => Err(format!("wop ended well although {f}")),
        (Err(f), false) => {
            ensure!(o.status.code().is_some(), "wop was stopped ({}) although {f}", o.status);
            r.label(if parsed.is_ok() { "faulty program" } else { "no program" });
            if src.len() > 8 {
                r.nontrivial(src, || format!("refused: {}", src.chars().take(140).collect::<String>()));
            }
            Ok(())
        }
        (Ok(()), true) => {
            let out = std::fs::read_to_string(dir.join("out.rs")).map_err(|e| format!("wop wrote no out.rs: {e}"))?;
            ensure!(
                src.contains("STALE") || !out.contains("STALE"),
                "out.rs still holds what an earlier run left there"
            );
            if stale > 0 {
                r.label("over an out.rs of an earlier run");
            }
            // what the library generates is all in it
            let (g, d) = guard(u64::MAX, || {
                let mut dfa = wop::build_parser(wop::lexer(src));
                dfa.start().map_err(|e| format!("a correct program was rejected: {e}"))?;
                let mut b = Builder::new("Gramem".to_string());
                b.process(&dfa.items[0], src);
                Ok::<_, String>((b.dump_grammar(src), b.dump_reductor(src)))
            })
            .map_err(|c| format!("generating code {c}"))??;
            let mut have = code_words(&out);
            for (w, n) in code_words(&g).into_iter().chain(code_words(&d)) {
                let e = have.entry(w.clone()).or_insert(0);
                *e -= n;
                // words may be glued to what surrounds the generated code
                if *e < 0 && w.chars().any(char::is_alphanumeric) {
                    return Err(format!("out.rs lacks {w:?}, which the library generates"));
                }
            }
            r.label("correct program");
            // the same program with a comment that is no text
            if run::hash(&src) % 16 == 5 {
                let mut bytes = src.as_bytes().to_vec();
                bytes.extend(b" // ");
                bytes.extend([&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\x80"][src.len() % 4]);
                bytes.extend(b"\n");
                std::fs::write(dir.join("in.grammar"), bytes).unwrap_or_else(|e| die(&format!("{e}")));
                r.eval();
                let o = tool(tools, &dir, false);
                ensure!(
                    !o.status.success(),
                    "wop ended well although the file (this one and a comment) is not valid UTF-8"
                );
                r.label("not UTF-8");
            }
            r.nontrivial(src, || format!("built: {}", src.chars().take(140).collect::<String>()));
            Ok(())
        }
    }
}

const RULE9: &str = "A case is one source given to the command line tool; an evaluation is one run of it. Non-trivial: correct programs, and others of more than eight bytes; counted by distinct sources.";
const ASSUME9: &[&str] = &["as for W06; what the tool prints is looked at by W10; not looked at is the out.rs of a run that fails"];

// ---- W10 ------------------------------------------------------------------------------------

/// The tree of a program as it is to be shown, without colours.
struct Show<'a> {
    src: &'a str,
    out: String,
}
impl Show<'_> {
    fn text(&self, s: Sp) -> &str {
        &self.src[s.0..s.1]
    }
    fn line(&mut self, lvl: usize, what: std::fmt::Arguments) {
        self.out.push_str(&"  ".repeat(lvl));
        let _ = self.out.write_fmt(what);
        self.out.push('\n');
    }
    fn node(&mut self, lvl: usize, name: &str, s: Sp) {
        let t = self.text(s).to_string();
        self.line(lvl, format_args!("{name}: \"{t}\""));
    }
    fn alts(&mut self, lvl: usize, alts: &[wref::XVar]) {
        for (i, a) in alts.iter().enumerate() {
            self.line(lvl, format_args!("|> production {i}:"));
            for x in &a.items {
                self.item(lvl + 1, x);
            }
            let code = a.code.map_or("(null)", |s| &self.src[s.0 + 2..s.1]);
            self.line(lvl, format_args!("|> reductor {i}: \"{code}\""));
        }
    }
    fn item(&mut self, lvl: usize, x: &XItem) {
        self.node(lvl, "- RuleItem", x.span);
        match &x.kind {
            XKind::Path => {
                self.node(lvl + 1, "IdentPath", x.inner);
                let t = self.text(x.inner).to_string();
                self.line(lvl + 2, format_args!(" {t}"));
            }
            XKind::Str => {
                self.node(lvl + 1, "StrLit", x.inner);
                self.line(lvl + 2, format_args!("|> sym: StrLit"));
            }
            XKind::Group(v) => {
                self.node(lvl + 1, "Rule", x.inner);
                self.alts(lvl + 2, v);
            }
        }
        self.line(lvl + 1, format_args!("|> optional: {}", x.opt));
        self.line(lvl + 1, format_args!("|> clone: {}", x.clone));
        let name = x.bind.map_or("(null)".to_string(), |s| format!("{:?}", self.text(s)));
        self.line(lvl + 1, format_args!("|> alias: {name}"));
    }
    fn program(&mut self, decls: &[(XDecl, Sp)], whole: Sp) {
        self.node(0, "Program", whole);
        for (d, s) in decls {
            match d {
                XDecl::Import(p) => {
                    self.node(1, "- Import", *s);
                    let t = self.text(*p).to_string();
                    self.line(2, format_args!("|> path: {t}"));
                }
                XDecl::Alias(k, p) => {
                    self.node(1, "- Alias", *s);
                    let (k, p) = (self.text(*k).to_string(), self.text(*p).to_string());
                    self.line(2, format_args!("|> alias: {k}"));
                    self.line(2, format_args!("|> definition: {p}"));
                }
                XDecl::Rule(n, t, alts) => {
                    self.node(1, "- RuleDecl", *s);
                    self.node(2, "|> rule_name", *n);
                    self.node(2, "|> rule_type", *t);
                    self.alts(2, alts);
                }
            }
        }
    }
}

/// A text without its colours.
fn plain(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(k) = rest.find("\x1b[") {
        out.push_str(&rest[..k]);
        let tail = &rest[k + 2..];
        let n = tail.bytes().take_while(|c| c.is_ascii_digit() || *c == b';').count();
        rest = tail[n..].strip_prefix('m').unwrap_or(&tail[n..]);
    }
    out + rest
}

fn tool_show(tools: &Tools, s: &Src, slot: &str, r: &mut Rec) -> Verdict {
    let src = s.0.as_str();
    if !wref::known(src) || src.contains('\x1b') {
        r.label("character outside the reference's classes (skipped)");
        return Ok(());
    }
    let toks = wref::lex(src);
    if toks.iter().any(|t| crate::wopc::keyword_cut_short(src, t.0, t.1 .1)) {
        r.label("a finding of W01 (skipped)");
        return Ok(());
    }
    let parsed = wref::parse(&toks);
    if let Ok(d) = &parsed {
        if !wref::supported(d, src) {
            r.label("outside the supported sources (skipped)");
            return Ok(());
        }
    }
    r.eval();
    let dir = tools.work.join("cli").join(slot);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join("in.grammar"), src).unwrap_or_else(|e| die(&format!("{e}")));
    let o = tool(tools, &dir, true);
    ensure!(o.status.code().is_some(), "wop was stopped: {}", o.status);
    let said = String::from_utf8(o.stdout).map_err(|e| format!("what wop prints is no text: {e}"))?;
    // the tokens, with lines in between that show the parser's stack
    let need = match &parsed {
        Ok(_) => toks.len(),
        Err(i) => (*i + 1).min(toks.len()),
    };
    let mut rest = said.as_str();
    let mut seen = 0;
    loop {
        let next = toks.get(seen).and_then(|(k, (a, b))| {
            let line = |e: usize| format!("\"{}\" ({k:?}) [{a}..{e}]\n", &src[*a..e]);
            if *k == wop::Sym::Error {
                // where it ends is not specified
                (*a..=*b).filter(|e| src.is_char_boundary(*e)).find_map(|e| rest.strip_prefix(line(e).as_str()))
            } else {
                rest.strip_prefix(line(*b).as_str())
            }
        });
        if let Some(t) = next {
            rest = t;
            seen += 1;
            if toks[seen - 1].0 == wop::Sym::Error {
                break;
            }
            continue;
        }
        let Some((l, t)) = rest.split_once('\n') else {
            break;
        };
        let stack = l.strip_prefix("\"0").and_then(|l| l.strip_suffix('"'));
        if !stack.is_some_and(|l| l.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ')) {
            break;
        }
        rest = t;
    }
    let next = || rest.lines().next().unwrap_or("").chars().take(160).collect::<String>();
    ensure!(
        seen >= need,
        "{seen} of {need} tokens are shown; then, instead of {:?} {:?} at {:?}, comes {:?}",
        toks[seen].0,
        &src[toks[seen].1 .0..toks[seen].1 .1],
        toks[seen].1,
        next()
    );
    let short = || src.chars().take(140).collect::<String>();
    let Ok(decls) = &parsed else {
        // an error token ends the list here, though the tool may have read on
        if toks.last().map(|t| t.0) != Some(wop::Sym::Error) {
            ensure!(rest.starts_with("FATAL: "), "a text which is no program: {:?} instead of FATAL:", next());
        }
        ensure!(
            said.contains("FATAL: "),
            "nothing is said against a text which is no program"
        );
        if need >= 3 {
            r.nontrivial(src, || format!("refused: {}", short()));
        }
        r.label("no program");
        return Ok(());
    };
    ensure!(rest.starts_with("OUTPUT: "), "a program: {:?} instead of OUTPUT:", next());
    let whole = (toks[0].1 .0, toks[toks.len() - 1].1 .1);
    let mut show = Show { src, out: String::new() };
    show.program(decls, whole);
    let want = format!("\nPARSING OUTPUT:\n{}BUILDING OUTPUT\n", show.out);
    let said = plain(rest);
    if !said.contains(&want) {
        let have = said.split_once("\nPARSING OUTPUT:\n").ok_or("no tree is shown")?.1;
        let (w, h) = show
            .out
            .lines()
            .chain(["BUILDING OUTPUT"])
            .zip(have.lines().chain(std::iter::repeat("")))
            .find(|(w, h)| w != h)
            .unwrap_or(("", ""));
        return Err(format!("the tree shown has {h:?} instead of {w:?}"));
    }
    r.label("program");
    r.nontrivial(src, || format!("shown: {}", short()));
    Ok(())
}

const RULE10: &str = "A case is one source given to the command line tool; an evaluation is one run of it, whose output is read. Non-trivial: programs, and other texts of which three tokens or more are read; counted by distinct sources.";
const ASSUME10: &[&str] = &[
    "as for W01 and W02; colours are ignored",
    "of the lines between the tokens, which show the parser's stack, only the shape is looked at",
    "in a text that is no program, tokens beyond the first with which no program goes on may be shown or not, and no tree is expected",
];

type ToolRun = fn(&Tools, &Src, &str, &mut Rec) -> Verdict;
struct ToolSpec {
    id: &'static str,
    run: ToolRun,
    rule: &'static str,
    assume: &'static [&'static str],
    quick: u64,
    thorough: u64,
}
static TOOL_SPECS: [ToolSpec; 2] = [
    ToolSpec {
        id: "W09",
        run: tool_run,
        rule: RULE9,
        assume: ASSUME9,
        quick: 6_000,
        thorough: 150_000,
    },
    ToolSpec {
        id: "W10",
        run: tool_show,
        rule: RULE10,
        assume: ASSUME10,
        quick: 8_000,
        thorough: 200_000,
    },
];

fn tool_spec(id: &str) -> &'static ToolSpec {
    TOOL_SPECS.iter().find(|t| t.id == id).unwrap_or_else(|| die(id))
}

pub fn tool_replay(id: &str, v: &Value) -> i32 {
    let spec = tool_spec(id);
    let s = Src::from_json(&v["input"]);
    println!("{id}: replaying {s:?}");
    let tools = Tools::new(&run::env().root, id);
    match (spec.run)(&tools, &s, "replay", &mut Rec::default()) {
        Ok(()) => {
            println!("{id}: held");
            0
        }
        Err(m) => {
            println!("{id}: {m}");
            1
        }
    }
}

pub fn tool_check(id: &str) -> i32 {
    let spec = tool_spec(id);
    let env = run::env();
    let start = Instant::now();
    let n: u64 = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if env.tier == Tier::Quick { spec.quick } else { spec.thorough });
    let mut rec = Rec::default();
    let corpus: Vec<Src> = run::corpus(&env.root, id);
    let ncorpus = corpus.len();
    let tools = Tools::new(&env.root, id);
    let grammar = std::fs::read_to_string("/repo/wop/src/wop.grammar").unwrap_or_default();
    let parts: Vec<(u64, Rec, Option<(Src, String)>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..SHARDS)
            .map(|sh| {
                let (tools, corpus, grammar, seed) = (&tools, &corpus, &grammar, env.seed);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut r = run::runner(seed, id, sh);
                        let st = tool_src();
                        let mut rec = Rec::default();
                        let mut first = Vec::new();
                        if sh == 0 {
                            first.push(Src(grammar.clone()));
                            first.extend(corpus.iter().cloned());
                        }
                        let slot = format!("s{sh}");
                        let mut k = 0;
                        let mut first = first.into_iter();
                        while k < n / SHARDS {
                            let s = first.next().unwrap_or_else(|| {
                                k += 1;
                                st.new_tree(&mut r)
                                    .unwrap_or_else(|e| die(&format!("generator: {e}")))
                                    .current()
                            });
                            if let Err(m) = (spec.run)(tools, &s, &slot, &mut rec) {
                                return (k, rec, Some((s, m)));
                            }
                        }
                        (k, rec, None)
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|e| die(&payload(&*e))))
            .collect()
    });
    let mut generated = 0;
    let mut failure: Option<(Src, String)> = None;
    for (k, r, f) in parts {
        generated += k;
        rec.merge(r);
        if let Some(f) = f {
            if failure.as_ref().map_or(true, |b| f.0 .0.len() < b.0 .0.len()) {
                failure = Some(f);
            }
        }
    }
    if let Some((mut s, mut m)) = failure.take() {
        let t = Instant::now();
        'again: while t.elapsed() < Duration::from_secs(40) {
            for c in s.smaller() {
                if t.elapsed() > Duration::from_secs(40) {
                    break 'again;
                }
                if let Err(e) = (spec.run)(&tools, &c, "shrink", &mut Rec::default()) {
                    s = c;
                    m = e;
                    continue 'again;
                }
            }
            break;
        }
        failure = Some((s, m));
    }
    let code = run::finish(
        &Facts {
            id: spec.id,
            rule: spec.rule,
            assumptions: spec.assume,
            generated,
            ncorpus,
            nfixed: 1,
            fixed_note: "wop's own grammar",
            cut: false,
            start,
        },
        &env,
        &rec,
        failure,
    );
    let _ = std::fs::remove_dir_all(&tools.work);
    code
}

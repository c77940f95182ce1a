//! Generated grammars and generated token sequences.
use crate::sym::Sy;
use lrp::grammar::{Rule, RuleMap};
use lrp::{Grammar, Map};
use proptest::prelude::*;
use serde_json::{json, Value};

/// Symbols: 0..nts non-terminals (0 is the entry), nts..nts+ts terminals, nts+ts the end of input,
/// then FOREIGN symbols the grammar does not know.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct GSpec {
    pub nts: usize,
    pub ts: usize,
    pub prods: Vec<Vec<Vec<u16>>>,
    pub rank: Vec<u16>,
}
pub const FOREIGN: usize = 2;

impl std::fmt::Debug for GSpec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.text())
    }
}

impl GSpec {
    pub fn eof(&self) -> u16 {
        (self.nts + self.ts) as u16
    }
    pub fn name(&self, s: u16) -> String {
        let s = s as usize;
        if s == 0 {
            "S'".into()
        } else if s < self.nts {
            format!("N{s}")
        } else if s < self.nts + self.ts {
            format!("t{}", s - self.nts)
        } else if s == self.nts + self.ts {
            "$".into()
        } else {
            format!("?{}", s - self.nts - self.ts)
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        for (l, alts) in self.prods.iter().enumerate() {
            if l > 0 {
                o.push_str("; ");
            }
            o.push_str(&self.name(l as u16));
            o.push_str(" ->");
            for (i, a) in alts.iter().enumerate() {
                if i > 0 {
                    o.push_str(" |");
                }
                for s in a {
                    o.push(' ');
                    o.push_str(&self.name(*s));
                }
            }
        }
        o
    }
    pub fn words(&self, input: &[u16]) -> String {
        input
            .iter()
            .map(|s| self.name(*s))
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn sy(&self, id: u16) -> Sy {
        Sy {
            rank: self.rank[id as usize],
            id,
        }
    }
    pub fn rules(&self) -> RuleMap<Sy> {
        let mut m = Map::new();
        for (l, alts) in self.prods.iter().enumerate() {
            let name = self.sy(l as u16);
            m.insert(
                name,
                Rule::new(
                    name,
                    alts.iter()
                        .map(|p| p.iter().map(|s| self.sy(*s)).collect::<Vec<_>>()),
                ),
            );
        }
        m
    }
    pub fn grammar(&self) -> Grammar<Sy> {
        Grammar::new(self.sy(0), self.rules(), self.sy(self.eof()))
    }
    /// The end marker is one of the grammar's own terminals, too.
    pub fn ends(&self) -> bool {
        let e = self.eof();
        self.prods.iter().flatten().flatten().any(|s| *s == e)
    }
    /// One of the terminals becomes the end marker.
    pub fn with_end(&self, k: u8) -> Self {
        if self.ts < 2 || self.ends() {
            return self.clone();
        }
        let t = (self.nts + k as usize % self.ts) as u16;
        let e = self.eof();
        let map = |s: u16| match s {
            s if s == t => e - 1,
            s if s > t => s - 1,
            s => s,
        };
        let mut left: Vec<u16> = (0..self.rank.len() as u16).filter(|s| *s != t).collect();
        left.sort_by_key(|s| self.rank[*s as usize]);
        let mut rank = vec![0; left.len()];
        for (r, s) in left.iter().enumerate() {
            rank[map(*s) as usize] = r as u16;
        }
        Self {
            nts: self.nts,
            ts: self.ts - 1,
            prods: self
                .prods
                .iter()
                .map(|r| r.iter().map(|p| p.iter().map(|s| map(*s)).collect()).collect())
                .collect(),
            rank,
        }
    }
    pub fn n_prods(&self) -> usize {
        self.prods.iter().map(Vec::len).sum()
    }
    pub fn size(&self) -> usize {
        self.prods.iter().flatten().map(|p| p.len() + 1).sum()
    }
    /// index over all productions of production `i` of rule `l`
    pub fn prod_id(&self, l: u16, i: usize) -> usize {
        self.prods[..l as usize].iter().map(Vec::len).sum::<usize>() + i
    }
    pub fn to_json(&self) -> Value {
        json!({"nts": self.nts, "ts": self.ts, "prods": self.prods, "rank": self.rank, "text": self.text()})
    }
    pub fn from_json(v: &Value) -> Self {
        let u = |v: &Value| v.as_u64().expect("number") as u16;
        Self {
            nts: u(&v["nts"]) as usize,
            ts: u(&v["ts"]) as usize,
            prods: v["prods"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| {
                    r.as_array()
                        .unwrap()
                        .iter()
                        .map(|p| p.as_array().unwrap().iter().map(u).collect())
                        .collect()
                })
                .collect(),
            rank: v["rank"].as_array().unwrap().iter().map(u).collect(),
        }
    }

    /// Makes raw rules well-formed: `raw[l]` are the productions of rule l over Raw symbols.
    /// Unproductive rules get a terminal production, unreachable rules and unused terminals go.
    pub fn build(mut raw: Vec<Vec<Vec<Raw>>>, nterm: usize, keys: &[u8]) -> Self {
        let n = raw.len();
        let nterm = nterm.max(1);
        let res = |s: &Raw| -> usize {
            match s {
                // the entry symbol is never on a right-hand side
                Raw::N(k) => {
                    if n == 1 {
                        n
                    } else {
                        1 + (*k as usize) % (n - 1)
                    }
                }
                Raw::T(k) => n + (*k as usize) % nterm,
            }
        };
        raw[0].truncate(1);
        let mut prods: Vec<Vec<Vec<usize>>> = raw
            .iter()
            .map(|r| r.iter().map(|p| p.iter().map(res).collect()).collect())
            .collect();
        // productivity
        let mut productive = vec![false; n];
        loop {
            loop {
                let mut ch = false;
                for l in 0..n {
                    if !productive[l]
                        && prods[l]
                            .iter()
                            .any(|p| p.iter().all(|s| *s >= n || productive[*s]))
                    {
                        productive[l] = true;
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
            let Some(l) = (1..n).find(|l| !productive[*l]) else {
                break;
            };
            prods[l].push(vec![n + l % nterm]);
        }
        // reachability
        let mut order = vec![0usize];
        let mut i = 0;
        while i < order.len() {
            for s in prods[order[i]].iter().flatten() {
                if *s < n && !order.contains(s) {
                    order.push(*s);
                }
            }
            i += 1;
        }
        order.sort_unstable();
        let mut used: Vec<usize> = order
            .iter()
            .flat_map(|l| prods[*l].iter().flatten().copied())
            .filter(|s| *s >= n)
            .collect();
        used.sort_unstable();
        used.dedup();
        let nn = order.len();
        let map = |s: usize| -> u16 {
            if s < n {
                order.iter().position(|x| *x == s).unwrap() as u16
            } else {
                (nn + used.iter().position(|x| *x == s).unwrap()) as u16
            }
        };
        let out: Vec<Vec<Vec<u16>>> = order
            .iter()
            .map(|l| {
                prods[*l]
                    .iter()
                    .map(|p| p.iter().map(|s| map(*s)).collect())
                    .collect()
            })
            .collect();
        let total = nn + used.len() + 1 + FOREIGN;
        let mut idx: Vec<usize> = (0..total).collect();
        idx.sort_by_key(|i| (keys.get(*i).copied().unwrap_or(0), *i));
        let mut rank = vec![0u16; total];
        for (r, i) in idx.iter().enumerate() {
            rank[*i] = r as u16;
        }
        Self {
            nts: nn,
            ts: used.len(),
            prods: out,
            rank,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Raw {
    N(u8),
    T(u8),
}

type Prod = Vec<Raw>;
type RuleG = Vec<Prod>;

fn n() -> impl Strategy<Value = Raw> {
    (0u8..8).prop_map(Raw::N)
}
fn t() -> impl Strategy<Value = Raw> {
    (0u8..10).prop_map(Raw::T)
}
fn sym() -> impl Strategy<Value = Raw> {
    prop_oneof![3 => t(), 2 => n()]
}

/// Many symbols in a row, most of them terminals.
fn long(from: usize, to: usize) -> impl Strategy<Value = Prod> {
    prop::collection::vec(prop_oneof![4 => t(), 1 => n()], from..=to)
}
fn prod() -> impl Strategy<Value = Prod> {
    prop_oneof![
        20 => t().prop_map(|a| vec![a]),
        30 => prop::collection::vec(sym(), 1..=4),
        10 => n().prop_map(|a| vec![a]),
        20 => (n(), t(), n()).prop_map(|(a, b, c)| vec![a, b, c]),
        20 => (t(), n(), t()).prop_map(|(a, b, c)| vec![a, b, c]),
        20 => (t(), n()).prop_map(|(a, b)| vec![a, b]),
        20 => (n(), t()).prop_map(|(a, b)| vec![a, b]),
        10 => (n(), n()).prop_map(|(a, b)| vec![a, b]),
        10 => (t(), n(), n()).prop_map(|(a, b, c)| vec![a, b, c]),
        10 => (t(), n(), t(), n(), t()).prop_map(|(a, b, c, d, e)| vec![a, b, c, d, e]),
        1 => long(6, 26),
    ]
}

/// A block of rules with a known LR character, referring to its own rules relative to the number
/// its first rule gets (`b`), to other rules through `x`, and to terminals from `t` on.
fn gadget(kind: u8, b: u8, x: u8, t: u8, k: u8) -> Vec<RuleG> {
    use Raw::{N, T};
    // N(j) resolves to rule 1 + j, so a rule placed at index i is N(i - 1)
    let r = |i: u8| N(b - 1 + i);
    let x = N(x);
    let t = |i: u8| T(t + i);
    match kind % 14 {
        // LR(1), not LALR(1)
        0 => vec![
            vec![
                vec![t(0), r(1), t(3)],
                vec![t(1), r(2), t(3)],
                vec![t(0), r(2), t(4)],
                vec![t(1), r(1), t(4)],
            ],
            vec![vec![t(2)]],
            vec![vec![t(2)]],
        ],
        // LALR(1), not SLR(1)
        1 => vec![
            vec![vec![r(1), t(0), r(2)], vec![r(2)]],
            vec![vec![t(1), r(2)], vec![t(2)]],
            vec![vec![r(1)]],
        ],
        // left recursion through k rules: FIRST needs the whole cycle
        2 => (0..2 + k % 4)
            .map(|i| vec![vec![r((i + 1) % (2 + k % 4)), t(i)], vec![t(i + 3)]])
            .collect(),
        // right recursion through k rules: FOLLOW needs the whole cycle
        3 => (0..2 + k % 4)
            .map(|i| vec![vec![t(i), r((i + 1) % (2 + k % 4))], vec![t(i + 3)]])
            .collect(),
        // operator precedence
        4 => vec![
            vec![vec![r(0), t(0), r(1)], vec![r(1)]],
            vec![vec![r(2), t(1), r(1)], vec![r(2)]],
            vec![vec![t(2), r(0), t(3)], vec![t(4)], vec![x]],
        ],
        // lists
        5 => vec![
            vec![vec![r(0), t(0), r(1)], vec![r(1)]],
            vec![vec![x], vec![t(1), r(0), t(2)], vec![t(3)]],
        ],
        6 => vec![
            vec![vec![r(1), t(0), r(0)], vec![r(1)]],
            vec![vec![t(1)], vec![t(2), r(0), t(3)]],
        ],
        // brackets
        7 => vec![vec![
            vec![t(0), t(1)],
            vec![t(0), r(0), t(1)],
            vec![t(2), t(3)],
            vec![t(2), r(0), t(3)],
        ]],
        // context only reaches the reduction through unit productions
        8 => vec![
            vec![vec![t(0), r(1), t(1)], vec![t(2), r(1), t(3)], vec![r(2), t(4)]],
            vec![vec![r(2)]],
            vec![vec![r(3)]],
            vec![vec![t(5)], vec![t(5), r(1)]],
        ],
        // lookaheads that arrive late, through a loop of right-most non-terminals
        9 => vec![
            vec![vec![t(0), r(1)], vec![t(1), r(2), t(2)]],
            vec![vec![t(3), r(2)], vec![t(4)]],
            vec![vec![t(3), r(1)], vec![t(5)], vec![t(1), r(0), t(0)]],
        ],
        // dangling else (ambiguous)
        10 => vec![vec![
            vec![t(0), r(0)],
            vec![t(0), r(0), t(1), r(0)],
            vec![t(2)],
        ]],
        // reduce/reduce by follow (LR(1) through context)
        11 => vec![
            vec![vec![t(0), r(1), t(1)], vec![t(0), r(2), t(2)], vec![t(3), r(1), t(2)], vec![t(3), r(2), t(1)]],
            vec![vec![t(4), r(1)], vec![t(4)]],
            vec![vec![t(4), r(2)], vec![t(4)]],
        ],
        // statements
        12 => vec![
            vec![vec![r(0), r(1), t(0)], vec![r(1), t(0)]],
            vec![vec![r(2), t(1), r(3)], vec![t(2), r(3)], vec![r(3)]],
            vec![vec![t(3)], vec![t(4), r(3)]],
            vec![vec![r(2)], vec![t(5)]],
        ],
        // palindrome with marker
        _ => vec![vec![
            vec![t(0), r(0), t(0)],
            vec![t(1), r(0), t(1)],
            vec![t(2)],
        ]],
    }
}

/// An edit of a finished rule list, for grammars close to a real one.
#[derive(Debug, Clone)]
struct Edit {
    kind: u8,
    at: (u8, u8, u8),
    with: Raw,
    prod: Prod,
}
fn edit() -> impl Strategy<Value = Edit> {
    (0u8..6, (any::<u8>(), any::<u8>(), any::<u8>()), sym(), prod()).prop_map(
        |(kind, at, with, prod)| Edit {
            kind,
            at,
            with,
            prod,
        },
    )
}
fn apply(rules: &mut [RuleG], e: &Edit) {
    let l = e.at.0 as usize % rules.len();
    let np = rules[l].len();
    let p = e.at.1 as usize % np;
    let len = rules[l][p].len();
    let i = e.at.2 as usize % len;
    match e.kind {
        0 => rules[l][p][i] = e.with,
        1 if len > 1 => {
            rules[l][p].remove(i);
        }
        2 => rules[l][p].insert(i, e.with),
        3 => rules[l].push(e.prod.clone()),
        4 if np > 1 => {
            rules[l].remove(p);
        }
        _ => rules[l][p].push(e.with),
    }
}

/// The repository's own grammars (its tests' and wop's) as raw rules.
fn repo_grammar(k: u8) -> (Vec<RuleG>, usize) {
    let txt: &[(&str, &str)] = match k % 7 {
        0 => &[("S", "C C"), ("C", "c C | d")],
        1 => &[
            ("Start", "Add"),
            ("Add", "Add + Factor | Factor"),
            ("Factor", "Factor * Term | Term"),
            ("Term", "( Add ) | int | ident"),
        ],
        2 => &[
            ("S", "E"),
            ("E", "d D | D | F"),
            ("F", "e C | C"),
            ("D", "d e B b | e A c"),
            ("C", "e d B c | d A b"),
            ("B", "a"),
            ("A", "a"),
        ],
        3 => &[("S", "E"), ("E", "E * B | E + B | B"), ("B", "0 | 1")],
        4 => &[
            ("S'", "S"),
            ("S", "( ) | ( S ) | [ ] | [ S ] | { } | { S }"),
        ],
        5 => &[
            ("S", "Phrase"),
            ("Phrase", "Item Space Phrase | Item"),
            ("Item", "Word | Num"),
            ("Word", "Alpha Word | Alpha"),
            ("Num", "Digit Num | Digit"),
            ("Alpha", "a | b | c | d"),
            ("Digit", "0 | 1 | 2"),
            ("Space", "_"),
        ],
        _ => &[
            ("EntryPoint", "Program"),
            ("Program", "Program Import Sc | Program Alias Sc | Program RuleDecl Sc | Alias Sc | Import Sc | RuleDecl Sc"),
            ("IdentPath", "IdentPath :: Id | Id"),
            ("RuleDecl", "IdentPath : IdentPath = Rule"),
            ("Rule", "Rule Pipe RulePipe CB | Rule Pipe RulePipe | RulePipe CB | RulePipe"),
            ("RulePipe", "RulePipe RuleItem | RuleItem"),
            ("RuleItem", "IdentPath ? : & Id | IdentPath ? : Id | IdentPath ? | IdentPath : & Id | IdentPath : Id | IdentPath | Str ? : & Id | Str ? : Id | Str ? | Str : & Id | Str : Id | Str | ( Rule ) ? : & Id | ( Rule ) ? : Id | ( Rule ) ? | ( Rule ) : & Id | ( Rule ) : Id | ( Rule )"),
            ("Import", "use IdentPath :: * | use IdentPath"),
            ("Alias", "alias Id IdentPath | alias Str IdentPath"),
        ],
    };
    let mut terms: Vec<&str> = Vec::new();
    let rules = txt
        .iter()
        .map(|(_, alts)| {
            alts.split(" | ")
                .map(|p| {
                    p.split_whitespace()
                        .map(|s| {
                            if let Some(i) = txt.iter().position(|(n, _)| *n == s) {
                                Raw::N(i as u8 - 1)
                            } else {
                                let i = terms.iter().position(|x| *x == s).unwrap_or_else(|| {
                                    terms.push(s);
                                    terms.len() - 1
                                });
                                Raw::T(i as u8)
                            }
                        })
                        .collect()
                })
                .collect()
        })
        .collect();
    let nt = terms.len();
    (rules, nt)
}

/// Chains of rules as expression grammars have them: each rule begins (or ends) with the next one,
/// the last one is a terminal or the first one in brackets.
fn deep() -> impl Strategy<Value = (Vec<RuleG>, usize)> {
    (
        prop::collection::vec((0u8..9, 0u8..12), 4..=22),
        0u8..4,
        prop::option::of((any::<u8>(), any::<u8>())),
    )
        .prop_map(|(levels, bottom, jump)| {
            let n = levels.len() as u8;
            let mut rules: Vec<RuleG> = vec![vec![vec![Raw::N(0)]]];
            for (i, (kind, t)) in levels.into_iter().enumerate() {
                let (me, next, op) = (Raw::N(i as u8), Raw::N(i as u8 + 1), Raw::T(3 + t));
                rules.push(match kind {
                    0 => vec![vec![me, op, next], vec![next]],
                    1 => vec![vec![next, op, me], vec![next]],
                    2 => vec![vec![op, me], vec![next]],
                    3 => vec![vec![next, op], vec![next]],
                    4 => vec![vec![next]],
                    5 => vec![vec![next, op]],
                    6 => vec![vec![op, next]],
                    7 => vec![vec![next], vec![op]],
                    _ => vec![vec![me, next], vec![next]],
                });
            }
            if let Some((a, b)) = jump {
                rules[1 + (a % n) as usize].push(vec![Raw::T(15 + b % 2), Raw::N(b % n), Raw::T(17)]);
            }
            rules.push(match bottom {
                0 => vec![vec![Raw::T(0)]],
                1 => vec![vec![Raw::T(0)], vec![Raw::T(1)]],
                _ => vec![vec![Raw::T(0)], vec![Raw::T(1), Raw::N(0), Raw::T(2)]],
            });
            (rules, 18)
        })
}
/// Rules with many alternatives, long productions and many terminals.
fn wide() -> impl Strategy<Value = (Vec<RuleG>, usize)> {
    (
        prop_oneof![
            6 => prop::collection::vec((5u8..24, 0u8..5, prop::collection::vec(prod(), 0..=2)), 1..=3),
            1 => (24u8..50, 0u8..5).prop_map(|(n, k)| vec![(n, k, vec![])]),
        ],
        prop::collection::vec(prop_oneof![1 => (0u8..40).prop_map(Raw::T), 1 => n()], 1..=14),
        any::<bool>(),
        n(),
    )
        .prop_map(|(many, long, twice, x)| {
            let mut rules: Vec<RuleG> = vec![vec![vec![Raw::N(0)]]];
            let mut first = vec![long];
            if twice {
                first.push(vec![x, x]);
            }
            rules.push(first);
            let mut t = 0u8;
            for (alts, tail, extra) in many {
                let mut r: RuleG = (0..alts)
                    .map(|k| {
                        let mut p = vec![Raw::T(t + k)];
                        if k < tail {
                            p.push(Raw::N(k));
                        }
                        p
                    })
                    .collect();
                t += alts;
                r.extend(extra);
                rules.push(r);
            }
            (rules, (t as usize).clamp(10, 50))
        })
}

/// Grammars beyond what fits a byte or a machine word: more than 255 alternatives, states or symbols
/// of a production, more than 64 terminals or rules.
fn huge() -> impl Strategy<Value = (Vec<RuleG>, usize)> {
    (0u8..6, any::<u8>(), any::<u8>(), prop::collection::vec((any::<u8>(), any::<u8>()), 300))
        .prop_map(|(kind, a, b, r)| {
            let mut rules: Vec<RuleG> = vec![vec![vec![Raw::N(0)]]];
            let t = |k: usize| Raw::T((k % 120) as u8);
            match kind {
                // alternatives of two terminals each
                0 => {
                    let n = 257 + a as usize % 40;
                    let m = 17 + b as usize % 90;
                    rules.push(vec![vec![Raw::N(1)], vec![Raw::N(0), Raw::N(1)]]);
                    rules.push((0..n).map(|i| vec![t(i / m), t(20 + i % m)]).collect());
                }
                // long alternatives, a state for each place in them
                1 => {
                    let n = 20 + a as usize % 10;
                    let first = (0..n)
                        .map(|i| {
                            let mut p = vec![t(i)];
                            p.extend((0..10 + b as usize % 6).map(|j| {
                                let (x, y) = r[(i * 13 + j) % 300];
                                if x < 16 { Raw::N(1) } else { t(30 + y as usize % 30) }
                            }));
                            p
                        })
                        .collect();
                    rules.push(first);
                    rules.push(vec![vec![t(90)], vec![t(91), Raw::N(1)]]);
                }
                // many rules in a ring with chords
                2 => {
                    let n = 65 + a % 30;
                    for i in 0..n {
                        let (x, y) = r[i as usize];
                        let mut alts = vec![
                            vec![t(2 * i as usize), Raw::N((i + 1) % n)],
                            vec![t(2 * i as usize + 1)],
                        ];
                        if x < 5 {
                            alts.push(vec![t(y as usize), Raw::N(y % n), t(i as usize)]);
                        }
                        rules.push(alts);
                    }
                }
                // one very long production
                3 => {
                    let n = if a < 64 { 257 + b as usize % 30 } else { 60 + b as usize % 60 };
                    rules.push(vec![
                        (0..n)
                            .map(|i| if r[i].0 < 20 { Raw::N(1) } else { t(r[i].1 as usize % 8) })
                            .collect(),
                        vec![t(9)],
                    ]);
                    rules.push(vec![vec![t(10)], vec![t(11), Raw::N(1)]]);
                }
                // many terminals in FIRST and FOLLOW
                4 => {
                    let n = 65 + a as usize % 40;
                    let m = b as usize % 30;
                    rules.push(vec![vec![Raw::N(1), Raw::N(2)], vec![Raw::N(0), Raw::N(1), t(119)]]);
                    rules.push((0..n).map(|i| vec![t(i)]).collect());
                    rules.push((0..m + 2).map(|i| vec![t(n - 1 - m / 2 + i), Raw::N(1)]).collect());
                }
                // keywords spelled out: terminals in a row, with common beginnings
                _ => {
                    let n = 30 + a as usize % 12;
                    rules.push(vec![vec![Raw::N(1)], vec![Raw::N(0), t(119), Raw::N(1)]]);
                    let first = (0..n)
                        .map(|i| {
                            let mut p: Vec<Raw> = Vec::new();
                            for j in 0..6 + r[i].0 as usize % 5 {
                                // shares its beginning with the one before
                                p.push(if j < 3 { t(i >> (2 * (2 - j)) & 3) } else { t(4 + r[(i + j) % 300].1 as usize % 90) });
                            }
                            p
                        })
                        .collect();
                    rules.push(first);
                }
            }
            (rules, 120)
        })
}

/// How often each other sort of grammar is generated for one huge one.
const MANY: u32 = 10;

pub fn gspec() -> BoxedStrategy<GSpec> {
    let keys = prop::collection::vec(prop_oneof![1 => Just(0u8), 2 => any::<u8>()], 0..72);
    let start = prop_oneof![
        24 => n().prop_map(|a| vec![a]),
        8 => (n(), n()).prop_map(|(a, b)| vec![a, b]),
        4 => prop::collection::vec(sym(), 1..=3),
        2 => prop::collection::vec(sym(), 3..=8),
        1 => long(4, 24),
    ];
    let random = (
        start.clone(),
        prop::collection::vec(prop::collection::vec(prod(), 1..=3), 1..=5),
        1usize..=6,
        keys.clone(),
    )
        .prop_map(|(s, mut rules, nt, keys)| {
            rules.insert(0, vec![s]);
            GSpec::build(rules, nt, &keys)
        });
    // every production starts with its own terminal: mostly LR, often deep contexts
    let marked = (
        start.clone(),
        prop::collection::vec(prop::collection::vec(prod(), 1..=3), 1..=5),
        2usize..=5,
        any::<u8>(),
        keys.clone(),
    )
        .prop_map(|(s, mut rules, nt, mode, keys)| {
            let mut c = 0u8;
            for r in &mut rules {
                for p in r.iter_mut() {
                    match mode % 3 {
                        0 => p.insert(0, Raw::T(nt as u8 + c)),
                        1 => p.push(Raw::T(nt as u8 + c)),
                        _ => {
                            let k = if c % 2 == 0 { 0 } else { p.len() };
                            p.insert(k, Raw::T(nt as u8 + c));
                        }
                    }
                    c += 1;
                }
            }
            rules.insert(0, vec![s]);
            let all = nt + c as usize;
            GSpec::build(rules, all, &keys)
        });
    let gadgets = (
        prop::collection::vec((0u8..14, 0u8..8, 0u8..6, 0u8..4), 1..=3),
        prop::collection::vec(prop::collection::vec(prod(), 1..=2), 0..=2),
        4usize..=12,
        prop::collection::vec(edit(), 0..=2),
        start,
        keys.clone(),
    )
        .prop_map(|(gs, extra, nt, edits, start, keys)| {
            let mut rules: Vec<RuleG> = vec![vec![start]];
            let first = gs.len() == 1 && extra.is_empty() && edits.is_empty();
            for (k, x, t, n) in gs {
                let b = rules.len() as u8;
                rules.extend(gadget(k, b, x, t, n));
            }
            if first {
                rules[0] = vec![vec![Raw::N(0)]];
            }
            rules.extend(extra);
            for e in &edits {
                apply(&mut rules[1..], e);
            }
            GSpec::build(rules, nt, &keys)
        });
    // hierarchy-separating gadgets left intact, with the first one as the entry
    let pure = (
        prop::collection::vec((0u8..14, 0u8..8, 0u8..4), 1..=2),
        keys.clone(),
    )
        .prop_map(|(gs, keys)| {
            let mut rules: Vec<RuleG> = vec![vec![vec![Raw::N(0)]]];
            let mut t = 0;
            let kk = gs.len();
            let mut entries = Vec::new();
            for (k, x, n) in gs {
                let b = rules.len() as u8;
                entries.push(b - 1);
                rules.extend(gadget(k, b, if kk > 1 { x } else { 0 }, t, n));
                t += 8;
            }
            if kk > 1 {
                rules[0] = vec![vec![Raw::N(rules.len() as u8 - 1)]];
                rules.push(entries.iter().map(|e| vec![Raw::N(*e)]).collect());
            }
            GSpec::build(rules, t as usize, &keys)
        });
    let large = (prop_oneof![deep().boxed(), wide().boxed()], prop::collection::vec(edit(), 0..=1), keys.clone())
        .prop_map(|((mut rules, nt), es, keys)| {
            for e in &es {
                apply(&mut rules[1..], e);
            }
            GSpec::build(rules, nt, &keys)
        });
    let huge = (
        huge(),
        prop::collection::vec(edit(), 0..=1),
        prop::collection::vec(prop_oneof![1 => Just(0u8), 2 => any::<u8>()], 0..400),
    )
        .prop_map(|((mut rules, nt), es, keys)| {
            for e in &es {
                apply(&mut rules[1..], e);
            }
            GSpec::build(rules, nt, &keys)
        });
    let repo = (0u8..7, prop::collection::vec(edit(), 0..=3), keys).prop_map(|(k, es, keys)| {
        let (mut rules, nt) = repo_grammar(k);
        if rules.len() > 1 {
            for e in &es {
                apply(&mut rules[1..], e);
            }
        }
        GSpec::build(rules, nt, &keys)
    });
    let plain = prop_oneof![
        8 * MANY => random,
        8 * MANY => marked,
        8 * MANY => gadgets,
        4 * MANY => pure,
        4 * MANY => repo,
        2 * MANY => large,
        1 => huge,
    ];
    (plain, prop::option::weighted(0.06, any::<u8>()))
        .prop_map(|(g, end)| end.map_or_else(|| g.clone(), |k| g.with_end(k)))
        .boxed()
}

/// How one input is made from a grammar; decoded by `decode_input`.
#[derive(Debug, Clone)]
pub struct InGen {
    pub kind: u8,
    pub choices: Vec<u8>,
}

const HUGE: usize = 1000;

pub fn ingen(maxlen: usize) -> impl Strategy<Value = InGen> {
    let usual = prop::collection::vec(any::<u8>(), 0..maxlen);
    let long = prop::collection::vec(any::<u8>(), maxlen..6 * maxlen);
    // the same few choices over and over: deep nesting and long lists
    let again = (prop::collection::vec(any::<u8>(), 1..5), 2..2 * maxlen)
        .prop_map(|(v, n)| v.iter().copied().cycle().take(v.len() * n).collect::<Vec<u8>>());
    // and now and then far deeper and longer ones
    let huge = (prop::collection::vec(any::<u8>(), 1..4), HUGE..2 * HUGE)
        .prop_map(|(v, n)| v.iter().copied().cycle().take(n).collect::<Vec<u8>>());
    (0u8..12, prop_oneof![320 => usual, 20 => long, 40 => again, 1 => huge])
        .prop_map(|(kind, choices)| InGen { kind, choices })
}

fn min_heights(g: &GSpec) -> Vec<(usize, usize)> {
    // (height, production) of a lowest derivation
    let mut h = vec![(usize::MAX, 0); g.nts];
    loop {
        let mut ch = false;
        for l in 0..g.nts {
            for (i, p) in g.prods[l].iter().enumerate() {
                let v = p
                    .iter()
                    .map(|s| {
                        if (*s as usize) < g.nts {
                            h[*s as usize].0
                        } else {
                            0
                        }
                    })
                    .max()
                    .unwrap();
                if v != usize::MAX && v + 1 < h[l].0 {
                    h[l] = (v + 1, i);
                    ch = true;
                }
            }
        }
        if !ch {
            return h;
        }
    }
}

pub fn sentence(g: &GSpec, choices: &[u8], cap: usize) -> Vec<u16> {
    let h = min_heights(g);
    let mut out = Vec::new();
    let mut stack = vec![0u16];
    let mut c = choices.iter();
    let mut steps = 0;
    while let Some(s) = stack.pop() {
        if s as usize >= g.nts {
            out.push(s);
            continue;
        }
        steps += 1;
        let alts = &g.prods[s as usize];
        let min = h[s as usize].1;
        let p = if out.len() + stack.len() > cap || steps > 4 * cap {
            min
        } else {
            match c.next() {
                None => min,
                // one choice is not enough for that many
                Some(k) if alts.len() > 200 => (*k as usize * 256 + c.next().copied().unwrap_or(0) as usize) % alts.len(),
                Some(k) => *k as usize % alts.len(),
            }
        };
        stack.extend(alts[p].iter().rev());
    }
    out
}

/// Sequences over the grammar's terminals only.
pub fn decode_input(g: &GSpec, i: &InGen, cap: usize) -> Vec<u16> {
    let all = g.ts + usize::from(g.ends());
    let term = |k: u8| (g.nts + k as usize % all) as u16;
    let long = match i.choices.len() {
        0..=60 => cap,
        HUGE.. => HUGE,
        _ => 3 * cap,
    };
    let mut w = decode(g, i, long, &term);
    // a sentence that grew too long on its way down becomes one of its prefixes
    w.truncate(if long == HUGE { 2 * HUGE } else { 4 * cap });
    w
}

fn decode(g: &GSpec, i: &InGen, cap: usize, term: &dyn Fn(u8) -> u16) -> Vec<u16> {
    let split = i.choices.len().min(6);
    let (muts, rest) = i.choices.split_at(split);
    match i.kind {
        0..=3 => sentence(g, &i.choices, cap),
        4..=8 => {
            let mut w = sentence(g, rest, cap);
            for m in muts.chunks(3).take(1 + (i.kind as usize - 4) / 3) {
                if m.len() < 3 {
                    break;
                }
                let at = m[1] as usize % (w.len() + 1);
                match m[0] % 5 {
                    0 if at < w.len() => {
                        w.remove(at);
                    }
                    1 => w.insert(at, term(m[2])),
                    2 if at < w.len() => w[at] = term(m[2]),
                    3 => w.truncate(at),
                    4 if w.len() > 1 => {
                        let b = m[2] as usize % w.len();
                        let a = at % w.len();
                        w.swap(a, b);
                    }
                    _ => w.push(term(m[2])),
                }
            }
            w
        }
        9 => {
            let mut w = sentence(g, rest, cap);
            w.truncate(muts.first().map_or(0, |k| *k as usize % (w.len() + 1)));
            w
        }
        _ => i.choices.iter().take(cap).map(|k| term(*k)).collect(),
    }
}

/// All strings over the terminals in length order, at most `limit`.
pub fn short_strings(g: &GSpec, limit: usize) -> Vec<Vec<u16>> {
    let mut out = vec![vec![]];
    let mut i = 0;
    while out.len() < limit && i < out.len() {
        for t in 0..g.ts {
            if out.len() >= limit {
                break;
            }
            let mut w: Vec<u16> = out[i].clone();
            w.push((g.nts + t) as u16);
            out.push(w);
        }
        i += 1;
    }
    out
}

impl GSpec {
    /// The same grammar with other productions: unreachable rules and unused terminals go. Also
    /// gives the new number of every symbol. None when a rule derives no sentence.
    pub fn rebuild(&self, prods: &[Vec<Vec<u16>>]) -> Option<(Self, Vec<Option<u16>>)> {
        let n = self.nts;
        if prods.iter().any(|r| r.iter().any(Vec::is_empty)) {
            return None;
        }
        let mut order = vec![0usize];
        let mut i = 0;
        while i < order.len() {
            for s in prods[order[i]].iter().flatten() {
                let s = *s as usize;
                if s < n && !order.contains(&s) {
                    order.push(s);
                }
            }
            i += 1;
        }
        order.sort_unstable();
        let mut productive = vec![false; n];
        loop {
            let mut ch = false;
            for l in &order {
                if !productive[*l]
                    && prods[*l]
                        .iter()
                        .any(|p| p.iter().all(|s| *s as usize >= n || productive[*s as usize]))
                {
                    productive[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        if order.iter().any(|l| !productive[*l]) {
            return None;
        }
        let mut used: Vec<usize> = order
            .iter()
            .flat_map(|l| prods[*l].iter().flatten().map(|s| *s as usize))
            .filter(|s| *s >= n && *s != n + self.ts)
            .collect();
        used.sort_unstable();
        used.dedup();
        if used.is_empty() {
            return None;
        }
        let total = n + self.ts + 1 + FOREIGN;
        let mut map: Vec<Option<u16>> = vec![None; total];
        let mut next = 0u16;
        for s in order.iter().chain(&used) {
            map[*s] = Some(next);
            next += 1;
        }
        for s in n + self.ts..total {
            map[s] = Some(next);
            next += 1;
        }
        let mut keep: Vec<usize> = (0..total).filter(|s| map[*s].is_some()).collect();
        keep.sort_by_key(|s| self.rank[*s]);
        let mut rank = vec![0; keep.len()];
        for (r, s) in keep.iter().enumerate() {
            rank[map[*s].unwrap() as usize] = r as u16;
        }
        let g = Self {
            nts: order.len(),
            ts: used.len(),
            prods: order
                .iter()
                .map(|l| {
                    prods[*l]
                        .iter()
                        .map(|p| p.iter().map(|s| map[*s as usize].unwrap()).collect())
                        .collect()
                })
                .collect(),
            rank,
        };
        Some((g, map))
    }

    pub fn smaller(&self) -> Vec<(Self, Vec<Option<u16>>)> {
        let mut out = Vec::new();
        let mut push = |p: Vec<Vec<Vec<u16>>>| {
            if let Some(x) = self.rebuild(&p) {
                out.push(x);
            }
        };
        for l in 1..self.nts {
            for i in 0..self.prods[l].len() {
                if self.prods[l].len() > 1 {
                    let mut p = self.prods.clone();
                    p[l].remove(i);
                    push(p);
                }
            }
        }
        for l in 0..self.nts {
            for i in 0..self.prods[l].len() {
                for k in 0..self.prods[l][i].len() {
                    if self.prods[l][i].len() > 1 {
                        let mut p = self.prods.clone();
                        p[l][i].remove(k);
                        push(p);
                    }
                    if (self.prods[l][i][k] as usize) < self.nts {
                        // a terminal in place of the non-terminal
                        for t in 0..self.ts.min(3) {
                            let mut p = self.prods.clone();
                            p[l][i][k] = (self.nts + t) as u16;
                            push(p);
                        }
                    }
                }
            }
        }
        let plain: Vec<u16> = (0..self.rank.len() as u16).collect();
        if self.rank != plain {
            let mut g = self.clone();
            g.rank = plain.clone();
            out.push((g, plain.into_iter().map(Some).collect()));
        }
        out
    }

    /// Some rule derives itself through single-symbol productions only.
    pub fn cyclic(&self) -> bool {
        let n = self.nts;
        let mut reach = vec![vec![false; n]; n];
        for (l, r) in self.prods.iter().enumerate() {
            for p in r {
                if p.len() == 1 && (p[0] as usize) < n {
                    reach[l][p[0] as usize] = true;
                }
            }
        }
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    reach[i][j] |= reach[i][k] && reach[k][j];
                }
            }
        }
        (0..n).any(|i| reach[i][i])
    }
}

fn subsets(pool: &[Vec<u16>], max: usize) -> Vec<Vec<Vec<u16>>> {
    let mut out: Vec<Vec<Vec<u16>>> = Vec::new();
    for (i, a) in pool.iter().enumerate() {
        out.push(vec![a.clone()]);
        for (j, b) in pool.iter().enumerate().skip(i + 1) {
            if max >= 2 {
                out.push(vec![a.clone(), b.clone()]);
            }
            for c in pool.iter().skip(j + 1) {
                if max >= 3 {
                    out.push(vec![a.clone(), b.clone(), c.clone()]);
                }
            }
        }
    }
    out
}
fn strings(alphabet: &[u16], max: usize) -> Vec<Vec<u16>> {
    let mut out: Vec<Vec<u16>> = Vec::new();
    let mut last: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..max {
        last = last
            .iter()
            .flat_map(|w| {
                alphabet.iter().map(move |a| {
                    let mut w = w.clone();
                    w.push(*a);
                    w
                })
            })
            .collect();
        out.extend(last.clone());
    }
    out
}

/// Every grammar of two families, all rules reachable and productive:
/// S' -> A with A, B having one or two productions of one or two symbols out of {A, B, a, b}, and
/// S' -> A with A having up to three productions of up to three symbols out of {A, a, b}.
/// `stride` keeps one in so many.
pub fn small_grammars(stride: usize) -> Vec<GSpec> {
    let mut out = Vec::new();
    let mut k = 0usize;
    let mut add = |nts: usize, prods: Vec<Vec<Vec<u16>>>| {
        k += 1;
        if k % stride != 0 {
            return;
        }
        let total = nts + 2 + 1 + FOREIGN;
        let rank: Vec<u16> = if k / stride % 2 == 0 {
            (0..total as u16).collect()
        } else {
            (0..total as u16).rev().collect()
        };
        let g = GSpec {
            nts,
            ts: 2,
            prods: prods.clone(),
            rank,
        };
        if let Some((h, _)) = g.rebuild(&prods) {
            if h.nts == nts {
                out.push(h);
            }
        }
    };
    let two = subsets(&strings(&[1, 2, 3, 4], 2), 2);
    for a in &two {
        for b in &two {
            add(3, vec![vec![vec![1]], a.clone(), b.clone()]);
        }
    }
    for a in subsets(&strings(&[1, 2, 3], 3), 3) {
        add(2, vec![vec![vec![1]], a]);
    }
    out
}

/// Grammars as they come: rules nobody reaches, rules that derive no sentence, duplicate
/// productions. (Only for properties which do not speak of sentences.)
pub fn wild() -> BoxedStrategy<GSpec> {
    (
        prop::collection::vec(prop::collection::vec(prod(), 1..=3), 1..=6),
        1usize..=5,
        prop::collection::vec(any::<u8>(), 0..24),
    )
        .prop_map(|(rules, nt, keys)| {
            let n = rules.len() + 1;
            let res = |s: &Raw| -> u16 {
                match s {
                    Raw::N(k) => (1 + *k as usize % (n - 1)) as u16,
                    Raw::T(k) => (n + *k as usize % nt) as u16,
                }
            };
            let mut prods: Vec<Vec<Vec<u16>>> = vec![vec![vec![1]]];
            for r in &rules {
                prods.push(r.iter().map(|p| p.iter().map(res).collect()).collect());
            }
            let total = n + nt + 1 + FOREIGN;
            let mut idx: Vec<usize> = (0..total).collect();
            idx.sort_by_key(|i| (keys.get(*i).copied().unwrap_or(0), *i));
            let mut rank = vec![0u16; total];
            for (r, i) in idx.iter().enumerate() {
                rank[*i] = r as u16;
            }
            let g = GSpec {
                nts: n,
                ts: nt,
                prods,
                rank,
            };
            match keys.first() {
                Some(k) if *k < 24 => g.with_end(*k),
                _ => g,
            }
        })
        .boxed()
}

/// Left-recursive rules nested in each other's contexts: the canonical LR(1) tables of these have
/// many equal rows.
pub fn nested() -> BoxedStrategy<GSpec> {
    let rule = (0u8..4, 0u8..4, prop::collection::vec(0u8..5, 7), prop::option::of(prod()));
    (
        prop::collection::vec(rule, 1..=3),
        prop_oneof![Just(1usize), Just(2)],
        prop::collection::vec(any::<u8>(), 0..24),
        2usize..=6,
    )
        .prop_map(|(rules, k, keys, nt)| {
            let mut out: Vec<RuleG> = vec![vec![(0..k).map(|i| Raw::N(i as u8)).collect()]];
            for (i, (a, b, t, extra)) in rules.into_iter().enumerate() {
                let me = Raw::N(i as u8);
                let t = |k: usize| Raw::T(t[k] + (k as u8 % 3));
                let mut r = vec![
                    if a % 2 == 0 { vec![me, t(0), t(1)] } else { vec![me, t(0), Raw::N(a)] },
                    vec![t(2), Raw::N(b), t(3)],
                    vec![t(4)],
                ];
                r.extend(extra);
                out.push(r);
            }
            GSpec::build(out, nt, &keys)
        })
        .boxed()
}

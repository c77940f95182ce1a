//! The checks of the parser library (`lrp`).
use crate::ensure;
use crate::gspec::{self, decode_input, ingen, short_strings, GSpec};
use crate::refr::{Act, Auto, Bits, RefG};
use crate::run::{Input, Rec, Spec, Tier, Verdict};
use crate::sym::{guard, Crash, Sy};
use lrp::grammar::{Rule, RuleMap};
use lrp::{Action, Clr, Dfa, Error, Grammar, Lalr, Map, Parser, ReductMap, Set, Slr, Tabler, Token};
use proptest::prelude::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;

/// A grammar, token sequences to parse, and free choices a check may use.
#[derive(Clone)]
pub struct Case {
    pub g: GSpec,
    pub inputs: Vec<Vec<u16>>,
    pub extra: Vec<u8>,
}

impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.g.text())?;
        let order: Vec<String> = {
            let mut v: Vec<u16> = (0..self.g.rank.len() as u16).collect();
            v.sort_by_key(|i| self.g.rank[*i as usize]);
            v.into_iter().map(|i| self.g.name(i)).collect()
        };
        write!(f, "  symbol order: {}", order.join(" "))?;
        for i in &self.inputs {
            write!(f, "\n  input: {}", self.g.words(i))?;
        }
        if !self.extra.is_empty() {
            write!(f, "\n  choices: {:?}", self.extra)?;
        }
        Ok(())
    }
}

impl Input for Case {
    fn to_json(&self) -> Value {
        json!({"grammar": self.g.to_json(), "inputs": self.inputs, "extra": self.extra,
            "words": self.inputs.iter().map(|i| self.g.words(i)).collect::<Vec<_>>()})
    }
    fn from_json(v: &Value) -> Self {
        let arr = |v: &Value| -> Vec<u64> {
            v.as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect())
                .unwrap_or_default()
        };
        Self {
            g: GSpec::from_json(&v["grammar"]),
            inputs: v["inputs"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .map(|i| arr(i).into_iter().map(|x| x as u16).collect())
                        .collect()
                })
                .unwrap_or_default(),
            extra: arr(&v["extra"]).into_iter().map(|x| x as u8).collect(),
        }
    }
    fn smaller(&self) -> Vec<Self> {
        let mut out = Vec::new();
        let with = |inputs: Vec<Vec<u16>>| Self {
            inputs,
            ..self.clone()
        };
        for i in 0..self.inputs.len() {
            let mut v = self.inputs.clone();
            v.remove(i);
            out.push(with(v));
        }
        for (i, w) in self.inputs.iter().enumerate() {
            for size in [w.len() / 2, w.len() / 4, 3, 2, 1] {
                if size == 0 || size > w.len() {
                    continue;
                }
                for at in (0..=w.len() - size).step_by(size) {
                    let mut v = self.inputs.clone();
                    v[i].drain(at..at + size);
                    out.push(with(v));
                }
            }
        }
        for (g, map) in self.g.smaller() {
            let inputs: Vec<Vec<u16>> = self
                .inputs
                .iter()
                .map(|w| w.iter().filter_map(|t| map[*t as usize]).collect())
                .collect();
            out.push(Self {
                g,
                inputs,
                extra: self.extra.clone(),
            });
        }
        if !self.extra.is_empty() {
            out.push(Self {
                extra: Vec::new(),
                ..self.clone()
            });
            for i in 0..self.extra.len() {
                let mut e = self.extra.clone();
                e.remove(i);
                out.push(Self {
                    extra: e,
                    ..self.clone()
                });
            }
        }
        out
    }
}

fn only_grammars(_: Tier) -> BoxedStrategy<Case> {
    gspec::gspec()
        .prop_map(|g| Case {
            g,
            inputs: vec![],
            extra: vec![],
        })
        .boxed()
}
fn with_extra(_: Tier) -> BoxedStrategy<Case> {
    (
        gspec::gspec(),
        prop::collection::vec(ingen(24), 1..=4),
        prop::collection::vec(any::<u8>(), 8..40),
    )
        .prop_map(|(g, ins, extra)| {
            let inputs = ins.iter().map(|i| decode_input(&g, i, 30)).collect();
            Case { g, inputs, extra }
        })
        .boxed()
}
/// Inputs over the grammar's terminals: sentences, sentences with one to three edits, prefixes of
/// sentences, random strings.
fn with_inputs(_: Tier) -> BoxedStrategy<Case> {
    (gspec::gspec(), prop::collection::vec(ingen(40), 1..=8))
        .prop_map(|(g, ins)| {
            let inputs = ins.iter().map(|i| decode_input(&g, i, 60)).collect();
            Case {
                g,
                inputs,
                extra: vec![],
            }
        })
        .boxed()
}
/// Inputs over every symbol: the terminals, the non-terminals, the end of input and symbols which
/// the grammar does not have.
fn with_garbage(_: Tier) -> BoxedStrategy<Case> {
    let noise = prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..4);
    (
        gspec::gspec(),
        prop::collection::vec((ingen(30), noise), 1..=6),
    )
        .prop_map(|(g, ins)| {
            let inputs = ins
                .iter()
                .map(|(i, noise)| {
                    let mut w = decode_input(&g, i, 40);
                    for (op, at, sy) in noise {
                        let at = *at as usize % (w.len() + 1);
                        let nsym = g.rank.len();
                        let s = match op % 4 {
                            0 => *sy as usize % g.nts,
                            1 => g.nts + g.ts,
                            2 => g.nts + g.ts + 1 + *sy as usize % gspec::FOREIGN,
                            _ => *sy as usize % nsym,
                        } as u16;
                        if op & 0x80 != 0 && at < w.len() {
                            w[at] = s;
                        } else {
                            w.insert(at, s);
                        }
                    }
                    w
                })
                .collect();
            Case {
                g,
                inputs,
                extra: vec![],
            }
        })
        .boxed()
}

fn no_fixed(_: Tier) -> Vec<Case> {
    Vec::new()
}
fn enumerate(t: Tier) -> Vec<Case> {
    gspec::small_grammars(if t == Tier::Quick { 23 } else { 1 })
        .into_iter()
        .map(|g| Case {
            g,
            inputs: vec![],
            extra: vec![],
        })
        .collect()
}
fn enumerate_words(t: Tier) -> Vec<Case> {
    gspec::small_grammars(if t == Tier::Quick { 41 } else { 2 })
        .into_iter()
        .map(|g| Case {
            inputs: short_strings(&g, 63),
            g,
            extra: vec![],
        })
        .collect()
}
const ENUM_NOTE: &str = "every grammar (quick: one in 23) of the families S'->A with A, B having one or two productions of one or two symbols out of {A,B,a,b}, and S'->A with A having up to three productions of up to three symbols out of {A,a,b}";
const ENUM_WORDS_NOTE: &str = "one in 2 (quick: one in 41) of the grammars of the families S'->A with A, B having one or two productions of one or two symbols out of {A,B,a,b}, and S'->A with A having up to three productions of up to three symbols out of {A,a,b}, each with every word of up to five terminals";

/// Canonical LR(1) automata of the reference above this many states are not compared.
const CAP: usize = 1200;

/// The symbol comparisons a construction may make.
fn build_fuel(rg: &RefG, states: usize) -> u64 {
    40_000_000 + 100_000 * states as u64 + 20_000 * (rg.prods.len() as u64).pow(2)
}

struct Refs {
    rg: RefG,
    slr: Auto,
    lalr: Auto,
    clr: Auto,
}
impl Refs {
    fn new(g: &GSpec) -> Option<Self> {
        let rg = RefG::new(g);
        let (clr, lalr) = rg.lr1_lalr(CAP)?;
        let slr = rg.slr();
        Some(Self { rg, slr, lalr, clr })
    }
    fn class(&self) -> &'static str {
        if self.slr.conflicts() == 0 {
            "SLR(1)"
        } else if self.lalr.conflicts() == 0 {
            "LALR(1), not SLR(1)"
        } else if self.clr.conflicts() == 0 {
            "LR(1), not LALR(1)"
        } else {
            "not LR(1)"
        }
    }
    fn auto(&self, k: Kind) -> &Auto {
        match k {
            Kind::Slr => &self.slr,
            Kind::Lalr => &self.lalr,
            Kind::Clr => &self.clr,
        }
    }
    fn fuel(&self) -> u64 {
        build_fuel(&self.rg, self.clr.rows.len())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Slr,
    Lalr,
    Clr,
}
impl Kind {
    const ALL: [Self; 3] = [Self::Slr, Self::Lalr, Self::Clr];
    fn name(self) -> &'static str {
        match self {
            Self::Slr => "SLR",
            Self::Lalr => "LALR",
            Self::Clr => "canonical LR(1)",
        }
    }
}

/// The three parsers behind one type.
#[derive(Clone)]
enum P {
    Slr(Slr<Sy>),
    Lalr(Lalr<Sy>),
    Clr(Clr<Sy>),
}
macro_rules! each {
    ($s:expr, $p:ident => $e:expr) => {
        match $s {
            P::Slr($p) => $e,
            P::Lalr($p) => $e,
            P::Clr($p) => $e,
        }
    };
}
impl P {
    fn build(k: Kind, g: Grammar<Sy>) -> Self {
        match k {
            Kind::Slr => Self::Slr(Slr::new(g)),
            Kind::Lalr => Self::Lalr(Lalr::new(g)),
            Kind::Clr => Self::Clr(Clr::new(g)),
        }
    }
    fn tables(&self) -> &Tabler<Sy> {
        each!(self, p => p.tables())
    }
    fn conflicts(&self) -> usize {
        self.tables().conflicts().count()
    }
    fn reduce_equals(&mut self) {
        each!(self, p => p.reduce_equals());
    }
    fn dfa<M: Clone, I: Iterator<Item = Token<M, Sy>>>(
        &self,
        i: I,
        m: ReductMap<M, Sy>,
    ) -> Dfa<M, Sy, I> {
        each!(self, p => p.dfa(i, m))
    }
    fn parse_unit(&self, toks: Vec<Token<(), Sy>>) -> Result<(), Error<Sy>> {
        each!(self, p => p.parse(toks, p.empty::<std::vec::IntoIter<Token<(), Sy>>>()))
    }
    fn validate(&self, toks: Vec<Token<(), Sy>>) -> bool {
        each!(self, p => p.validate(toks))
    }
}

fn build(k: Kind, g: &GSpec, fuel: u64) -> Result<P, String> {
    guard(fuel, || P::build(k, g.grammar()))
        .map_err(|e| format!("building the {} table {e}", k.name()))
}
fn toks(g: &GSpec, w: &[u16]) -> Vec<Token<(), Sy>> {
    w.iter().map(|t| Token::new((), g.sy(*t))).collect()
}
fn parse_fuel(w: &[u16]) -> u64 {
    2_000_000 + 40_000 * w.len() as u64
}
fn bit(g: &GSpec, s: u16) -> Option<usize> {
    let s = s as usize;
    (s >= g.nts && s <= g.nts + g.ts).then(|| s - g.nts)
}
fn bits(g: &GSpec, s: &Set<Sy>) -> Result<Bits, String> {
    let mut b = 0;
    for x in s {
        match bit(g, x.id) {
            Some(i) => b |= 1 << i,
            None => return Err(format!("holds {}, which is no terminal", g.name(x.id))),
        }
    }
    Ok(b)
}
fn set_text(g: &GSpec, b: Bits) -> String {
    let v: Vec<String> = (0..=g.ts)
        .filter(|i| b >> i & 1 == 1)
        .map(|i| g.name((g.nts + i) as u16))
        .collect();
    format!("{{{}}}", v.join(" "))
}
fn word(g: &GSpec, w: &[u16]) -> String {
    format!("\"{}\"", g.words(w))
}

// ---------------------------------------------------------------------------------------------
// C01-C03: accepted language

/// Errors which stand for a token that cannot be there. Where the end marker is a terminal like the
/// others, an end of input in its place and a marker in place of the end of input have errors of
/// their own.
fn unexpected(g: &GSpec, e: &Error<Sy>) -> bool {
    match e {
        Error::UnexpectedToken(..) => true,
        Error::UnexpectedEof | Error::IncompleteExec => g.ends(),
        _ => false,
    }
}

fn language(k: Kind, c: &Case, r: &mut Rec) -> Verdict {
    let Some(rf) = Refs::new(&c.g) else {
        r.label("skipped: reference automaton too large");
        return Ok(());
    };
    let clean = rf.auto(k).conflicts() == 0;
    r.label(&format!("grammar {}", rf.class()));
    if rf.slr.rows.len() > 255 {
        r.label("more than 255 states");
    }
    let p = build(k, &c.g, rf.fuel())?;
    if !clean && c.g.cyclic() {
        r.label("skipped: rule cycle");
        return Ok(());
    }
    for w in &c.inputs {
        let Some(e) = rf.rg.earley(w) else {
            r.label("skipped: word too ambiguous for the recogniser");
            continue;
        };
        r.eval();
        let inl = e.accepts;
        let res = guard(parse_fuel(w), || p.parse_unit(toks(&c.g, w)))
            .map_err(|e| format!("{} parser on {}: {e}", k.name(), word(&c.g, w)))?;
        let valid = guard(parse_fuel(w), || p.validate(toks(&c.g, w)))
            .map_err(|e| format!("{} validate on {}: {e}", k.name(), word(&c.g, w)))?;
        ensure!(
            valid == res.is_ok(),
            "validate says {valid} for {}, parse says {res:?}",
            word(&c.g, w)
        );
        match &res {
            Ok(()) => ensure!(
                inl,
                "the {} parser accepts {}, which the grammar does not derive",
                k.name(),
                word(&c.g, w)
            ),
            Err(e) if unexpected(&c.g, e) => ensure!(
                !inl,
                "the {} parser rejects {}, which the grammar derives: {res:?}",
                k.name(),
                word(&c.g, w)
            ),
            Err(Error::Conflict(..)) => {
                ensure!(
                    !clean,
                    "the {} parser stops at a conflict on {} although the grammar has none: {res:?}",
                    k.name(),
                    word(&c.g, w)
                );
                r.label("stopped at a conflict");
            }
            Err(e) => {
                return Err(format!(
                    "the {} parser fails on {} with {e:?}",
                    k.name(),
                    word(&c.g, w)
                ))
            }
        }
        if clean {
            r.label(if inl { "word in the language" } else { "word outside" });
            if w.len() >= 2 && c.g.n_prods() >= 3 {
                r.nontrivial((&c.g.prods, w), || {
                    format!("{} on {}: {}", c.g.text(), word(&c.g, w), if inl { "in" } else { "out" })
                });
            }
        }
    }
    Ok(())
}
const LANG_RULE: &str = "A case is a generated grammar (random, marked, textbook gadgets, repository grammars with edits; random symbol order) with up to eight words (sentences, edited sentences, prefixes, random) or, for the enumerated grammars, all words up to length five; an evaluation is one word. Non-trivial: the grammar is free of conflicts in this class by the reference construction, has at least three productions, and the word has at least two tokens; counted by distinct (productions, word).";
const LANG_ASSUME: &[&str] = &["the Earley recogniser and the reference LR constructions of the harness are right (they share no code with the library)", "grammars have one entry production, no empty production, and the entry symbol on no right-hand side"];

pub static C01: Spec<Case> = Spec {
    id: "C01",
    rule: LANG_RULE,
    assumptions: LANG_ASSUME,
    strategy: with_inputs,
    run: |c, r| language(Kind::Clr, c, r),
    fixed: enumerate_words,
    fixed_note: ENUM_WORDS_NOTE,
    quick: 40000,
    thorough: 1500000,
};
pub static C02: Spec<Case> = Spec {
    id: "C02",
    run: |c, r| language(Kind::Lalr, c, r),
    ..C01
};
pub static C03: Spec<Case> = Spec {
    id: "C03",
    run: |c, r| language(Kind::Slr, c, r),
    ..C01
};

// ---------------------------------------------------------------------------------------------
// C04: tables and conflicts against the textbook constructions

fn flatten(a: &Action<Sy>, out: &mut Vec<Action<Sy>>) {
    if let Action::Conflict(x, y) = a {
        flatten(x, out);
        flatten(y, out);
    } else {
        out.push(a.clone());
    }
}

/// Walks the library's table and the reference automaton together from their first states.
fn same_table(k: Kind, g: &GSpec, tab: &Tabler<Sy>, auto: &Auto) -> Result<usize, String> {
    let acts = &tab.actions;
    ensure!(!acts.is_empty(), "the {} table is empty", k.name());
    let mut of: HashMap<usize, usize> = HashMap::from([(0, 0)]);
    let mut q = VecDeque::from([(0usize, 0usize, Vec::<u16>::new())]);
    while let Some((ls, rs, path)) = q.pop_front() {
        let at = || format!("{} table, state after {}", k.name(), word(g, &path));
        let row = acts
            .get(ls)
            .ok_or_else(|| format!("{}: no state {ls} in the table", at()))?;
        let rrow = &auto.rows[rs];
        let mut goes: Vec<(u16, usize, usize)> = Vec::new();
        let mut gotos = BTreeSet::new();
        let mut terms: BTreeMap<usize, BTreeSet<Act>> = BTreeMap::new();
        for (s, a) in row {
            let mut v = Vec::new();
            flatten(a, &mut v);
            for a in v {
                match (bit(g, s.id), a) {
                    (None, Action::Goto(to)) => {
                        let Some(rt) = rrow.goto.get(&s.id) else {
                            return Err(format!("{}: a transition on {} too much", at(), g.name(s.id)));
                        };
                        gotos.insert(s.id);
                        goes.push((s.id, to, *rt));
                    }
                    (Some(b), Action::Shift(to)) => {
                        let rt = rrow.acts.get(&b).and_then(|x| {
                            x.iter().find_map(|a| match a {
                                Act::Shift(t) => Some(*t),
                                _ => None,
                            })
                        });
                        let Some(rt) = rt else {
                            return Err(format!("{}: a shift of {} too much", at(), g.name(s.id)));
                        };
                        terms.entry(b).or_default().insert(Act::Shift(rt));
                        goes.push((s.id, to, rt));
                    }
                    (Some(b), Action::Reduce(name, prod)) => {
                        let l = name.id;
                        ensure!(
                            (l as usize) < g.nts && prod.1 < g.prods[l as usize].len(),
                            "{}: a reduction by an unknown production {name:?} {prod:?}",
                            at()
                        );
                        let seq: Vec<u16> = prod.0.iter().map(|x| x.id).collect();
                        ensure!(
                            g.prods[l as usize][prod.1] == seq,
                            "{}: reduces {} by {:?}, which is not its production {}",
                            at(),
                            g.name(l),
                            g.words(&seq),
                            prod.1
                        );
                        terms
                            .entry(b)
                            .or_default()
                            .insert(Act::Reduce(g.prod_id(l, prod.1)));
                    }
                    (Some(b), Action::Acc) => {
                        terms.entry(b).or_default().insert(Act::Acc);
                    }
                    (_, a) => {
                        return Err(format!("{}: {a:?} on {}", at(), g.name(s.id)));
                    }
                }
            }
        }
        if terms != rrow.acts {
            let all: BTreeSet<usize> = terms.keys().chain(rrow.acts.keys()).copied().collect();
            for b in all {
                let e = BTreeSet::new();
                let (x, y) = (
                    terms.get(&b).unwrap_or(&e),
                    rrow.acts.get(&b).unwrap_or(&e),
                );
                ensure!(
                    x == y,
                    "{}, on {}: the table has {}, the construction gives {}",
                    at(),
                    g.name((g.nts + b) as u16),
                    acts_text(g, x),
                    acts_text(g, y)
                );
            }
        }
        ensure!(
            gotos.len() == rrow.goto.len(),
            "{}: transitions on {:?} only",
            at(),
            gotos.iter().map(|x| g.name(*x)).collect::<Vec<_>>()
        );
        for (s, lt, rt) in goes {
            let mut p = path.clone();
            p.push(s);
            match of.get(&lt) {
                Some(x) => ensure!(
                    *x == rt,
                    "{} table: the state after {} is shared with another one of the construction",
                    k.name(),
                    word(g, &p)
                ),
                None => {
                    of.insert(lt, rt);
                    q.push_back((lt, rt, p));
                }
            }
        }
    }
    Ok(of.len())
}
fn acts_text(g: &GSpec, a: &BTreeSet<Act>) -> String {
    let v: Vec<String> = a
        .iter()
        .map(|a| match a {
            Act::Shift(_) => "shift".to_string(),
            Act::Acc => "accept".to_string(),
            Act::Reduce(p) => {
                let mut i = *p;
                let mut l = 0;
                while i >= g.prods[l].len() {
                    i -= g.prods[l].len();
                    l += 1;
                }
                format!("reduce {} -> {}", g.name(l as u16), g.words(&g.prods[l][i]))
            }
        })
        .collect();
    if v.is_empty() {
        "nothing".into()
    } else {
        v.join(" / ")
    }
}

fn tables(c: &Case, r: &mut Rec) -> Verdict {
    let Some(rf) = Refs::new(&c.g) else {
        r.label("skipped: reference automaton too large");
        return Ok(());
    };
    r.label(&format!("grammar {}", rf.class()));
    if rf.slr.rows.len() > 255 {
        r.label("more than 255 states");
    }
    let mut zero = Vec::new();
    for k in Kind::ALL {
        r.eval();
        let p = build(k, &c.g, rf.fuel())?;
        let n = p.conflicts();
        let want = rf.auto(k).conflicts();
        if k == Kind::Clr {
            ensure!(
                (n == 0) == (want == 0),
                "the canonical LR(1) table reports {n} conflicts, the construction gives {want}"
            );
        } else {
            ensure!(
                n == want,
                "the {} table reports {n} conflicts, the construction gives {want}",
                k.name()
            );
            ensure!(
                p.tables().actions.len() == rf.auto(k).rows.len(),
                "the {} table has {} states, the construction gives {}",
                k.name(),
                p.tables().actions.len(),
                rf.auto(k).rows.len()
            );
        }
        same_table(k, &c.g, p.tables(), rf.auto(k))?;
        zero.push(n == 0);
    }
    ensure!(
        (!zero[0] || zero[1]) && (!zero[1] || zero[2]),
        "conflict-free: SLR {}, LALR {}, LR(1) {}",
        zero[0],
        zero[1],
        zero[2]
    );
    if rf.slr.rows.len() >= 5 {
        r.nontrivial((&c.g.prods, &c.g.rank), || {
            format!(
                "{} [{}; {} LR(0) states, {} LR(1) states]",
                c.g.text(),
                rf.class(),
                rf.slr.rows.len(),
                rf.clr.rows.len()
            )
        });
    }
    Ok(())
}
pub static C04: Spec<Case> = Spec {
    id: "C04",
    rule: "A case is a generated or enumerated grammar under a generated symbol order; an evaluation is one of its three tables, walked together with the reference automaton from the first state over every transition. Non-trivial: the LR(0) automaton has at least five states; counted by distinct (productions, symbol order).",
    assumptions: LANG_ASSUME,
    strategy: only_grammars,
    run: tables,
    fixed: enumerate,
    fixed_note: ENUM_NOTE,
    quick: 30000,
    thorough: 1200000,
};

// ---------------------------------------------------------------------------------------------
// C05, C06: FIRST and FOLLOW

fn tabler(g: &GSpec) -> Result<Tabler<Sy>, String> {
    guard(50_000_000, || Tabler::new(g.grammar()))
        .map_err(|e| format!("computing FIRST and FOLLOW {e}"))
}
fn left_cycle(g: &GSpec) -> bool {
    g.prods
        .iter()
        .enumerate()
        .any(|(l, r)| r.iter().any(|p| (p[0] as usize) < g.nts && p[0] as usize != l && l > 0))
}
fn first(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let rg = RefG::new(g);
    let t = tabler(g)?;
    r.eval();
    ensure!(
        t.first.len() == g.nts,
        "FIRST has {} entries for {} rules",
        t.first.len(),
        g.nts
    );
    for l in 0..g.nts as u16 {
        let set = t
            .first
            .get(&g.sy(l))
            .ok_or_else(|| format!("no FIRST set for {}", g.name(l)))?;
        let b = bits(g, set).map_err(|e| format!("FIRST({}) {e}", g.name(l)))?;
        ensure!(
            b == rg.first[l as usize],
            "FIRST({}) is {}, by definition {}",
            g.name(l),
            set_text(g, b),
            set_text(g, rg.first[l as usize])
        );
    }
    // the union over a set of symbols
    let mut q = Set::new();
    let mut want = 0;
    for x in c.extra.iter().take(5) {
        let s = u16::from(*x) % (g.nts + g.ts + 1) as u16;
        q.insert(g.sy(s));
        want |= rg.first_sym(s);
        let got = guard(1_000_000, || t.first_of(&q)).map_err(|e| format!("first_of {e}"))?;
        let b = bits(g, &got).map_err(|e| format!("first_of({q:?}) {e}"))?;
        ensure!(
            b == want,
            "FIRST of the set {q:?} is {}, by definition {}",
            set_text(g, b),
            set_text(g, want)
        );
    }
    if g.nts >= 3 && left_cycle(g) {
        r.nontrivial((&g.prods, &g.rank), || {
            format!("{} [FIRST({}) = {}]", g.text(), g.name(1), set_text(g, rg.first[1]))
        });
    }
    Ok(())
}
fn follow(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let rg = RefG::new(g);
    let t = tabler(g)?;
    r.eval();
    for l in 0..g.nts as u16 {
        let b = match t.follow.get(&g.sy(l)) {
            Some(s) => bits(g, s).map_err(|e| format!("FOLLOW({}) {e}", g.name(l)))?,
            None => 0,
        };
        ensure!(
            b == rg.follow[l as usize],
            "FOLLOW({}) is {}, by definition {}",
            g.name(l),
            set_text(g, b),
            set_text(g, rg.follow[l as usize])
        );
    }
    for s in t.follow.keys() {
        ensure!(
            (s.id as usize) < g.nts,
            "a FOLLOW set for {}, which is no rule",
            g.name(s.id)
        );
    }
    let tail = g
        .prods
        .iter()
        .enumerate()
        .skip(1)
        .any(|(l, r)| r.iter().any(|p| (p[p.len() - 1] as usize) < g.nts && p[p.len() - 1] as usize != l));
    if g.nts >= 3 && tail {
        r.nontrivial((&g.prods, &g.rank), || {
            format!("{} [FOLLOW({}) = {}]", g.text(), g.name(1), set_text(g, rg.follow[1]))
        });
    }
    Ok(())
}
/// Also grammars with rules that derive no sentence or are not reachable.
fn any_grammars(_: Tier) -> BoxedStrategy<Case> {
    (
        prop_oneof![3 => gspec::gspec(), 1 => gspec::wild()],
        prop::collection::vec(any::<u8>(), 0..6),
    )
        .prop_map(|(g, extra)| Case {
            g,
            inputs: vec![],
            extra,
        })
        .boxed()
}
pub static C05: Spec<Case> = Spec {
    id: "C05",
    rule: "A case is a generated or enumerated grammar (also with unreachable and unproductive rules) under a generated symbol order, and a set of symbols. Non-trivial: at least three rules, one of which starts a production with another rule; counted by distinct (productions, symbol order).",
    assumptions: &["the textbook least fixed point is what FIRST means"],
    strategy: any_grammars,
    run: first,
    fixed: enumerate,
    fixed_note: ENUM_NOTE,
    quick: 300000,
    thorough: 12000000,
};
pub static C06: Spec<Case> = Spec {
    id: "C06",
    rule: "A case is a generated or enumerated grammar, all rules reachable, under a generated symbol order. Non-trivial: at least three rules, one of which ends a production with another rule; counted by distinct (productions, symbol order).",
    assumptions: &["the textbook least fixed point is what FOLLOW means"],
    strategy: only_grammars,
    run: follow,
    ..C05
};

// ---------------------------------------------------------------------------------------------
// reductors which record what they are called with

#[derive(Debug, Clone, PartialEq, Eq)]
enum Val {
    Leaf(usize),
    Node(Rc<Node>),
}
#[derive(Debug, PartialEq, Eq)]
struct Node {
    prod: usize,
    kids: Vec<(u16, Val)>,
}
thread_local! {
    /// production and number of tokens read so far, for every reduction in order
    static CALLS: RefCell<Vec<(usize, usize, bool)>> = const { RefCell::new(Vec::new()) };
    static PULLED: Cell<(usize, bool)> = const { Cell::new((0, false)) };
}
fn red<const K: usize>(t: &[Token<Val, Sy>]) -> Val {
    let (n, end) = PULLED.with(Cell::get);
    CALLS.with(|c| c.borrow_mut().push((K, n, end)));
    Val::Node(Rc::new(Node {
        prod: K,
        kids: t.iter().map(|t| (t.ty.id, t.item.clone())).collect(),
    }))
}
macro_rules! reds {
    ($($k:literal)*) => { [$(red::<$k>),*] };
}
const REDS: [lrp::ReductFn<Val, Sy>; 320] = reds!(
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23
    24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47
    48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71
    72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95
    96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119
    120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
    144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167
    168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
    192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215
    216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
    240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259 260 261 262 263
    264 265 266 267 268 269 270 271 272 273 274 275 276 277 278 279 280 281 282 283 284 285 286 287
    288 289 290 291 292 293 294 295 296 297 298 299 300 301 302 303 304 305 306 307 308 309 310 311
    312 313 314 315 316 317 318 319
);

fn reductors(g: &GSpec) -> Option<ReductMap<Val, Sy>> {
    if g.n_prods() > REDS.len() {
        return None;
    }
    let mut m = Map::new();
    let mut n = 0;
    for (l, r) in g.prods.iter().enumerate() {
        let v: Vec<_> = (0..r.len()).map(|i| REDS[n + i]).collect();
        n += r.len();
        m.insert(g.sy(l as u16), v);
    }
    Some(m)
}

/// A token source which notes how far it was read.
#[derive(Clone)]
struct Source {
    toks: Rc<Vec<Sy>>,
    at: usize,
}
impl Iterator for Source {
    type Item = Token<Val, Sy>;
    fn next(&mut self) -> Option<Self::Item> {
        let i = self.at;
        if i < self.toks.len() {
            self.at += 1;
            PULLED.with(|p| p.set((self.at, false)));
            Some(Token::new(Val::Leaf(i), self.toks[i]))
        } else {
            PULLED.with(|p| p.set((i, true)));
            None
        }
    }
}
fn source(g: &GSpec, w: &[u16]) -> Source {
    PULLED.with(|p| p.set((0, false)));
    CALLS.with(|c| c.borrow_mut().clear());
    Source {
        toks: Rc::new(w.iter().map(|t| g.sy(*t)).collect()),
        at: 0,
    }
}

/// Checks that the values are a derivation of the word by the entry production, and gives the
/// productions in the order in which a bottom-up parse applies them.
fn derivation(g: &GSpec, w: &[u16], items: &[(u16, Val)]) -> Result<Vec<usize>, String> {
    fn walk(
        g: &GSpec,
        w: &[u16],
        s: u16,
        v: &Val,
        at: &mut usize,
        out: &mut Vec<usize>,
    ) -> Result<(), String> {
        match v {
            Val::Leaf(i) => {
                ensure!(
                    *i == *at && w.get(*i) == Some(&s),
                    "the value of token {i} stands where token {at} ({}) belongs",
                    g.name(s)
                );
                *at += 1;
            }
            Val::Node(n) => {
                let mut i = n.prod;
                let mut l = 0;
                while i >= g.prods[l].len() {
                    i -= g.prods[l].len();
                    l += 1;
                }
                ensure!(
                    l as u16 == s,
                    "the value for {} was made by a reductor of {}",
                    g.name(s),
                    g.name(l as u16)
                );
                let kids: Vec<u16> = n.kids.iter().map(|k| k.0).collect();
                ensure!(
                    kids == g.prods[l][i],
                    "the reductor of {} -> {} was called with {}",
                    g.name(s),
                    g.words(&g.prods[l][i]),
                    g.words(&kids)
                );
                for (s, v) in &n.kids {
                    walk(g, w, *s, v, at, out)?;
                }
                out.push(n.prod);
            }
        }
        Ok(())
    }
    let tys: Vec<u16> = items.iter().map(|i| i.0).collect();
    ensure!(
        tys == g.prods[0][0],
        "the parser ends with the symbols {}, the entry production is {}",
        g.words(&tys),
        g.words(&g.prods[0][0])
    );
    let mut at = 0;
    let mut out = Vec::new();
    for (s, v) in items {
        walk(g, w, *s, v, &mut at, &mut out)?;
    }
    ensure!(at == w.len(), "the values cover {at} of {} tokens", w.len());
    Ok(out)
}

fn reductions(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let Some(rf) = Refs::new(g) else {
        r.label("skipped: reference automaton too large");
        return Ok(());
    };
    let Some(maps) = reductors(g) else {
        r.label("skipped: more productions than reductors");
        return Ok(());
    };
    if rf.clr.conflicts() > 0 {
        r.label("skipped: not LR(1)");
        return Ok(());
    }
    for k in Kind::ALL {
        if rf.auto(k).conflicts() > 0 {
            continue;
        }
        let p = build(k, g, rf.fuel())?;
        for w in &c.inputs {
            let Some(e) = rf.rg.earley(w) else {
                r.label("skipped: word too ambiguous for the recogniser");
                continue;
            };
            if !e.accepts {
                r.label("word outside the language");
                continue;
            }
            r.eval();
            let at = || format!("{} parser on {}", k.name(), word(g, w));
            let mut d = p.dfa(source(g, w), maps.clone());
            let res = guard(parse_fuel(w), || d.start()).map_err(|e| format!("{}: {e}", at()))?;
            ensure!(res.is_ok(), "{}: {res:?}", at());
            let items: Vec<(u16, Val)> = d.items.iter().map(|t| (t.ty.id, t.item.clone())).collect();
            let want = derivation(g, w, &items).map_err(|e| format!("{}: {e}", at()))?;
            let calls: Vec<usize> = CALLS.with(|c| c.borrow().iter().map(|c| c.0).collect());
            ensure!(
                calls == want,
                "{}: reductors were called for the productions {calls:?}, the rightmost derivation backwards is {want:?}",
                at()
            );
            // the convenience entry point gives the value of the last symbol
            let v = guard(parse_fuel(w), || {
                each!(&p, p => p.parse(source(g, w), maps.clone()))
            })
            .map_err(|e| format!("{}: {e}", at()))?;
            match v {
                Ok(v) if g.prods[0][0].len() == 1 => ensure!(
                    v == items[0].1,
                    "{}: parse gives {v:?}, the value built is {:?}",
                    at(),
                    items[0].1
                ),
                Ok(_) => {}
                Err(e) => return Err(format!("{}: parse fails with {e:?}", at())),
            }
            r.label(k.name());
            if want.len() >= 3 && w.len() >= 3 {
                r.nontrivial((&g.prods, w), || {
                    format!("{} on {}: {} reductions", g.text(), word(g, w), want.len())
                });
            }
        }
    }
    Ok(())
}
pub static C07: Spec<Case> = Spec {
    id: "C07",
    rule: "A case is a generated grammar with up to eight words; an evaluation is one word of the language parsed by one construction that has no conflict, with reductors that record production, arguments and order. Non-trivial: at least three reductions and three tokens; counted by distinct (productions, word).",
    assumptions: LANG_ASSUME,
    strategy: with_inputs,
    run: reductions,
    fixed: enumerate_words,
    fixed_note: ENUM_WORDS_NOTE,
    quick: 50000,
    thorough: 1500000,
};

// ---------------------------------------------------------------------------------------------
// C08: error reports

fn errors(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let Some(rf) = Refs::new(g) else {
        r.label("skipped: reference automaton too large");
        return Ok(());
    };
    let Some(maps) = reductors(g) else {
        r.label("skipped: more productions than reductors");
        return Ok(());
    };
    for k in Kind::ALL {
        if rf.auto(k).conflicts() > 0 {
            r.label("skipped: conflicts");
            continue;
        }
        let p = build(k, g, rf.fuel())?;
        for w in &c.inputs {
            let Some(e) = rf.rg.earley(w) else {
                r.label("skipped: word too ambiguous for the recogniser");
                continue;
            };
            let Some(pos) = e.err else {
                r.label("word in the language");
                continue;
            };
            r.eval();
            let at = || format!("{} parser on {}", k.name(), word(g, w));
            let mut d = p.dfa(source(g, w), maps.clone());
            let res = guard(parse_fuel(w), || d.start()).map_err(|e| format!("{}: {e}", at()))?;
            let found = w.get(pos).copied().unwrap_or(g.eof());
            let told = match &res {
                Err(Error::UnexpectedToken(t, exp)) => {
                    ensure!(
                        t.id == found,
                        "{}: blames {}, the first token no sentence can go on with is {} (token {pos})",
                        at(),
                        g.name(t.id),
                        g.name(found)
                    );
                    Some((t, exp))
                }
                // a marker could stand here, but the input ends
                Err(Error::UnexpectedEof) if g.ends() && pos == w.len() => None,
                // the input could end here, but there is a marker
                Err(Error::IncompleteExec) if g.ends() && w.get(pos) == Some(&g.eof()) => None,
                _ => {
                    return Err(format!(
                        "{}: {res:?} instead of an unexpected {}",
                        at(),
                        g.name(found)
                    ))
                }
            };
            // what stands on the stack is exactly what precedes the token
            fn leaves(v: &Val, out: &mut Vec<usize>) {
                match v {
                    Val::Leaf(i) => out.push(*i),
                    Val::Node(n) => n.kids.iter().for_each(|k| leaves(&k.1, out)),
                }
            }
            let mut ls = Vec::new();
            d.items.iter().for_each(|t| leaves(&t.item, &mut ls));
            ensure!(
                ls == (0..pos).collect::<Vec<_>>(),
                "{}: the stack stands for the tokens {ls:?}, the error is at token {pos}",
                at()
            );
            let next = d.buffer.next();
            match (next, w.get(pos)) {
                (None, None) => {}
                (Some(t), Some(x)) if t.ty.id == *x && t.item == Val::Leaf(pos) => {}
                (n, _) => {
                    return Err(format!(
                        "{}: the next token of the input is {n:?}, the unexpected one is token {pos}",
                        at()
                    ))
                }
            }
            ensure!(
                PULLED.with(Cell::get).0 <= pos + 1,
                "{}: read {} tokens for an error at token {pos}",
                at(),
                PULLED.with(Cell::get).0
            );
            if let Some((t, exp)) = told {
                ensure!(
                    !exp.iter().any(|s| s.id == found),
                    "{}: {} is unexpected and expected",
                    at(),
                    g.name(found)
                );
                // what is printed names the token and all that is expected, and nothing else
                let text = Error::UnexpectedToken(*t, exp.clone()).to_string();
                let named = named_in(&text);
                let named_by: BTreeSet<u16> = exp.iter().map(|s| s.id).chain([found]).collect();
                ensure!(
                    named == named_by,
                    "{}: the message {text:?} names other symbols than {} and {:?}",
                    at(),
                    t,
                    exp
                );
                let terms: Set<Sy> = exp.iter().filter(|s| bit(g, s.id).is_some()).copied().collect();
                let b = bits(g, &terms)?;
                if k == Kind::Clr {
                    ensure!(
                        b == e.expected[pos],
                        "{}: expects {}, a sentence can go on with {}",
                        at(),
                        set_text(g, b),
                        set_text(g, e.expected[pos])
                    );
                    let late = CALLS.with(|c| {
                        c.borrow()
                            .iter()
                            .filter(|c| if pos < w.len() { c.1 > pos } else { c.2 })
                            .count()
                    });
                    ensure!(
                        late == 0,
                        "{}: {late} reductions were made looking at the unexpected token",
                        at()
                    );
                } else {
                    ensure!(b != 0, "{}: no terminal is expected", at());
                }
            } else {
                r.label("end marker for the end of input or the other way round");
            }
            r.label(&format!("{}, {}", k.name(), if pos < w.len() { "token" } else { "end of input" }));
            if pos >= 2 {
                r.nontrivial((&g.prods, w), || {
                    format!(
                        "{} on {}: error at token {pos}, expecting {}",
                        g.text(),
                        word(g, w),
                        set_text(g, e.expected[pos])
                    )
                });
            }
        }
    }
    Ok(())
}
pub static C08: Spec<Case> = Spec {
    id: "C08",
    rule: "A case is a generated grammar with up to eight words; an evaluation is one word outside the language given to one construction that has no conflict. Non-trivial: at least two tokens precede the error; counted by distinct (productions, word).",
    assumptions: LANG_ASSUME,
    strategy: with_inputs,
    run: errors,
    fixed: enumerate_words,
    fixed_note: ENUM_WORDS_NOTE,
    quick: 50000,
    thorough: 1500000,
};

// ---------------------------------------------------------------------------------------------
// C22: the way through a table, conflicts and all

#[derive(Debug, PartialEq)]
enum Way {
    Accept,
    /// the actions among which the table does not choose
    Torn(BTreeSet<Act>),
    Blame(Bits),
    EndMissing,
    InputLeft,
}
/// Follows a reference table: how it ends, the stack and tokens consumed then, the productions
/// reduced. `None`: without an end, as rule cycles may be.
#[allow(clippy::type_complexity)]
fn follow_table(g: &GSpec, rg: &RefG, auto: &Auto, w: &[u16]) -> Option<(Way, Vec<(u16, Val)>, usize, Vec<usize>)> {
    let (mut states, mut items, mut at, mut reds) = (vec![0usize], Vec::<(u16, Val)>::new(), 0, Vec::new());
    let mut left = 400 + 60 * w.len();
    let way = loop {
        left = left.checked_sub(1)?;
        let row = &auto.rows[*states.last()?];
        let b = bit(g, w.get(at).copied().unwrap_or(g.eof()))?;
        let Some(acts) = row.acts.get(&b) else {
            break Way::Blame(row.acts.keys().map(|b| 1 << b).sum());
        };
        if acts.len() > 1 {
            break Way::Torn(acts.iter().map(|a| if let Act::Shift(_) = a { Act::Shift(0) } else { a.clone() }).collect());
        }
        match acts.first()? {
            Act::Shift(_) if at == w.len() => break Way::EndMissing,
            Act::Shift(to) => {
                items.push((w[at], Val::Leaf(at)));
                states.push(*to);
                at += 1;
            }
            Act::Reduce(p) => {
                let (l, _, rhs) = &rg.prods[*p];
                let kids = items.split_off(items.len() - rhs.len());
                states.truncate(states.len() - rhs.len());
                items.push((*l, Val::Node(Rc::new(Node { prod: *p, kids }))));
                states.push(auto.rows[*states.last()?].goto[l]);
                reds.push(*p);
            }
            Act::Acc if at == w.len() => break Way::Accept,
            Act::Acc => break Way::InputLeft,
        }
    };
    Some((way, items, at, reds))
}
fn named_in(text: &str) -> BTreeSet<u16> {
    text.split('#')
        .skip(1)
        .filter_map(|x| x.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok())
        .collect()
}
fn torn(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let Some(rf) = Refs::new(g) else {
        r.label("skipped: reference automaton too large");
        return Ok(());
    };
    let Some(maps) = reductors(g) else {
        r.label("skipped: more productions than reductors");
        return Ok(());
    };
    for k in Kind::ALL {
        let conflicts = rf.auto(k).conflicts() > 0;
        let p = build(k, g, rf.fuel())?;
        for w in &c.inputs {
            let Some((way, items, used, reds)) = follow_table(g, &rf.rg, rf.auto(k), w) else {
                r.label("skipped: the table leads nowhere, or the input has other symbols");
                continue;
            };
            r.eval();
            let at = || format!("{} parser on {}", k.name(), word(g, w));
            let mut d = p.dfa(source(g, w), maps.clone());
            let res = guard(parse_fuel(w), || d.start()).map_err(|e| format!("{}: {e}", at()))?;
            match (&res, &way) {
                (Ok(()), Way::Accept)
                | (Err(Error::UnexpectedEof), Way::EndMissing)
                | (Err(Error::IncompleteExec), Way::InputLeft) => {}
                (Err(Error::Conflict(a, b)), Way::Torn(want)) => {
                    let mut v = Vec::new();
                    flatten(a, &mut v);
                    flatten(b, &mut v);
                    let (mut have, mut syms, mut lhs) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
                    for x in v {
                        have.insert(match x {
                            Action::Shift(_) => Act::Shift(0),
                            Action::Acc => Act::Acc,
                            Action::Reduce(n, q) if bit(g, n.id).is_none() && q.1 < g.prods[n.id as usize].len() => {
                                syms.insert(n.id);
                                lhs.insert(n.id);
                                syms.extend(q.0.iter().map(|s| s.id));
                                Act::Reduce(g.prod_id(n.id, q.1))
                            }
                            x => return Err(format!("{}: a conflict with {x:?}", at())),
                        });
                    }
                    ensure!(
                        have == *want,
                        "{}: the error names {}, the table has {}",
                        at(),
                        acts_text(g, &have),
                        acts_text(g, want)
                    );
                    let text = Error::Conflict(a.clone(), b.clone()).to_string();
                    let named = named_in(&text);
                    ensure!(
                        named.is_superset(&lhs) && named.is_subset(&syms),
                        "{}: the message {text:?} names {named:?}, the actions are {a:?} and {b:?}",
                        at()
                    );
                }
                (Err(Error::UnexpectedToken(t, exp)), Way::Blame(want)) => {
                    let found = w.get(used).copied().unwrap_or(g.eof());
                    let b: Bits = exp.iter().filter_map(|s| bit(g, s.id)).fold(0, |x, b| x | 1 << b);
                    ensure!(
                        t.id == found && b == *want,
                        "{}: {} instead of {}, expecting {}",
                        at(),
                        res.as_ref().err().map(ToString::to_string).unwrap_or_default(),
                        g.name(found),
                        set_text(g, *want)
                    );
                }
                _ => return Err(format!("{}: {res:?}, the table leads to {way:?}", at())),
            }
            let have: Vec<(u16, Val)> = d.items.iter().map(|t| (t.ty.id, t.item.clone())).collect();
            ensure!(
                have == items,
                "{}: the stack holds {have:?} at the end, following the table {items:?}",
                at()
            );
            let rest: Vec<Val> = d.buffer.by_ref().map(|t| t.item).collect();
            ensure!(
                rest == (used..w.len()).map(Val::Leaf).collect::<Vec<_>>(),
                "{}: {} tokens are left, {used} of {} should be used",
                at(),
                rest.len(),
                w.len()
            );
            let calls: Vec<usize> = CALLS.with(|c| c.borrow().iter().map(|c| c.0).collect());
            ensure!(
                calls == reds,
                "{}: the reductors {calls:?} were called, following the table {reds:?}",
                at()
            );
            if conflicts {
                r.label(match way {
                    Way::Accept => "accepted by a table with conflicts",
                    Way::Torn(_) => "stopped at a conflict",
                    _ => "rejected by a table with conflicts",
                });
                if used >= 1 && !reds.is_empty() {
                    r.nontrivial((&g.prods, k as u8, w), || {
                        format!("{} on {}, {}: {way:?} after {used} tokens", g.text(), word(g, w), k.name())
                    });
                }
            }
        }
    }
    Ok(())
}
pub static C22: Spec<Case> = Spec {
    id: "C22",
    rule: "A case is a generated grammar with up to eight words; an evaluation is one word given to one construction. Non-trivial: the table has conflicts, and at least one token was consumed and one reduction made; counted by distinct (productions, construction, word).",
    assumptions: LANG_ASSUME,
    strategy: with_inputs,
    run: torn,
    fixed: enumerate_words,
    fixed_note: ENUM_WORDS_NOTE,
    quick: 40000,
    thorough: 1500000,
};

// ---------------------------------------------------------------------------------------------
// C23: grammars that are none

fn refused(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let pick = |i: usize, n: usize| c.extra.get(i).copied().unwrap_or(0) as usize % n;
    let rules = || {
        let mut m = g.rules();
        let l = g.sy(pick(1, g.nts) as u16);
        let entry = g.sy(0);
        let of = |m: &RuleMap<Sy>, l: Sy| -> Vec<Vec<Sy>> { m[&l].prods().map(|p| p.0.clone()).collect() };
        let mut start = entry;
        let what = match pick(0, 6) {
            0 => {
                let mut p = of(&m, l);
                p.insert(pick(2, p.len() + 1), vec![]);
                m.insert(l, Rule::new(l, p));
                "an empty production more"
            }
            1 => {
                let mut p = of(&m, l);
                let i = pick(2, p.len());
                p[i].clear();
                m.insert(l, Rule::new(l, p));
                "an empty production"
            }
            2 => {
                m.remove(&entry);
                "no rule for the entry"
            }
            3 => {
                start = g.sy((g.nts + pick(2, g.ts + 1 + gspec::FOREIGN)) as u16);
                "an entry that is not one of its rules"
            }
            4 => {
                m.insert(entry, Rule::new(entry, Vec::new()));
                "an entry without productions"
            }
            _ => {
                let mut p = of(&m, entry);
                let more = of(&m, l);
                p.insert(pick(2, 2), more[pick(3, more.len())].clone());
                m.insert(entry, Rule::new(entry, p));
                "an entry of two productions"
            }
        };
        (m, start, what)
    };
    for k in Kind::ALL {
        r.eval();
        let (m, start, what) = rules();
        r.label(what);
        match guard(40_000_000, || P::build(k, Grammar::new(start, m, g.sy(g.eof())))) {
            Err(Crash::Panic(_)) => {}
            Err(e) => return Err(format!("building the {} table for a grammar with {what} {e}", k.name())),
            Ok(_) => return Err(format!("a {} table is built for a grammar with {what}", k.name())),
        }
    }
    if g.nts >= 3 {
        r.nontrivial((&g.prods, &c.extra), || format!("{} with {} (rule {})", g.text(), rules().2, pick(1, g.nts)));
    }
    Ok(())
}
pub static C23: Spec<Case> = Spec {
    id: "C23",
    rule: "A case is a generated grammar and a fault put into it; an evaluation is one construction. Non-trivial: the grammar has at least three rules; counted by distinct (productions, fault).",
    assumptions: &["the library is built with debug assertions (entries of several productions)"],
    strategy: |_| {
        (gspec::gspec(), prop::collection::vec(any::<u8>(), 4))
            .prop_map(|(g, extra)| Case { g, inputs: vec![], extra })
            .boxed()
    },
    run: refused,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 60000,
    thorough: 2000000,
};

// ---------------------------------------------------------------------------------------------
// outcome of a parse, comparable between parsers of one grammar

#[derive(Debug, Clone, PartialEq, Eq)]
enum Outcome {
    Ok(Vec<(u16, Val)>),
    Unexpected(u16, BTreeSet<u16>, Vec<(u16, Val)>),
    Conflict,
    Other(String),
    Crash(String),
}
fn outcome<I: Iterator<Item = Token<Val, Sy>>>(
    d: &Dfa<Val, Sy, I>,
    r: Result<Result<(), Error<Sy>>, Crash>,
) -> Outcome {
    let items = || d.items.iter().map(|t| (t.ty.id, t.item.clone())).collect();
    match r {
        Ok(Ok(())) => Outcome::Ok(items()),
        Ok(Err(Error::UnexpectedToken(t, e))) => {
            Outcome::Unexpected(t.id, e.iter().map(|s| s.id).collect(), items())
        }
        Ok(Err(Error::Conflict(..))) => Outcome::Conflict,
        Ok(Err(e)) => Outcome::Other(format!("{e:?}")),
        Err(c) => Outcome::Crash(c.to_string()),
    }
}
fn run_one(p: &P, g: &GSpec, maps: &ReductMap<Val, Sy>, w: &[u16]) -> Outcome {
    let mut d = p.dfa(source(g, w), maps.clone());
    let r = guard(parse_fuel(w), || d.start());
    outcome(&d, r)
}

// C09: merging equal rows

fn reduced(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let (Some(rf), Some(maps)) = (Refs::new(g), reductors(g)) else {
        r.label("skipped: too large");
        return Ok(());
    };
    for k in Kind::ALL {
        if rf.auto(k).conflicts() > 0 && g.cyclic() {
            continue;
        }
        let p = build(k, g, rf.fuel())?;
        let mut q = p.clone();
        let mut before = q.tables().actions.len();
        // repeated merging has to be harmless as well
        for round in 0..2 {
            guard(rf.fuel(), || q.reduce_equals())
                .map_err(|e| format!("reduce_equals on the {} table {e}", k.name()))?;
            let after = q.tables().actions.len();
            ensure!(
                after <= before && after > 0,
                "reduce_equals turned {before} {} rows into {after}",
                k.name()
            );
            if after < before {
                r.label("rows were merged");
            }
            ensure!(
                (q.conflicts() == 0) == (p.conflicts() == 0),
                "reduce_equals turned {} conflicts into {}",
                p.conflicts(),
                q.conflicts()
            );
            same_behaviour(k, g, p.tables(), q.tables())?;
            for w in &c.inputs {
                r.eval();
                let a = run_one(&p, g, &maps, w);
                let b = run_one(&q, g, &maps, w);
                ensure!(
                    a == b,
                    "{} parser on {}: {a:?}, after reduce_equals {b:?}",
                    k.name(),
                    word(g, w)
                );
                if after < p.tables().actions.len() && w.len() >= 2 && round == 0 {
                    r.nontrivial((&g.prods, k as u8, w), || {
                        format!("{} {} on {}: {before} rows, {after} left", k.name(), g.text(), word(g, w))
                    });
                }
            }
            before = after;
        }
    }
    Ok(())
}
/// Two tables are the same up to the numbers of their states: from the first state on, equal
/// sequences of symbols meet equal actions.
fn same_behaviour(k: Kind, g: &GSpec, a: &Tabler<Sy>, b: &Tabler<Sy>) -> Verdict {
    let mut seen = BTreeSet::from([(0usize, 0usize)]);
    let mut q = VecDeque::from([(0usize, 0usize, Vec::<u16>::new())]);
    while let Some((x, y, path)) = q.pop_front() {
        let at = || format!("{} table after {}", k.name(), word(g, &path));
        let (Some(rx), Some(ry)) = (a.actions.get(x), b.actions.get(y)) else {
            return Err(format!("{}: a state is not in the table", at()));
        };
        ensure!(
            rx.len() == ry.len(),
            "{}: entries for {:?} and {:?}",
            at(),
            rx.keys().collect::<Vec<_>>(),
            ry.keys().collect::<Vec<_>>()
        );
        for ((s, ax), (t, ay)) in rx.iter().zip(ry) {
            ensure!(s == t, "{}: entries for {s:?} and {t:?}", at());
            let (mut vx, mut vy) = (Vec::new(), Vec::new());
            flatten(ax, &mut vx);
            flatten(ay, &mut vy);
            ensure!(vx.len() == vy.len(), "{}: {ax:?} and {ay:?}", at());
            for (m, n) in vx.iter().zip(&vy) {
                match (m, n) {
                    (Action::Shift(m), Action::Shift(n)) | (Action::Goto(m), Action::Goto(n)) => {
                        if seen.insert((*m, *n)) {
                            let mut p = path.clone();
                            p.push(s.id);
                            q.push_back((*m, *n, p));
                        }
                    }
                    _ => ensure!(m == n, "{} on {s:?}: {ax:?} and {ay:?}", at()),
                }
            }
        }
    }
    Ok(())
}
fn with_equal_rows(_: Tier) -> BoxedStrategy<Case> {
    (
        prop_oneof![1 => gspec::gspec(), 2 => gspec::nested()],
        prop::collection::vec(ingen(30), 1..=6),
    )
        .prop_map(|(g, ins)| {
            let inputs = ins.iter().map(|i| decode_input(&g, i, 40)).collect();
            Case {
                g,
                inputs,
                extra: vec![],
            }
        })
        .boxed()
}
pub static C09: Spec<Case> = Spec {
    id: "C09",
    rule: "A case is a generated grammar with up to eight words; an evaluation is one word parsed before and after equal rows are merged (once and twice). Non-trivial: merging removed rows and the word has at least two tokens; counted by distinct (productions, construction, word).",
    assumptions: LANG_ASSUME,
    strategy: with_equal_rows,
    run: reduced,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 25000,
    thorough: 800000,
};

// C10: a parser automaton reused over a history of inputs

fn reuse(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let (Some(rf), Some(maps)) = (Refs::new(g), reductors(g)) else {
        r.label("skipped: too large");
        return Ok(());
    };
    for k in Kind::ALL {
        if rf.auto(k).conflicts() > 0 && g.cyclic() {
            continue;
        }
        let p = build(k, g, rf.fuel())?;
        let mut d = p.dfa(source(g, &[]), maps.clone());
        let mut kinds = BTreeSet::new();
        let mut past: Vec<String> = Vec::new();
        for (n, w) in c.inputs.iter().enumerate() {
            r.eval();
            let at = || {
                format!(
                    "{} parser on {} after {}",
                    k.name(),
                    word(g, w),
                    if past.is_empty() { "nothing".to_string() } else { past.join(", ") }
                )
            };
            let fresh = run_one(&p, g, &maps, w);
            let choice = |n: usize| c.extra.get(n % c.extra.len().max(1)).copied();
            let mode = choice(n).unwrap_or(0) % 4;
            let single = g.prods[0][0].len() == 1;
            match mode {
                // the parse method of the automaton itself
                0 | 1 => {
                    let src = source(g, w);
                    let got = guard(parse_fuel(w), || d.parse(src)).map_err(|e| format!("{}: {e}", at()))?;
                    match (&got, &fresh) {
                        (Ok(v), Outcome::Ok(items)) => {
                            if single {
                                ensure!(*v == items[0].1, "{}: {v:?} instead of {:?}", at(), items[0].1);
                            }
                        }
                        (Err(Error::UnexpectedToken(t, e)), Outcome::Unexpected(ft, fe, _)) => {
                            let e: BTreeSet<u16> = e.iter().map(|s| s.id).collect();
                            ensure!(t.id == *ft && e == *fe, "{}: {got:?} instead of {fresh:?}", at());
                        }
                        (Err(Error::Conflict(..)), Outcome::Conflict) => {}
                        (Err(e), Outcome::Other(f)) if format!("{e:?}") == *f => {}
                        _ => return Err(format!("{}: {got:?} instead of {fresh:?}", at())),
                    }
                    kinds.insert(matches!(fresh, Outcome::Ok(_)));
                }
                // reset, a new buffer and start
                2 => {
                    d.reset();
                    d.buffer = source(g, w).peekable();
                    let res = guard(parse_fuel(w), || d.start());
                    let got = outcome(&d, res);
                    ensure!(got == fresh, "{} (reset and start): {got:?} instead of {fresh:?}", at());
                    kinds.insert(matches!(fresh, Outcome::Ok(_)));
                }
                // an attempt which is given up half-way, then reset
                _ => {
                    d.reset();
                    d.buffer = source(g, w).peekable();
                    let mut left = choice(n + 7).unwrap_or(3) % 12;
                    let _ = guard(parse_fuel(w), || {
                        d.trace(|d| {
                            if left == 0 {
                                d.finished = true;
                            }
                            left = left.saturating_sub(1);
                        })
                    })
                    .map_err(|e| format!("{} (given up): {e}", at()))?;
                    d.reset();
                }
            }
            past.push(word(g, w));
        }
        if c.inputs.len() >= 3 && kinds.len() == 2 {
            r.nontrivial((&g.prods, k as u8, &c.inputs), || {
                format!("{} {}: {}", k.name(), g.text(), past.join(", "))
            });
        }
    }
    Ok(())
}
fn history(_: Tier) -> BoxedStrategy<Case> {
    (
        gspec::gspec(),
        prop_oneof![
            40 => prop::collection::vec(ingen(24), 2..=7),
            // a long life
            1 => prop::collection::vec(ingen(10), 20..=60),
        ],
        prop::collection::vec(any::<u8>(), 15),
        any::<u8>(),
    )
        .prop_map(|(g, ins, extra, foreign)| {
            let mut inputs: Vec<Vec<u16>> = ins.iter().map(|i| decode_input(&g, i, 30)).collect();
            if foreign < 60 {
                let k = foreign as usize % inputs.len();
                inputs[k].push(g.eof() + 1);
            } else if foreign < 100 {
                let k = foreign as usize % inputs.len();
                let e = g.eof();
                inputs[k].push(e);
            }
            Case { g, inputs, extra }
        })
        .boxed()
}
pub static C10: Spec<Case> = Spec {
    id: "C10",
    rule: "A case is a generated grammar and a history of two to seven inputs (now and then up to sixty) (words of the language, erroneous ones, foreign tokens) given to one automaton through parse, through reset and start, or given up half-way; an evaluation is one input, compared with a fresh automaton. Non-trivial: at least three inputs, accepted and rejected ones among them; counted by distinct (productions, construction, history).",
    assumptions: LANG_ASSUME,
    strategy: history,
    run: reuse,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 30000,
    thorough: 1000000,
};

// C11: arbitrary token sequences

fn garbage(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let Some(rf) = Refs::new(g) else {
        r.label("skipped: reference automaton too large");
        return Ok(());
    };
    for k in Kind::ALL {
        if rf.auto(k).conflicts() > 0 && g.cyclic() {
            continue;
        }
        let p = build(k, g, rf.fuel())?;
        for w in &c.inputs {
            r.eval();
            let res = guard(parse_fuel(w), || p.parse_unit(toks(g, w)))
                .map_err(|e| format!("{} parser on {}: {e}", k.name(), word(g, w)))?;
            let odd = w.iter().position(|t| bit(g, *t).is_none() || *t == g.eof() && !g.ends());
            match odd {
                None => {
                    if res.is_ok() {
                        let Some(e) = rf.rg.earley(w) else {
                            r.label("skipped: word too ambiguous for the recogniser");
                            continue;
                        };
                        ensure!(
                            e.accepts,
                            "the {} parser accepts {}",
                            k.name(),
                            word(g, w)
                        );
                    }
                }
                Some(o) => {
                    ensure!(
                        res.is_err(),
                        "the {} parser accepts {}, which is no sequence of terminals",
                        k.name(),
                        word(g, w)
                    );
                    if rf.auto(k).conflicts() == 0 {
                        // the error names the first token that cannot stand there
                        let Some(e) = rf.rg.earley(&w[..o]) else {
                            r.label("skipped: word too ambiguous for the recogniser");
                            continue;
                        };
                        let viable = match e.err {
                            None => true,
                            Some(x) => x == o,
                        };
                        match &res {
                            Err(Error::UnexpectedToken(t, _)) => {
                                let want = if viable { w[o] } else { w[e.err.unwrap()] };
                                ensure!(
                                    t.id == want,
                                    "{} parser on {}: blames {} instead of {}",
                                    k.name(),
                                    word(g, w),
                                    g.name(t.id),
                                    g.name(want)
                                );
                            }
                            Err(Error::IncompleteExec) => ensure!(
                                w[o] == g.eof() && e.accepts
                                    || g.ends() && e.err.is_some_and(|x| x < o && w[x] == g.eof()),
                                "{} parser on {}: {res:?}",
                                k.name(),
                                word(g, w)
                            ),
                            _ => {
                                return Err(format!(
                                    "{} parser on {}: {res:?}",
                                    k.name(),
                                    word(g, w)
                                ))
                            }
                        }
                    }
                    let what = if (w[o] as usize) < g.nts {
                        "non-terminal in the input"
                    } else if w[o] == g.eof() {
                        "end marker in the input"
                    } else {
                        "unknown symbol in the input"
                    };
                    r.label(what);
                    if o >= 1 {
                        r.nontrivial((&g.prods, w), || {
                            format!("{} {} on {}: {res:?}", k.name(), g.text(), word(g, w))
                        });
                    }
                }
            }
        }
    }
    Ok(())
}
pub static C11: Spec<Case> = Spec {
    id: "C11",
    rule: "A case is a generated grammar, conflicts or not, with up to six sequences over all its symbols, the end marker and symbols it does not know; an evaluation is one sequence given to one construction. Non-trivial: something that is no terminal follows at least one token; counted by distinct (productions, sequence).",
    assumptions: &["not ending is decided by a bound on symbol comparisons (over 100 times what any generated case needs)", "tables with conflicts of grammars with a cycle of single-symbol productions are left out: there an LR automaton may loop by construction"],
    strategy: with_garbage,
    run: garbage,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 30000,
    thorough: 1000000,
};

// C12: construction ends

fn construction(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    tabler(g)?;
    let rg = RefG::new(g);
    let Some((sets, _)) = rg.lr1_sets(CAP) else {
        r.label("skipped: automaton too large");
        return Ok(());
    };
    let fuel = build_fuel(&rg, sets.len());
    for k in Kind::ALL {
        r.eval();
        let p = build(k, g, fuel)?;
        ensure!(
            p.tables().actions.len() == p.tables().states.len(),
            "{} rows for {} states",
            p.tables().actions.len(),
            p.tables().states.len()
        );
        r.label(if p.conflicts() == 0 { "no conflict" } else { "conflicts" });
    }
    let cyc = {
        let mut reach = vec![vec![false; g.nts]; g.nts];
        for (l, rr) in g.prods.iter().enumerate() {
            for p in rr {
                for s in [p[0], p[p.len() - 1]] {
                    if (s as usize) < g.nts {
                        reach[l][s as usize] = true;
                    }
                }
            }
        }
        for k in 0..g.nts {
            for i in 0..g.nts {
                for j in 0..g.nts {
                    reach[i][j] |= reach[i][k] && reach[k][j];
                }
            }
        }
        (0..g.nts).any(|i| (0..g.nts).any(|j| i != j && reach[i][j] && reach[j][i]))
    };
    if cyc {
        r.label("mutually recursive rules");
        r.nontrivial((&g.prods, &g.rank), || g.text());
    }
    Ok(())
}
pub static C12: Spec<Case> = Spec {
    id: "C12",
    rule: "A case is a generated or enumerated grammar (ambiguous, cyclic, unreachable and unproductive rules included) under a generated symbol order; an evaluation is one construction. Non-trivial: two rules depend on each other through first or last symbols; counted by distinct (productions, symbol order).",
    assumptions: &["not ending is decided by a bound on symbol comparisons (over 100 times what a table of that size needs)", "grammars have one entry production, no empty production, and the entry symbol on no right-hand side"],
    strategy: any_grammars,
    run: construction,
    fixed: enumerate,
    fixed_note: ENUM_NOTE,
    quick: 30000,
    thorough: 1200000,
};

// C13: names and orders do not matter

fn perm(n: usize, keys: &mut impl Iterator<Item = u8>) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let k = keys.next().unwrap_or(0) as usize % (i + 1);
        v.swap(i, k);
    }
    v
}
fn tree_map(v: &Val, pm: &[usize]) -> Val {
    match v {
        Val::Leaf(i) => Val::Leaf(*i),
        Val::Node(n) => Val::Node(Rc::new(Node {
            prod: pm[n.prod],
            kids: n.kids.iter().map(|(s, v)| (*s, tree_map(v, pm))).collect(),
        })),
    }
}
fn invariance(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let (Some(rf), Some(maps)) = (Refs::new(g), reductors(g)) else {
        r.label("skipped: too large");
        return Ok(());
    };
    let mut keys = c.extra.iter().copied();
    // another order of the symbols, and another order of the productions of every rule
    let mut h = g.clone();
    let pr = perm(g.rank.len(), &mut keys);
    h.rank = pr.iter().map(|i| g.rank[*i]).collect();
    let mut back = Vec::new(); // production of h -> production of g
    for l in 0..g.nts {
        let pp = perm(g.prods[l].len(), &mut keys);
        h.prods[l] = pp.iter().map(|i| g.prods[l][*i].clone()).collect();
        back.extend(pp.iter().map(|i| g.prod_id(l as u16, *i)));
    }
    let hm = reductors(&h).unwrap();
    let (tg, th) = (tabler(g)?, tabler(&h)?);
    for l in 0..g.nts as u16 {
        let f = |t: &Map<Sy, Set<Sy>>, g: &GSpec| t.get(&g.sy(l)).map_or(Ok(0), |s| bits(g, s));
        ensure!(
            f(&tg.first, g)? == f(&th.first, &h)?,
            "FIRST({}) depends on the order of symbols or productions",
            g.name(l)
        );
        ensure!(
            f(&tg.follow, g)? == f(&th.follow, &h)?,
            "FOLLOW({}) depends on the order of symbols or productions",
            g.name(l)
        );
    }
    for k in Kind::ALL {
        let p = build(k, g, rf.fuel())?;
        let q = build(k, &h, rf.fuel())?;
        let (a, b) = (p.conflicts(), q.conflicts());
        ensure!(
            if k == Kind::Clr { (a == 0) == (b == 0) } else { a == b },
            "{}: {a} conflicts, {b} with other orders of symbols and productions",
            k.name()
        );
        // the same grammar over strings, as most users write it
        let names: Vec<String> = (0..g.rank.len()).map(|i| format!("{:03}{}", g.rank[i], g.name(i as u16))).collect();
        let s = guard(u64::MAX / 2, || by_name(k, g, &names))
            .map_err(|e| format!("{} over strings {e}", k.name()))?;
        ensure!(
            if k == Kind::Clr { (a == 0) == (s.0 == 0) } else { a == s.0 },
            "{}: {a} conflicts, {} when the symbols are strings",
            k.name(),
            s.0
        );
        if a > 0 && g.cyclic() {
            continue;
        }
        for (n, w) in c.inputs.iter().enumerate() {
            r.eval();
            let x = run_one(&p, g, &maps, w);
            let y = run_one(&q, &h, &hm, w);
            let st = by_name_parse(k, g, &names, &s.1, w);
            let _ = n;
            let same = match (&x, &y) {
                (Outcome::Ok(i), Outcome::Ok(j)) => {
                    a > 0
                        || *i
                            == j.iter()
                                .map(|(s, v)| (*s, tree_map(v, &back)))
                                .collect::<Vec<_>>()
                }
                (Outcome::Unexpected(t, e, i), Outcome::Unexpected(u, f, j)) => {
                    t == u
                        && (a > 0
                            || (e == f
                                && *i
                                    == j.iter()
                                        .map(|(s, v)| (*s, tree_map(v, &back)))
                                        .collect::<Vec<_>>()))
                }
                (Outcome::Conflict, Outcome::Conflict) => true,
                (Outcome::Other(x), Outcome::Other(y)) if g.ends() => x == y,
                _ => false,
            };
            ensure!(
                same,
                "{} parser on {}: {x:?}, with other orders of symbols and productions {y:?}",
                k.name(),
                word(g, w)
            );
            ensure!(
                match &x {
                    Outcome::Ok(_) => st == 0,
                    Outcome::Unexpected(t, ..) => st == 1 + i64::from(*t),
                    Outcome::Conflict => st == -1,
                    _ => st == -2,
                },
                "{} parser on {}: {x:?}, over strings {st}",
                k.name(),
                word(g, w)
            );
            if w.len() >= 2 && pr.iter().enumerate().any(|(i, j)| i != *j) {
                r.nontrivial((&g.prods, &h.prods, &h.rank, w), || {
                    format!("{} reordered to {} on {}", g.text(), h.text(), word(g, w))
                });
            }
        }
    }
    Ok(())
}
enum StrP {
    Slr(Slr<String>),
    Lalr(Lalr<String>),
    Clr(Clr<String>),
}
fn by_name(k: Kind, g: &GSpec, names: &[String]) -> (usize, StrP) {
    let mut m = Map::new();
    for (l, alts) in g.prods.iter().enumerate() {
        let n = names[l].clone();
        m.insert(
            n.clone(),
            lrp::grammar::Rule::new(
                n,
                alts.iter()
                    .map(|p| p.iter().map(|s| names[*s as usize].clone()).collect::<Vec<_>>()),
            ),
        );
    }
    let gr = Grammar::new(names[0].clone(), m, names[g.eof() as usize].clone());
    let p = match k {
        Kind::Slr => StrP::Slr(Slr::new(gr)),
        Kind::Lalr => StrP::Lalr(Lalr::new(gr)),
        Kind::Clr => StrP::Clr(Clr::new(gr)),
    };
    let n = match &p {
        StrP::Slr(p) => p.tables().conflicts().count(),
        StrP::Lalr(p) => p.tables().conflicts().count(),
        StrP::Clr(p) => p.tables().conflicts().count(),
    };
    (n, p)
}
/// 0 accepted, 1 + symbol unexpected, -1 conflict, -2 anything else
fn by_name_parse(_: Kind, g: &GSpec, names: &[String], p: &StrP, w: &[u16]) -> i64 {
    let t: Vec<String> = w.iter().map(|s| names[*s as usize].clone()).collect();
    let run = || match p {
        StrP::Slr(p) => p.simple_dfa(lrp::to_tokens(t.clone())).start(),
        StrP::Lalr(p) => p.simple_dfa(lrp::to_tokens(t.clone())).start(),
        StrP::Clr(p) => p.simple_dfa(lrp::to_tokens(t.clone())).start(),
    };
    match guard(u64::MAX / 2, run) {
        Ok(Ok(())) => 0,
        Ok(Err(Error::UnexpectedToken(t, _))) => names
            .iter()
            .position(|n| *n == t)
            .map_or(-2, |i| 1 + i as i64),
        Ok(Err(Error::Conflict(..))) => -1,
        _ => {
            let _ = g;
            -2
        }
    }
}
pub static C13: Spec<Case> = Spec {
    id: "C13",
    rule: "A case is a generated grammar, up to four words, and permutations of the symbol order and of the productions of every rule; an evaluation is one word parsed by one construction with the original, the permuted and the string-named grammar. Non-trivial: the symbol order really changes and the word has at least two tokens; counted by distinct (productions, permuted productions, order, word).",
    assumptions: LANG_ASSUME,
    strategy: with_extra,
    run: invariance,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 12000,
    thorough: 500000,
};

// C14 to C18 and C21 use more of the library's public parts; check.sh leaves them out for the other
// properties when they do not build.
#[path = "lrpp.rs"]
pub mod prog;

#[cfg(feature = "deep")]
#[path = "lrpd.rs"]
mod deep;
#[cfg(feature = "deep")]
pub use deep::*;
#[cfg(feature = "deep")]
#[path = "lrps.rs"]
mod small;
#[cfg(feature = "deep")]
pub use small::*;

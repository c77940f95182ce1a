//! C14 to C18: the automaton while it runs, symbols, item sets, entry points, items.
use super::*;
use crate::refr::{ItemSet, Sets};
use lrp::State;

impl P {
    fn state_from_kernel(&self, k: &State<Sy>) -> Option<usize> {
        each!(self, p => p.state_from_kernel(k))
    }
}

// C14: the stack while parsing

fn stacks(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let (Some(rf), Some(maps)) = (Refs::new(g), reductors(g)) else {
        r.label("skipped: too large");
        return Ok(());
    };
    for k in Kind::ALL {
        if rf.auto(k).conflicts() > 0 && g.cyclic() {
            continue;
        }
        let p = build(k, g, rf.fuel())?;
        for (n, w) in c.inputs.iter().enumerate() {
            r.eval();
            let fresh = run_one(&p, g, &maps, w);
            let extra = c.extra.get(n).copied().unwrap_or(5) as usize;
            let cut = extra % 20;
            // half of the time the automaton has run before, to whatever end, and was reset
            let used = extra >= 128;
            let mut d = if used {
                let before = &c.inputs[(n + 1) % c.inputs.len()];
                let mut d = p.dfa(source(g, before), maps.clone());
                let _ = guard(parse_fuel(before), || d.start());
                d.reset();
                d.buffer = source(g, w).peekable();
                r.label("reused");
                d
            } else {
                p.dfa(source(g, w), maps.clone())
            };
            let mut bad: Option<String> = None;
            let mut steps = 0usize;
            let mut prev: Option<(usize, usize)> = None;
            let mut copy = None;
            let res = guard(parse_fuel(w) * 20, || {
                d.trace(|d| {
                    if bad.is_none() {
                        bad = stack_ok(g, w, d, &mut prev).err();
                    }
                    if steps == cut {
                        copy = Some(d.clone());
                    }
                    steps += 1;
                })
            });
            let got = outcome(&d, res);
            let at = || format!("{} parser on {}", k.name(), word(g, w));
            if let Some(b) = bad {
                return Err(format!("{}: {b}{}", at(), if used { ", after a reset" } else { "" }));
            }
            // the last step announced accepted, refused or got stuck: nothing went on unseen
            let Some(last) = prev else {
                return Err(format!("{}: not one step was announced", at()));
            };
            let end = (w.len() - d.buffer.clone().count(), CALLS.with(|c| c.borrow().len()));
            ensure!(
                last == end,
                "{}: {} tokens and {} reductions at the last step announced, {} and {} at the end",
                at(),
                last.0,
                last.1,
                end.0,
                end.1
            );
            ensure!(
                got == fresh,
                "{}: observed step by step {got:?}, otherwise {fresh:?}",
                at()
            );
            if let Outcome::Ok(_) = got {
                ensure!(
                    d.finished && d.buffer.peek().is_none(),
                    "{}: accepted, but not finished or with input left",
                    at()
                );
            }
            // a copy taken half-way goes on by itself to the same end
            if let Some(mut d2) = copy {
                let res = guard(parse_fuel(w), || d2.start());
                let got2 = outcome(&d2, res);
                ensure!(
                    got2 == fresh,
                    "{}: a copy taken before step {cut} ends with {got2:?} instead of {fresh:?}",
                    at()
                );
            }
            if steps >= 6 {
                r.nontrivial((&g.prods, k as u8, w), || {
                    format!("{} {} on {}: {steps} steps", k.name(), g.text(), word(g, w))
                });
            }
            r.label(match &fresh {
                Outcome::Ok(_) => "accepted",
                Outcome::Conflict => "stopped at a conflict",
                _ => "rejected",
            });
        }
    }
    Ok(())
}
fn stack_ok(
    g: &GSpec,
    w: &[u16],
    d: &mut Dfa<Val, Sy, Source>,
    prev: &mut Option<(usize, usize)>,
) -> Verdict {
    ensure!(
        d.states.len() == d.items.len() + 1,
        "{} states for {} items",
        d.states.len(),
        d.items.len()
    );
    ensure!(
        d.states.last() == Some(&d.top),
        "the current state {} is not the top of the stack {:?}",
        d.top,
        d.states
    );
    ensure!(
        !d.finished,
        "a step is announced after the automaton has finished"
    );
    for (i, it) in d.items.iter().enumerate() {
        let row = d.table.get(d.states[i]).ok_or("a state that is not in the table")?;
        let ok = match row.get(&it.ty) {
            Some(Action::Shift(t)) => bit(g, it.ty.id).is_some() && *t == d.states[i + 1],
            Some(Action::Goto(t)) => bit(g, it.ty.id).is_none() && *t == d.states[i + 1],
            _ => false,
        };
        ensure!(
            ok,
            "the stack {} does not follow the table at {}",
            d.stack_fmt(),
            g.name(it.ty.id)
        );
    }
    // the stack followed by the rest of the input is the input
    fn leaves(v: &Val, out: &mut Vec<usize>) {
        match v {
            Val::Leaf(i) => out.push(*i),
            Val::Node(n) => n.kids.iter().for_each(|k| leaves(&k.1, out)),
        }
    }
    let mut ls = Vec::new();
    d.items.iter().for_each(|t| leaves(&t.item, &mut ls));
    let rest = d.buffer.clone().map(|t| t.item).collect::<Vec<_>>();
    let all: Vec<Val> = ls.iter().map(|i| Val::Leaf(*i)).chain(rest).collect();
    ensure!(
        all.len() == w.len() && all.iter().enumerate().all(|(i, v)| *v == Val::Leaf(i)),
        "the stack stands for the tokens {ls:?}, {} tokens are left of {}",
        all.len() - ls.len(),
        w.len()
    );
    // every step shifts one token or makes one reduction
    let (sh, rd) = (ls.len(), CALLS.with(|c| c.borrow().len()));
    if prev.is_none() {
        ensure!(
            (sh, rd) == (0, 0),
            "the first step announced comes after {sh} tokens and {rd} reductions"
        );
    }
    if let Some((s, q)) = *prev {
        ensure!(
            sh - s + (rd - q) == 1,
            "one step made {} shifts and {} reductions",
            sh - s,
            rd - q
        );
    }
    *prev = Some((sh, rd));
    // the printed stack alternates states and symbols
    let mut want = Vec::new();
    for i in 0..d.states.len() {
        want.push(d.states[i].to_string());
        if let Some(it) = d.items.get(i) {
            want.push(format!("{:?}", it.ty));
        }
    }
    ensure!(
        d.stack_fmt() == want.join(" "),
        "the stack is printed as {}, it is {}",
        d.stack_fmt(),
        want.join(" ")
    );
    // and in full it holds the values as well
    if all.len() <= 6 && rd <= 8 {
        let mut want = Vec::new();
        for i in 0..d.states.len() {
            want.push(d.states[i].to_string());
            if let Some(it) = d.items.get(i) {
                want.push(format!("{it:?}"));
            }
        }
        ensure!(
            d.stack_debug() == want.join(" "),
            "the stack is printed in full as {}, it is {}",
            d.stack_debug(),
            want.join(" ")
        );
    }
    Ok(())
}
pub static C14: Spec<Case> = Spec {
    id: "C14",
    rule: "A case is a generated grammar, up to four words and a point to take a copy at; an evaluation is one word traced step by step by one construction, conflicts or not, with the invariant checked before every step. Non-trivial: at least six steps; counted by distinct (productions, construction, word).",
    assumptions: LANG_ASSUME,
    strategy: with_extra,
    run: stacks,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 30000,
    thorough: 1000000,
};

// C15: the grammar's symbols

fn symbols(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    r.eval();
    let gr = guard(5_000_000, || g.grammar()).map_err(|e| format!("Grammar::new {e}"))?;
    let mut terms: BTreeSet<u16> = g.prods.iter().flatten().flatten().copied().filter(|s| *s as usize >= g.nts).collect();
    terms.insert(g.eof());
    let got: BTreeSet<u16> = gr.terminals.iter().map(|s| s.id).collect();
    let names = |s: &BTreeSet<u16>| s.iter().map(|x| g.name(*x)).collect::<Vec<_>>().join(" ");
    ensure!(got == terms, "the terminals are {}, not {}", names(&got), names(&terms));
    let all: BTreeSet<u16> = (0..g.nts as u16).chain(terms.iter().copied()).collect();
    let v: Vec<u16> = gr.symbols().map(|s| s.id).collect();
    let got: BTreeSet<u16> = v.iter().copied().collect();
    ensure!(
        got == all && v.len() == got.len(),
        "the symbols are {}, not {}",
        names(&got),
        names(&all)
    );
    for s in 0..g.rank.len() as u16 {
        ensure!(
            gr.is_terminal(&g.sy(s)) == (s as usize >= g.nts),
            "{} counts as a {}terminal",
            g.name(s),
            if (s as usize) < g.nts { "" } else { "non-" }
        );
    }
    // the rules come back as they were written, and the basis is the start item
    let mut n = 0;
    for rule in gr.rules() {
        n += 1;
        let l = rule.name.id as usize;
        let ps: Vec<(Vec<u16>, usize)> = rule
            .prods()
            .map(|p| (p.0.iter().map(|s| s.id).collect(), p.1))
            .collect();
        let want: Vec<(Vec<u16>, usize)> = g.prods[l].iter().cloned().enumerate().map(|(i, p)| (p, i)).collect();
        ensure!(ps == want, "the productions of {} are {ps:?}, not {want:?}", g.name(l as u16));
    }
    ensure!(n == g.nts, "{n} rules instead of {}", g.nts);
    let b = gr.basis();
    ensure!(
        b.rule.id == 0
            && b.point == 0
            && b.seq.1 == 0
            && b.seq.0.iter().map(|s| s.id).collect::<Vec<_>>() == g.prods[0][0]
            && b.look.iter().map(|s| s.id).collect::<Vec<_>>() == vec![g.eof()],
        "the start item is {b:?}"
    );
    if g.nts >= 2 && terms.len() >= 3 {
        r.nontrivial((&g.prods, &g.rank), || format!("{} [terminals {}]", g.text(), names(&terms)));
    }
    Ok(())
}
pub static C15: Spec<Case> = Spec {
    id: "C15",
    rule: "A case is a generated or enumerated grammar under a generated symbol order. Non-trivial: at least two rules and three terminals; counted by distinct (productions, symbol order).",
    assumptions: &[],
    strategy: any_grammars,
    run: symbols,
    fixed: enumerate,
    fixed_note: ENUM_NOTE,
    quick: 300000,
    thorough: 8000000,
};

// C16: item sets

type Bodies = BTreeMap<(usize, usize), Bits>;

fn bodies(g: &GSpec, s: &State<Sy>) -> Result<Bodies, String> {
    let mut out = Bodies::new();
    for p in s {
        let l = p.rule.id;
        ensure!(
            (l as usize) < g.nts && p.seq.1 < g.prods[l as usize].len() && p.point <= p.seq.0.len(),
            "the item {p:?} is none of the grammar"
        );
        *out.entry((g.prod_id(l, p.seq.1), p.point)).or_insert(0) |= bits(g, &p.look)?;
    }
    Ok(out)
}
fn item_sets(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let rg = RefG::new(g);
    let Some(clr) = rg.lr1_sets(CAP) else {
        r.label("skipped: automaton too large");
        return Ok(());
    };
    let lalr = RefG::merge_cores(&clr.0, &clr.1);
    let slr = rg.slr_sets();
    let fuel = build_fuel(&rg, clr.0.len());
    for (k, sets) in [(Kind::Slr, &slr), (Kind::Lalr, &lalr), (Kind::Clr, &clr)] {
        r.eval();
        let p = build(k, g, fuel)?;
        walk_sets(k, g, &p, sets)?;
    }
    if slr.0.len() >= 5 {
        r.nontrivial((&g.prods, &g.rank), || {
            format!("{} [{} LR(0) and {} LR(1) states]", g.text(), slr.0.len(), clr.0.len())
        });
    }
    Ok(())
}
fn walk_sets(k: Kind, g: &GSpec, p: &P, (sets, trans): &Sets) -> Verdict {
    let t = p.tables();
    let mut seen = BTreeMap::from([(0usize, 0usize)]);
    let mut q = VecDeque::from([(0usize, 0usize, Vec::<u16>::new())]);
    while let Some((ls, rs, path)) = q.pop_front() {
        let at = || format!("{} item set after {}", k.name(), word(g, &path));
        let st = t.states.get(ls).ok_or_else(|| format!("{}: no such state", at()))?;
        let got = bodies(g, st).map_err(|e| format!("{}: {e}", at()))?;
        let want: &ItemSet = &sets[rs];
        let same = if k == Kind::Slr {
            got.keys().eq(want.keys())
        } else {
            got == *want
        };
        ensure!(
            same,
            "{}: {st:?} differs from the definition, whose items are {want:?}",
            at()
        );
        for (s, rt) in &trans[rs] {
            let kernel = guard(5_000_000, || Tabler::sym_filter(st, &g.sy(*s)))
                .map_err(|e| format!("{}: the kernel after {} {e}", at(), g.name(*s)))?;
            let lt = guard(5_000_000, || p.state_from_kernel(&kernel))
                .map_err(|e| format!("{}: looking up the kernel {e}", at()))?;
            let Some(lt) = lt else {
                return Err(format!(
                    "{}: the kernel after {} is not known: {kernel:?}",
                    at(),
                    g.name(*s)
                ));
            };
            let mut acts = Vec::new();
            if let Some(a) = t.actions[ls].get(&g.sy(*s)) {
                flatten(a, &mut acts);
            }
            ensure!(
                acts.iter().any(|a| matches!(a, Action::Shift(x) | Action::Goto(x) if *x == lt)),
                "{}: the kernel after {} is state {lt}, the table has {acts:?}",
                at(),
                g.name(*s)
            );
            match seen.get(&lt) {
                Some(x) => ensure!(x == rt, "{}: state {lt} stands for two item sets", at()),
                None => {
                    seen.insert(lt, *rt);
                    let mut p = path.clone();
                    p.push(*s);
                    q.push_back((lt, *rt, p));
                }
            }
        }
    }
    ensure!(
        k == Kind::Clr || seen.len() == t.states.len(),
        "{} of the {} {} states are reached",
        seen.len(),
        t.states.len(),
        k.name()
    );
    Ok(())
}
pub static C16: Spec<Case> = Spec {
    id: "C16",
    rule: "A case is a generated or enumerated grammar under a generated symbol order; an evaluation is one construction, all its item sets walked together with the reference ones. Non-trivial: the LR(0) automaton has at least five states; counted by distinct (productions, symbol order).",
    assumptions: LANG_ASSUME,
    strategy: only_grammars,
    run: item_sets,
    fixed: enumerate,
    fixed_note: ENUM_NOTE,
    quick: 25000,
    thorough: 1000000,
};

// C17: the ways to set up a parse

fn entry_points(c: &Case, r: &mut Rec) -> Verdict {
    let g = &c.g;
    let (Some(rf), Some(maps)) = (Refs::new(g), reductors(g)) else {
        r.label("skipped: too large");
        return Ok(());
    };
    for k in Kind::ALL {
        if rf.auto(k).conflicts() > 0 && g.cyclic() {
            continue;
        }
        let p = build(k, g, rf.fuel())?;
        // built from a table made beforehand
        let q = guard(rf.fuel(), || {
            let t = Tabler::new(g.grammar());
            match k {
                Kind::Slr => P::Slr(Slr::with_table(t)),
                Kind::Lalr => P::Lalr(Lalr::with_table(t)),
                Kind::Clr => P::Clr(Clr::with_table(t)),
            }
        })
        .map_err(|e| format!("building the {} parser from a table {e}", k.name()))?;
        same_behaviour(k, g, p.tables(), q.tables())?;
        let eof = g.sy(g.eof());
        for w in &c.inputs {
            r.eval();
            let at = |how: &str| format!("{} parser on {}, {how}", k.name(), word(g, w));
            let want = run_one(&p, g, &maps, w);
            let fuel = parse_fuel(w);
            // an automaton made by hand
            let mut d = Dfa::new(source(g, w), p.tables().actions.clone(), maps.clone(), eof);
            let res = guard(fuel, || d.start());
            let got = outcome(&d, res);
            ensure!(got == want, "{}: {got:?} instead of {want:?}", at("automaton made by hand"));
            let got = run_one(&q, g, &maps, w);
            ensure!(got == want, "{}: {got:?} instead of {want:?}", at("table made beforehand"));
            // results only
            let same = |how: &str, res: Result<Result<(), Error<Sy>>, Crash>| -> Verdict {
                let ok = match (&res, &want) {
                    (Ok(Ok(())), Outcome::Ok(_)) | (Ok(Err(Error::Conflict(..))), Outcome::Conflict) => true,
                    (Ok(Err(Error::UnexpectedToken(t, e))), Outcome::Unexpected(f, fe, _)) => {
                        t.id == *f && e.iter().map(|s| s.id).collect::<BTreeSet<_>>() == *fe
                    }
                    (Ok(Err(e)), Outcome::Other(f)) => format!("{e:?}") == *f,
                    (Err(_), Outcome::Crash(_)) => true,
                    _ => false,
                };
                ensure!(ok, "{}: {res:?} instead of {want:?}", at(how));
                Ok(())
            };
            let ids = || w.iter().map(|t| g.sy(*t));
            let res = each!(&p, p => {
                let mut d = p.simple_dfa(lrp::to_tokens(ids()));
                guard(fuel, || d.start())
            });
            same("simple automaton", res)?;
            same("parse without values", guard(fuel, || p.parse_unit(toks(g, w))))?;
            // with values: the one of the entry production's last symbol comes back
            let valued = |how: &str, res: Result<Result<Val, Error<Sy>>, Crash>| -> Verdict {
                if let (Ok(Ok(v)), Outcome::Ok(items)) = (&res, &want) {
                    let last = items.last().map(|i| &i.1);
                    ensure!(Some(v) == last, "{}: returns {v:?} instead of {last:?}", at(how));
                }
                same(how, res.map(|r| r.map(|_| ())))
            };
            valued(
                "parse with values",
                guard(fuel, || each!(&p, p => p.parse(source(g, w), maps.clone()))),
            )?;
            let mut d = p.dfa(source(g, &[]), maps.clone());
            valued("parse of an automaton", guard(fuel, || d.parse(source(g, w))))?;
            let mut steps = 0;
            let mut d = p.dfa(source(g, w), maps.clone());
            same("traced", guard(fuel, || d.trace(|_| steps += 1)))?;
            // by hand: one action after the other, each for the next token
            let mut d = p.dfa(source(g, w), maps.clone());
            let res = guard(fuel, || {
                while !d.finished {
                    let next = d.buffer.peek().map_or(eof, |t| t.ty);
                    d.travel(&next)?;
                }
                Ok(())
            });
            let got = outcome(&d, res);
            ensure!(got == want, "{}: {got:?} instead of {want:?}", at("driven by hand"));
            let v = guard(fuel, || p.validate(toks(g, w))).map_err(|e| format!("{}: {e}", at("validate")));
            let v = match (&want, v) {
                (Outcome::Crash(_), Err(_)) => continue,
                (_, v) => v?,
            };
            ensure!(
                v == matches!(want, Outcome::Ok(_)),
                "{}: {v} instead of {want:?}",
                at("validate")
            );
            // one reductor for every production: it is applied where the derivation applies one
            fn top(t: &[Token<Sy, Sy>]) -> Sy {
                t[0].ty
            }
            let ids = || w.iter().map(|t| Token::new(g.sy(*t), g.sy(*t))).collect::<Vec<_>>();
            for (how, m) in [
                ("cloned reductors", each!(&p, p => p.cloned::<std::vec::IntoIter<Token<Sy, Sy>>>())),
                (
                    "uniform reductors",
                    Dfa::<Sy, Sy, std::vec::IntoIter<Token<Sy, Sy>>>::transparent(p.tables(), top),
                ),
            ] {
                for (l, alts) in g.prods.iter().enumerate() {
                    let n = m.get(&g.sy(l as u16)).map_or(0, Vec::len);
                    ensure!(
                        n == alts.len(),
                        "{how}: {n} for the {} productions of {}",
                        alts.len(),
                        g.name(l as u16)
                    );
                }
                ensure!(m.len() == g.nts, "{how}: for {} rules of {}", m.len(), g.nts);
                let mut d = p.dfa(ids().into_iter(), m);
                let res = guard(fuel, || d.start());
                same(how, res)?;
                if let Outcome::Ok(items) = &want {
                    let got: Vec<(u16, u16)> = d.items.iter().map(|t| (t.ty.id, t.item.id)).collect();
                    let exp: Vec<(u16, u16)> = items
                        .iter()
                        .map(|(s, v)| match v {
                            Val::Leaf(i) => (*s, w[*i]),
                            Val::Node(n) => (*s, n.kids[0].0),
                        })
                        .collect();
                    ensure!(got == exp, "{}: values {got:?} instead of {exp:?}", at(how));
                }
            }
            r.label(match &want {
                Outcome::Ok(_) => "accepted",
                Outcome::Conflict => "stopped at a conflict",
                _ => "rejected",
            });
            if w.len() >= 2 {
                r.nontrivial((&g.prods, k as u8, w), || {
                    format!("{} {} on {}", k.name(), g.text(), word(g, w))
                });
            }
        }
    }
    Ok(())
}
pub static C17: Spec<Case> = Spec {
    id: "C17",
    rule: "A case is a generated grammar with up to eight words; an evaluation is one word given to one construction through eleven ways of setting up a parse. Non-trivial: at least two tokens; counted by distinct (productions, construction, word).",
    assumptions: LANG_ASSUME,
    strategy: with_inputs,
    run: entry_points,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 15000,
    thorough: 500000,
};

// C18: items and sets of items which no construction need ever meet

fn close1(rg: &RefG, seed: &BTreeMap<(usize, usize), Bits>) -> BTreeMap<(usize, usize), Bits> {
    let mut out = seed.clone();
    loop {
        let mut add = Vec::new();
        for ((p, d), look) in &out {
            let rhs = &rg.prods[*p].2;
            let Some(x) = rhs.get(*d) else { continue };
            if (*x as usize) >= rg.nts {
                continue;
            }
            let l = rhs.get(d + 1).map_or(*look, |y| rg.first_sym(*y));
            for q in &rg.by_lhs[*x as usize] {
                add.push(((*q, 0), l));
            }
        }
        let mut ch = false;
        for (k, l) in add {
            match out.get_mut(&k) {
                Some(e) => {
                    ch |= *e | l != *e;
                    *e |= l;
                }
                None => {
                    out.insert(k, l);
                    ch = true;
                }
            }
        }
        if !ch {
            return out;
        }
    }
}

fn items(c: &Case, r: &mut Rec) -> Verdict {
    use lrp::Position;
    let g = &c.g;
    let rg = RefG::new(g);
    // (production, point, lookaheads), each twice as likely to share a body with an earlier one
    let mut picks: Vec<(usize, usize, Bits)> = Vec::new();
    for ch in c.extra.chunks_exact(4) {
        let p = ch[0] as usize % rg.prods.len();
        let (p, d) = match picks.get(ch[3] as usize % 16) {
            Some(x) => (x.0, x.1),
            None => (p, ch[1] as usize % (rg.prods[p].2.len() + 1)),
        };
        // up to three terminals, or none (items without lookahead are public as well)
        let mut look: Bits = 0;
        for k in 0..(ch[2] % 4) {
            look |= 1 << ((ch[2] as usize / 4 + k as usize * 5) % (g.ts + 1));
        }
        picks.push((p, d, look));
    }
    let gr = g.grammar();
    let looks = |b: Bits| -> Set<Sy> {
        (0..=g.ts)
            .filter(|i| b >> i & 1 == 1)
            .map(|i| g.sy((g.nts + i) as u16))
            .collect()
    };
    let make = |&(p, d, l): &(usize, usize, Bits)| {
        let (lhs, i, _) = &rg.prods[p];
        Position::new(g.sy(*lhs), gr.rules[&g.sy(*lhs)].prods[*i].clone(), d, looks(l))
    };
    let all: Vec<Position<Sy>> = picks.iter().map(make).collect();
    for (x, pos) in picks.iter().zip(&all) {
        r.eval();
        let rhs = &rg.prods[x.0].2;
        let id = |s: Option<Sy>| s.map(|s| s.id);
        let at = || format!("the item {pos:?}");
        ensure!(id(pos.top()) == rhs.get(x.1).copied(), "{}: top is {:?}", at(), pos.top());
        ensure!(id(pos.next()) == rhs.get(x.1 + 1).copied(), "{}: next is {:?}", at(), pos.next());
        for q in 0..4 {
            ensure!(
                id(pos.peek(q)) == rhs.get(x.1 + q).copied() && id(pos.abs_idx(q)) == rhs.get(q).copied(),
                "{}: peek({q}) is {:?}, abs_idx({q}) is {:?}",
                at(),
                pos.peek(q),
                pos.abs_idx(q)
            );
        }
        ensure!(pos.finished() == (x.1 == rhs.len()), "{}: finished is {}", at(), pos.finished());
        // its printed form, spaces apart, has the dot where the item is
        let mut want = vec![format!("{:?}", pos.rule), "=".into()];
        for d in 0..=rhs.len() {
            if d == x.1 {
                want.push(".".into());
            }
            want.extend(rhs.get(d).map(|s| format!("{:?}", g.sy(*s))));
        }
        want.push(format!("{:?}", pos.look));
        let squeeze = |s: String| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        let want = squeeze(want.concat());
        ensure!(
            squeeze(format!("{pos}")) == want && squeeze(format!("{pos:?}")) == want,
            "{rhs:?} at {} with {:?} is printed as {pos}",
            x.1,
            pos.look
        );
        // walking on, symbol by symbol, to the end and no further
        let mut cur = pos.clone();
        let mut left = rhs.len() - x.1;
        while let Some(n) = cur.clone_next() {
            ensure!(left > 0, "{} goes on past its end: {n:?}", at());
            left -= 1;
            let mut adv = cur.clone();
            adv.adv();
            ensure!(
                n == adv && n.point == cur.point + 1 && n.rule == cur.rule && n.seq == cur.seq && n.look == cur.look,
                "{}: after {cur:?} comes {n:?}, or {adv:?}",
                at()
            );
            cur = n;
        }
        ensure!(left == 0 && cur.finished(), "{} ends {left} symbols early", at());
        ensure!(
            pos.no_look().look.is_empty() && pos.no_look().body_eq(pos),
            "{} without lookahead is {:?}",
            at(),
            pos.no_look()
        );
        let other = looks(x.2.rotate_left(1) & ((2 << g.ts) - 1));
        let with = pos.clone().with_look(other.clone());
        ensure!(
            with.look == other && with.body_eq(pos),
            "{} with the lookahead {other:?} is {with:?}",
            at()
        );
        // printed: the rule, the symbols in order, one dot, the lookaheads
        let txt: String = format!("{pos}").split_whitespace().collect();
        let mut want = format!("#{}=", rg.prods[x.0].0);
        for (i, s) in rhs.iter().enumerate() {
            if i == x.1 {
                want.push('.');
            }
            want.push_str(&format!("#{s}"));
        }
        if x.1 == rhs.len() {
            want.push('.');
        }
        want.push_str(&format!("{:?}", pos.look).split_whitespace().collect::<String>());
        ensure!(txt == want, "the item {want} is printed as {pos}");
        for (y, o) in picks.iter().zip(&all) {
            ensure!(
                pos.body_eq(o) == (x.0 == y.0 && x.1 == y.1)
                    // a rule may have the same production twice: its number is part of the body
                    && (pos == o) == (x == y),
                "{} and {o:?} are compared wrongly",
                at()
            );
        }
    }
    // sets of items
    let set: State<Sy> = all.iter().cloned().collect();
    let mut bodies_of: Bodies = Bodies::new();
    for (p, d, l) in &picks {
        *bodies_of.entry((*p, *d)).or_insert(0) |= l;
    }
    let distinct: BTreeSet<_> = picks.iter().collect();
    ensure!(
        set.len() == distinct.len(),
        "{} items make a set of {}: {set:?}",
        distinct.len(),
        set.len()
    );
    let fuel = 60_000_000;
    for k in Kind::ALL {
        let m = guard(fuel, || match k {
            Kind::Slr => Slr::merged(set.clone()),
            Kind::Lalr => Lalr::merged(set.clone()),
            Kind::Clr => Clr::merged(set.clone()),
        })
        .map_err(|e| format!("merging {set:?} {e}"))?;
        ensure!(
            m.len() == bodies_of.len() && bodies(g, &m)? == bodies_of,
            "{set:?} is merged into {m:?}"
        );
    }
    let raw = guard(fuel, || Lalr::without_look(&set)).map_err(|e| format!("dropping lookaheads {e}"))?;
    ensure!(
        raw.len() == bodies_of.len() && raw.iter().all(|p| p.look.is_empty()) && bodies(g, &raw)?.keys().eq(bodies_of.keys()),
        "{set:?} without lookaheads is {raw:?}"
    );
    for s in 0..(g.nts + g.ts + 2) as u16 {
        let f = guard(fuel, || Tabler::sym_filter(&set, &g.sy(s))).map_err(|e| format!("sym_filter {e}"))?;
        let want: BTreeSet<(usize, usize, Bits)> = picks
            .iter()
            .filter(|x| rg.prods[x.0].2.get(x.1) == Some(&s))
            .map(|x| (x.0, x.1 + 1, x.2))
            .collect();
        let mut got = BTreeSet::new();
        for p in &f {
            got.insert((g.prod_id(p.rule.id, p.seq.1), p.point, bits(g, &p.look)?));
        }
        ensure!(
            got == want && f.len() == want.len(),
            "from {set:?} over {} come {f:?}",
            g.name(s)
        );
    }
    // closures of such sets
    let tab = tabler(g)?;
    let lr0: BTreeSet<(usize, usize)> = {
        let zero: BTreeMap<_, _> = bodies_of.keys().map(|k| (*k, 0)).collect();
        close1(&rg, &zero).into_keys().collect()
    };
    let lr1 = close1(&rg, &bodies_of);
    for k in Kind::ALL {
        let t = tab.clone();
        let got = guard(fuel, || match k {
            Kind::Slr => Slr::uninit(t).prop_closure(set.clone()),
            Kind::Lalr => Lalr::uninit(t).prop_closure(set.clone()),
            Kind::Clr => Clr::uninit(t).prop_closure(set.clone()),
        })
        .map_err(|e| format!("the {} closure of {set:?} {e}", k.name()))?;
        let b = bodies(g, &got)?;
        let ok = if k == Kind::Slr {
            b.keys().eq(lr0.iter())
        } else {
            b == lr1
        };
        ensure!(ok, "the {} closure of {set:?} is {got:?}", k.name());
    }
    if bodies_of.len() >= 2 && bodies_of.len() < picks.len() {
        r.label("items sharing a body");
    }
    if lr1.len() > bodies_of.len() {
        r.label("closure adds items");
    }
    if bodies_of.len() >= 2 {
        r.nontrivial((&g.prods, &picks), || format!("{}: {set:?}", g.text()));
    }
    Ok(())
}
fn with_items(_: Tier) -> BoxedStrategy<Case> {
    (gspec::gspec(), prop::collection::vec(any::<u8>(), 4..48))
        .prop_map(|(g, extra)| Case { g, inputs: vec![], extra })
        .boxed()
}
pub static C18: Spec<Case> = Spec {
    id: "C18",
    rule: "A case is a generated grammar with a generated set of up to twelve dotted productions with lookaheads (any, not only those a construction meets); an evaluation is one of them. Non-trivial: at least two different bodies; counted by distinct (productions, items).",
    assumptions: LANG_ASSUME,
    strategy: with_items,
    run: items,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 60000,
    thorough: 2000000,
};

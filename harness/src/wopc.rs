//! Checks of wop: lexer, parser and builder against the references.
use crate::run::{finding, Rec, Spec, Tier, Verdict};
use crate::sym::{guard, Crash};
use crate::wgen::*;
use crate::wref::{self, Lexed, Sp, Val, XDecl, XItem, XKind, XVar};
use proptest::strategy::{BoxedStrategy, Strategy};
use std::str::FromStr;
use wop::builder::{Builder, SrcRef};
use wop::{Ast, Gramem, Sym};

fn sp(s: SrcRef) -> Sp {
    (s.start, s.end)
}
fn short(s: &str) -> String {
    s.chars().take(160).collect()
}
fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, Crash> {
    guard(u64::MAX, f)
}

fn no_fixed(_: Tier) -> Vec<Src> {
    Vec::new()
}

/// A keyword right before a character which is neither ASCII nor part of an identifier is taken for
/// an identifier (a defect of the lexers that logos 0.12 generates).
const KEYWORD: &str = "keyword-before-non-ascii";
pub(crate) fn keyword_cut_short(src: &str, k: Sym, end: usize) -> bool {
    matches!(k, Sym::AliasWord | Sym::UseWord)
        && src[end..]
            .chars()
            .next()
            .map_or(false, |c| wref::NONWORD.contains(&c))
}

// ---- W01 ------------------------------------------------------------------------------------

fn w01_strategy(_: Tier) -> BoxedStrategy<Src> {
    text_src()
}

/// All texts up to a length over an alphabet that reaches every token.
fn w01_fixed(t: Tier) -> Vec<Src> {
    let mut out = vec![Src(String::new())];
    let alpha = ["a", "é", " ", "\n", "/", "*", "\"", "\\", "-", ">", "}", "%", ":", "1"];
    let max = if t == Tier::Quick { 4 } else { 5 };
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for p in &last {
            for a in alpha {
                next.push(format!("{p}{a}"));
            }
        }
        out.extend(next.iter().cloned().map(Src));
        last = next;
    }
    // what only shows after the opening of a comment, a literal or a code block
    let inner = ["}", "%", "*", "/", "\"", "\\", "x", "\n"];
    for (open, close) in [("/*", "*/ a"), ("->", "}% a"), ("\"", "\" a"), ("//", "\n a")] {
        let mut last = vec![String::new()];
        for _ in 0..max {
            let mut next = Vec::new();
            for p in &last {
                for a in inner {
                    next.push(format!("{p}{a}"));
                }
            }
            out.extend(next.iter().map(|m| Src(format!("{open}{m}{close}"))));
            last = next;
        }
    }
    out
}

fn w01_run(i: &Src, r: &mut Rec) -> Verdict {
    let src = i.0.as_str();
    if !wref::known(src) {
        r.label("character outside the reference's classes (skipped)");
        return Ok(());
    }
    r.eval();
    // more tokens than bytes means tokens that stand for nothing
    let got = quiet(|| {
        wop::lexer(src)
            .take(src.len() + 1)
            .map(|g| (g.ty, sp(g.item.span), g.item.item))
            .collect::<Vec<_>>()
    })
    .map_err(|c| format!("the lexer {c}"))?;
    let mut p = 0;
    let mut kinds = std::collections::BTreeSet::new();
    let mut skips = 0;
    let mut bads = 0;
    let mut toks = got.into_iter();
    loop {
        // what is skipped
        let next = loop {
            if p == src.len() {
                break None;
            }
            match wref::lex_at(src, p) {
                Lexed::Skip(e) => {
                    skips += 1;
                    p = e;
                }
                x => break Some(x),
            }
        };
        let Some(next) = next else {
            if let Some((k, s, _)) = toks.next() {
                return Err(format!("a token {k:?} at {s:?} in what is to be skipped"));
            }
            break;
        };
        let Some((k, s, ast)) = toks.next() else {
            return Err(format!("the text from byte {p} on was dropped, {next:?} was expected"));
        };
        ensure!(
            ast == Ast::Token(k),
            "the value of the token {k:?} at {s:?} is {ast:?}"
        );
        match next {
            Lexed::Tok(rk, e) => {
                if rk != Sym::Ident && k == Sym::Ident && s == (p, e) && keyword_cut_short(src, rk, e) {
                    return Err(finding(
                        KEYWORD,
                        &format!("the keyword at {s:?} is taken for an identifier"),
                    ));
                }
                ensure!(
                    k == rk && s == (p, e),
                    "token {k:?} at {s:?}, expected {rk:?} at {:?}",
                    (p, e)
                );
                kinds.insert(k);
                p = e;
            }
            _ => {
                // how far an error reaches is the lexer's choice
                ensure!(k == Sym::Error, "token {k:?} at {s:?} where there is none");
                ensure!(
                    s.0 == p && s.1 > p && s.1 <= src.len() && src.is_char_boundary(s.1),
                    "the error token covers {s:?} instead of text from byte {p} on"
                );
                bads += 1;
                p = s.1;
            }
        }
    }
    if bads > 0 {
        r.label("with text that is no token");
    }
    if skips > 0 {
        r.label("with blanks or comments");
    }
    if kinds.contains(&Sym::CodeBlock) {
        r.label("with a code block");
    }
    if kinds.contains(&Sym::StrLit) {
        r.label("with a string literal");
    }
    if kinds.len() + bads.min(1) >= 2 {
        r.nontrivial(src, || short(src));
    }
    Ok(())
}

pub static W01: Spec<Src> = Spec {
    id: "W01",
    rule: "texts of at least two different kinds of token (or a token and text that is none)",
    assumptions: &[
        "non-ASCII characters are drawn from a fixed list of 17 whose Unicode class the reference lexer knows",
        "the extent of an error token is not specified; lexing is compared again from its end on",
    ],
    strategy: w01_strategy,
    run: w01_run,
    fixed: w01_fixed,
    fixed_note: "all texts of up to 4 (thorough: 5) characters over an alphabet of 14, and all short contents of comments, literals and code blocks",
    quick: 400_000,
    thorough: 12_000_000,
};

// ---- W02 / W03 ------------------------------------------------------------------------------

fn x_item(g: &Gramem) -> Result<XItem, String> {
    let Ast::RuleItem(inner, opt, bind, clone) = &g.item.item else {
        return Err(format!("an item of a production is {:?}", g.item.item));
    };
    if g.ty != Sym::RuleItem {
        return Err(format!("an item has the type {:?}", g.ty));
    }
    let isp = sp(inner.item.span);
    let kind = match (&inner.item.item, inner.ty) {
        (Ast::IdentPath(p), Sym::IdentPath) => {
            if sp(*p) != isp {
                return Err(format!("a path at {isp:?} says it is at {p:?}"));
            }
            XKind::Path
        }
        (Ast::Token(Sym::StrLit), Sym::StrLit) => XKind::Str,
        (Ast::Rule(v), Sym::Rule) => XKind::Group(x_alts(v)?),
        (a, t) => return Err(format!("an item is made of {a:?} of type {t:?}")),
    };
    Ok(XItem {
        kind,
        inner: isp,
        span: sp(g.item.span),
        opt: *opt,
        bind: bind.map(sp),
        clone: *clone,
    })
}
fn x_alts(v: &[wop::RulePipe]) -> Result<Vec<XVar>, String> {
    v.iter()
        .map(|(items, code)| {
            Ok(XVar {
                items: items.iter().map(x_item).collect::<Result<_, _>>()?,
                code: (sp(*code) != (0, 0)).then(|| sp(*code)),
            })
        })
        .collect()
}
fn x_program(g: &Gramem) -> Result<Vec<(XDecl, Sp)>, String> {
    let Ast::Program(v) = &g.item.item else {
        return Err(format!("the result is {:?}", g.item.item));
    };
    v.iter()
        .map(|g| {
            let (d, t) = match &g.item.item {
                Ast::Import(s) => (XDecl::Import(sp(*s)), Sym::Import),
                Ast::Alias(k, t) => (XDecl::Alias(sp(*k), sp(*t)), Sym::Alias),
                Ast::RuleDecl((n, t, alts)) => {
                    (XDecl::Rule(sp(*n), sp(*t), x_alts(alts)?), Sym::RuleDecl)
                }
                a => return Err(format!("a declaration is {a:?}")),
            };
            if g.ty != t {
                return Err(format!("{:?} has the type {:?}", d, g.ty));
            }
            Ok((d, sp(g.item.span)))
        })
        .collect()
}

fn first_difference(want: &[(XDecl, Sp)], got: &[(XDecl, Sp)], src: &str) -> String {
    for (k, (w, g)) in want.iter().zip(got).enumerate() {
        if w != g {
            return format!(
                "declaration {k} ({:?}) was parsed as {:?} at {:?} instead of {:?} at {:?}",
                short(&src[w.1 .0..w.1 .1]),
                g.0,
                g.1,
                w.0,
                w.1
            );
        }
    }
    format!("{} declarations instead of {}", got.len(), want.len())
}

fn depth(items: &[XItem]) -> usize {
    items
        .iter()
        .map(|i| match &i.kind {
            XKind::Group(v) => 1 + v.iter().map(|v| depth(&v.items)).max().unwrap_or(0),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

fn w02_strategy(_: Tier) -> BoxedStrategy<Src> {
    any_src()
}

fn parse_run(i: &Src, r: &mut Rec, only_programs: bool) -> Verdict {
    let src = i.0.as_str();
    if !wref::known(src) {
        r.label("character outside the reference's classes (skipped)");
        return Ok(());
    }
    let toks = wref::lex(src);
    let want = wref::parse(&toks);
    if only_programs && want.is_err() {
        r.label("no program (skipped)");
        return Ok(());
    }
    r.eval();
    let (res, blamed, items) = quiet(|| {
        let mut dfa = wop::build_parser(wop::lexer(src));
        let res = dfa.start();
        let blamed = dfa.buffer.peek().map(|t| (t.ty, sp(t.item.span).0));
        (res, blamed, dfa.items)
    })
    .map_err(|c| format!("parsing {c}"))?;
    match want {
        Ok(want) => {
            ensure!(
                res.is_ok(),
                "a correct program was rejected: {:?} at {blamed:?}",
                res.unwrap_err()
            );
            ensure!(
                items.len() == 1 && items[0].ty == Sym::Program,
                "parsing left {} values, of types {:?}",
                items.len(),
                items.iter().map(|i| i.ty).collect::<Vec<_>>()
            );
            let got = x_program(&items[0])?;
            ensure!(want == got, "{}", first_difference(&want, &got, src));
            let ends = (toks[0].1 .0, toks.last().unwrap().1 .1);
            ensure!(
                sp(items[0].item.span) == ends,
                "the program covers {:?} instead of {ends:?}",
                items[0].item.span
            );
            r.label("program");
            let deep = want
                .iter()
                .map(|d| match &d.0 {
                    XDecl::Rule(_, _, a) => a.iter().map(|v| depth(&v.items)).max().unwrap_or(0),
                    _ => 0,
                })
                .max()
                .unwrap_or(0);
            if deep > 1 {
                r.label("nested groups");
            }
            if deep > 20 {
                r.label("groups nested over 20 deep");
            }
            if only_programs && toks.len() >= 8 {
                r.nontrivial(src, || short(src));
            }
        }
        Err(k) => {
            ensure!(res.is_err(), "text that is no program was accepted");
            let bad = toks.get(k).map(|t| (t.0, t.1 .0));
            if blamed != bad && toks.iter().any(|t| keyword_cut_short(src, t.0, t.1 .1)) {
                let mut toks = toks.clone();
                for t in &mut toks {
                    if keyword_cut_short(src, t.0, t.1 .1) {
                        t.0 = Sym::Ident;
                    }
                }
                let k = wref::parse(&toks).err();
                if blamed == k.and_then(|k| toks.get(k)).map(|t| (t.0, t.1 .0)) {
                    return Err(finding(
                        KEYWORD,
                        &format!("the parser stopped at {blamed:?} instead of {bad:?}"),
                    ));
                }
            }
            ensure!(
                blamed == bad,
                "the parser stopped at {blamed:?}, the first token that cannot be right is {bad:?}"
            );
            r.label(match bad {
                None => "cut off",
                Some((Sym::Error, _)) => "text that is no token",
                Some(_) => "wrong token",
            });
            if k > 0 {
                r.nontrivial(src, || short(src));
            }
        }
    }
    Ok(())
}

fn w02_run(i: &Src, r: &mut Rec) -> Verdict {
    parse_run(i, r, true)
}

fn repo_grammar() -> Vec<Src> {
    std::fs::read_to_string("/repo/wop/src/wop.grammar")
        .ok()
        .map(Src)
        .into_iter()
        .collect()
}
fn w02_fixed(_: Tier) -> Vec<Src> {
    repo_grammar()
}

pub static W02: Spec<Src> = Spec {
    id: "W02",
    rule: "programs of at least eight tokens, compared node by node with byte ranges",
    assumptions: &["non-ASCII characters are drawn from a fixed list of 17"],
    strategy: w02_strategy,
    run: w02_run,
    fixed: w02_fixed,
    fixed_note: "wop's own grammar",
    quick: 16_000,
    thorough: 500_000,
};

fn w03_strategy(_: Tier) -> BoxedStrategy<Src> {
    proptest::prop_oneof![4 => token_src(), 1 => text_src()].boxed()
}
fn w03_run(i: &Src, r: &mut Rec) -> Verdict {
    parse_run(i, r, false)
}
/// All short token sequences, and wop's grammar cut at every token.
fn w03_fixed(t: Tier) -> Vec<Src> {
    let mut out = vec![Src(String::new())];
    let words = [
        "A", "\"s\"", "|", "(", ")", ";", "::", ":", "*", "?", "&", "=", "->{}%", "alias", "use", "@",
    ];
    let mut last = vec![String::new()];
    for _ in 0..3 {
        let mut next = Vec::new();
        for p in &last {
            for w in words {
                next.push(format!("{p}{w} "));
            }
        }
        out.extend(next.iter().cloned().map(Src));
        last = next;
    }
    // every pair of tokens after every beginning of a program that reaches all of the grammar
    let long = "use a::b::*; alias \"+\" A::B; R::S: T::U = A::B \"s\"? (C:&c | D? (E F):g)?:h G:&i ->{}% | B ->{}%; use x;";
    let step = if t == Tier::Quick { 3 } else { 1 };
    for (k, (_, s)) in wref::lex(long).iter().enumerate() {
        out.push(Src(long[..s.1].to_string()));
        for w in words {
            out.push(Src(format!("{} {w}", &long[..s.1])));
            out.push(Src(format!("{} {w} {}", &long[..s.0], &long[s.1..])));
            if k % step == 0 {
                for v in words {
                    out.push(Src(format!("{} {w} {v}", &long[..s.1])));
                }
            }
        }
    }
    out
}

pub static W03: Spec<Src> = Spec {
    id: "W03",
    rule: "texts rejected after at least one token that could stand where it does, blamed token compared",
    assumptions: &["non-ASCII characters are drawn from a fixed list of 17"],
    strategy: w03_strategy,
    run: w03_run,
    fixed: w03_fixed,
    fixed_note: "all sequences of up to three tokens; every token, and every pair (thorough) or a third of the pairs (quick), after every prefix of a program",
    quick: 16_000,
    thorough: 500_000,
};

// ---- W04 / W05 / W06 ------------------------------------------------------------------------

/// The reference's declarations of a source whose parse wop agrees with.
fn agreed(i: &Src, r: &mut Rec) -> Option<Vec<(XDecl, Sp)>> {
    let src = i.0.as_str();
    if !wref::known(src) {
        r.label("character outside the reference's classes (skipped)");
        return None;
    }
    match wref::parse(&wref::lex(src)) {
        Ok(d) => Some(d),
        Err(_) => {
            r.label("no program (skipped)");
            None
        }
    }
}

fn build(src: &str) -> Result<Result<Builder, String>, Crash> {
    quiet(|| {
        let mut dfa = wop::build_parser(wop::lexer(src));
        if let Err(e) = dfa.start() {
            return Err(format!("{e}"));
        }
        let mut b = Builder::new("Gramem".to_string());
        b.process(&dfa.items[0], src);
        Ok(b)
    })
}

fn built(i: &Src, r: &mut Rec) -> Result<Option<(wref::XBuilt, Builder)>, String> {
    let src = i.0.as_str();
    let Some(decls) = agreed(i, r) else {
        return Ok(None);
    };
    if !wref::supported(&decls, src) {
        r.label("outside the supported sources (skipped)");
        return Ok(None);
    }
    let Ok(want) = wref::build(&decls, src) else {
        r.label("not to be built (skipped)");
        return Ok(None);
    };
    r.eval();
    let got = build(src).map_err(|c| format!("building {c}"))?;
    let got = got.map_err(|e| format!("a correct program was rejected: {e}"))?;
    Ok(Some((want, got)))
}

fn w04_strategy(_: Tier) -> BoxedStrategy<Src> {
    good_src()
}

fn w04_run(i: &Src, r: &mut Rec) -> Verdict {
    let src = i.0.as_str();
    let Some((want, got)) = built(i, r)? else {
        return Ok(());
    };
    let t = |s: Sp| wref::squeeze(&src[s.0..s.1]);
    let gt = |s: &SrcRef| wref::squeeze(s.from_source(src));
    ensure!(
        want.imports.iter().map(|s| t(*s)).collect::<Vec<_>>()
            == got.imports.iter().map(gt).collect::<Vec<_>>(),
        "imports: {:?}",
        got.imports.iter().map(gt).collect::<Vec<_>>()
    );
    let mut names: Vec<String> = got.rules.keys().map(|k| wref::squeeze(k)).collect();
    names.sort();
    let mut wnames: Vec<String> = want.rules.iter().map(|x| t(x.name)).collect();
    wnames.sort();
    ensure!(names == wnames, "rules {names:?} instead of {wnames:?}");
    let mut expanded = false;
    for w in &want.rules {
        let g = &got.rules[&src[w.name.0..w.name.1]];
        // as multisets: which production has which number is the builder's choice
        let mut a: Vec<(Vec<String>, &str, String)> = w
            .alts
            .iter()
            .flat_map(|a| {
                a.prods.iter().map(|p| {
                    (
                        p.syms.iter().map(|s| t(*s)).collect(),
                        &src[a.code.0..a.code.1],
                        t(w.ty),
                    )
                })
            })
            .collect();
        let mut b: Vec<(Vec<String>, &str, String)> = g
            .iter()
            .map(|p| {
                (
                    p.production.iter().map(gt).collect(),
                    p.codeblock.from_source(src),
                    gt(&p.ty),
                )
            })
            .collect();
        if a.len() > w.alts.len() {
            expanded = true;
        }
        a.sort();
        b.sort();
        if a != b {
            let miss: Vec<_> = a.iter().filter(|x| !b.contains(x)).take(3).collect();
            let extra: Vec<_> = b.iter().filter(|x| !a.contains(x)).take(3).collect();
            return Err(format!(
                "rule {:?}: {} productions instead of {}, missing {miss:?}, not to be there {extra:?}",
                t(w.name),
                b.len(),
                a.len()
            ));
        }
    }
    if !want.aliases.is_empty() {
        r.label("with aliases");
    }
    if expanded {
        r.label("groups or optional items expanded");
        r.nontrivial(src, || short(src));
    }
    Ok(())
}

pub static W04: Spec<Src> = Spec {
    id: "W04",
    rule: "programs in which groups or optional items expand into several productions",
    assumptions: &[
        "no production may be empty, an alias is declared before its uses, a rule's name has one spelling, at most 3000 productions per rule",
    ],
    strategy: w04_strategy,
    run: w04_run,
    fixed: w02_fixed,
    fixed_note: "wop's own grammar",
    quick: 12_000,
    thorough: 400_000,
};

fn w05_run(i: &Src, r: &mut Rec) -> Verdict {
    let src = i.0.as_str();
    let Some((want, got)) = built(i, r)? else {
        return Ok(());
    };
    let gt = |s: &SrcRef| wref::squeeze(s.from_source(src));
    for w in &want.rules {
        let g = &got.rules[&src[w.name.0..w.name.1]];
        let show = |b: &wref::Bind| {
            format!(
                "{}{}={:?}{}{}",
                if b.clone { "&" } else { "" },
                b.name,
                b.val,
                if b.slice { " slice" } else { "" },
                if b.opt { " optional" } else { "" }
            )
        };
        let mut a: Vec<(Vec<String>, &str, Vec<String>)> = w
            .alts
            .iter()
            .flat_map(|a| {
                a.prods.iter().map(|p| {
                    (
                        p.syms
                            .iter()
                            .map(|s| wref::squeeze(&src[s.0..s.1]))
                            .collect(),
                        &src[a.code.0..a.code.1],
                        p.binds.iter().map(show).collect(),
                    )
                })
            })
            .collect();
        let mut b: Vec<(Vec<String>, &str, Vec<String>)> = g
            .iter()
            .map(|p| {
                let mut binds: Vec<wref::Bind> = p
                    .aliases
                    .iter()
                    .map(|a| wref::Bind {
                        name: a.alias.from_source(src).to_string(),
                        val: match (a.optional, a.final_index) {
                            (Some(false), _) => Val::Absent,
                            (_, None) => Val::Item(a.index),
                            (_, Some(e)) => Val::Slice(a.index, e),
                        },
                        opt: a.optional.is_some(),
                        slice: a.final_index.is_some(),
                        clone: a.clone,
                    })
                    .collect();
                binds.sort();
                (
                    p.production.iter().map(gt).collect(),
                    p.codeblock.from_source(src),
                    binds.iter().map(show).collect(),
                )
            })
            .collect();
        a.sort();
        b.sort();
        if a != b {
            let (x, y) = a
                .iter()
                .zip(&b)
                .find(|(x, y)| x != y)
                .map_or((None, None), |(x, y)| (Some(x), Some(y)));
            return Err(format!(
                "rule {:?}: a production binds {y:?} instead of {x:?}",
                wref::squeeze(&src[w.name.0..w.name.1])
            ));
        }
    }
    let binds = || {
        want.rules
            .iter()
            .flat_map(|r| &r.alts)
            .flat_map(|a| &a.prods)
            .flat_map(|p| &p.binds)
    };
    if binds().any(|b| b.val == Val::Absent) {
        r.label("absent names");
    }
    if binds().any(|b| b.slice && b.val != Val::Absent) {
        r.label("names of groups");
    }
    if binds().any(|b| b.opt && b.slice) {
        r.label("optional names of groups");
    }
    if binds().any(|b| b.opt) {
        r.nontrivial(src, || short(src));
    }
    Ok(())
}

pub static W05: Spec<Src> = Spec {
    id: "W05",
    rule: "programs with a name bound in an optional item or in a group",
    assumptions: &[
        "no production binds a name twice, and a name shared by variants of a group has one type; otherwise as for W04",
    ],
    strategy: w04_strategy,
    run: w05_run,
    fixed: w02_fixed,
    fixed_note: "wop's own grammar",
    quick: 12_000,
    thorough: 400_000,
};

fn w06_strategy(_: Tier) -> BoxedStrategy<Src> {
    faulty_src()
}
pub fn faulty_src() -> BoxedStrategy<Src> {
    use proptest::prelude::*;
    let fault = (0u8..6, any::<u16>(), any::<u16>());
    (good_decls(), prop::collection::vec(fault, 0..3), layout())
        .prop_map(|(mut d, faults, l)| {
            for (k, a, b) in faults {
                inject(&mut d, k, a as usize, b as usize);
            }
            Src(render(&tokens(&d), &l).0)
        })
        .boxed()
}

/// Makes a program that must not be built.
fn inject(d: &mut Vec<Decl>, kind: u8, a: usize, b: usize) {
    let rules: Vec<usize> = (0..d.len())
        .filter(|i| matches!(d[*i], Decl::Rule(..)))
        .collect();
    let als: Vec<usize> = (0..d.len())
        .filter(|i| matches!(d[*i], Decl::Alias(..)))
        .collect();
    match kind {
        0 | 1 if !rules.is_empty() => {
            // the same rule twice, with the same or another body
            let from = rules[a % rules.len()];
            let mut c = d[from].clone();
            if kind == 1 {
                if let Decl::Rule(_, ty, alts) = &mut c {
                    ty[0] = "Other".into();
                    alts.truncate(1);
                }
            }
            let at = b % (d.len() + 1);
            d.insert(at, c);
        }
        2 if !als.is_empty() => {
            let from = als[a % als.len()];
            let mut c = d[from].clone();
            if b % 2 == 0 {
                if let Decl::Alias(_, t) = &mut c {
                    *t = vec!["Other".into()];
                }
            }
            d.insert(from + 1, c);
        }
        3 if !rules.is_empty() => {
            if let Decl::Rule(_, _, alts) = &mut d[rules[a % rules.len()]] {
                let n = alts.len();
                alts[b % n].code = None;
            }
        }
        4 | 5 if !rules.is_empty() => {
            fn groups<'a>(items: &'a mut [Item], out: &mut Vec<&'a mut Variant>) {
                for i in items {
                    if let What::Group(v) = &mut i.what {
                        for v in v {
                            // a variant with groups of its own: those, or it
                            if v.items.iter().any(|i| matches!(i.what, What::Group(_)))
                                && v.items.len() % 2 == 0
                            {
                                groups(&mut v.items, out);
                            } else {
                                out.push(v);
                            }
                        }
                    }
                }
            }
            if let Decl::Rule(_, _, alts) = &mut d[rules[a % rules.len()]] {
                let mut vs = Vec::new();
                for alt in alts {
                    groups(&mut alt.items, &mut vs);
                }
                if !vs.is_empty() {
                    let n = vs.len();
                    vs[b % n].code = Some("-> { y }%".into());
                }
            }
        }
        _ => {}
    }
}

fn w06_run(i: &Src, r: &mut Rec) -> Verdict {
    let src = i.0.as_str();
    let Some(decls) = agreed(i, r) else {
        return Ok(());
    };
    if !wref::supported(&decls, src) {
        r.label("outside the supported sources (skipped)");
        return Ok(());
    }
    r.eval();
    let want = wref::build(&decls, src).map(|_| ());
    let got = build(src);
    let by_str = quiet(|| Builder::from_str(src).map_err(|e| format!("{e}")));
    for (how, got) in [("process", &got), ("from_str", &by_str)] {
        match (want, got) {
            (Ok(()), Err(c)) => return Err(format!("a correct program: {how} {c}")),
            (_, Ok(Err(e))) => return Err(format!("{how} rejected the syntax of a program: {e}")),
            (Err(f), Ok(Ok(_))) => {
                return Err(format!("{how} built a program in spite of {f:?}"));
            }
            _ => {}
        }
    }
    match want {
        Ok(()) => {
            r.label("to be built");
            let (Ok(Ok(a)), Ok(Ok(b))) = (got, by_str) else {
                unreachable!()
            };
            // the two ways of building agree
            let rules = |b: &Builder| {
                let mut v: Vec<String> = b
                    .rules
                    .iter()
                    .map(|(n, r)| {
                        let mut ps: Vec<String> = r
                            .iter()
                            .map(|p| {
                                let mut al: Vec<_> = p
                                    .aliases
                                    .iter()
                                    .map(|a| {
                                        // of an absent name only the kind matters
                                        let at = (a.optional != Some(false))
                                            .then_some((a.index, a.final_index));
                                        let n = a.alias.from_source(src);
                                        (n, a.optional, at, a.final_index.is_some(), a.clone)
                                    })
                                    .collect();
                                al.sort_unstable();
                                format!("{:?} {:?} {:?} {al:?}", p.production, p.codeblock, p.ty)
                            })
                            .collect();
                        ps.sort();
                        format!("{n} {ps:?}")
                    })
                    .collect();
                v.sort();
                v
            };
            ensure!(
                rules(&a) == rules(&b) && a.imports == b.imports,
                "from_str and process build different rules"
            );
        }
        Err(f) => {
            r.label(match f {
                wref::Fault::DuplicateRule => "duplicate rule",
                wref::Fault::DuplicateAlias => "duplicate alias",
                wref::Fault::MissingCode => "missing code block",
                wref::Fault::CodeInGroup => "code block in a group",
            });
            r.nontrivial(src, || short(src));
        }
    }
    Ok(())
}

pub static W06: Spec<Src> = Spec {
    id: "W06",
    rule: "programs with a fault that must stop the builder",
    assumptions: &["as for W04; a rule declared twice is spelled alike both times"],
    strategy: w06_strategy,
    run: w06_run,
    fixed: no_fixed,
    fixed_note: "none",
    quick: 8_000,
    thorough: 250_000,
};

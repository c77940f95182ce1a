//! Check of the text of generated code: it is read as Rust and its bindings are evaluated.
use crate::run::{Rec, Spec, Tier, Verdict};
use crate::sym::guard;
use crate::wgen::{any_decls, good_src, render, tame, tokens, Decl, Item, Src, Variant, What};
use crate::wref::{self, Bind, Val, XDecl, XItem, XKind};
use proptest::prelude::*;
use proptest::sample::select;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::{Block, Expr, Lit, Pat, Stmt, Token};
use wop::builder::Builder;

// ---- sources whose names, literals and code are Rust ----------------------------------------

const CODES: &[&str] = &[
    "-> { x }%",
    "->{}%",
    "->{{ y }}%",
    "-> { 1 % 2 }%",
    "-> { let v = vec![toks.len()]; v }%",
    "-> { \"} %\" }%",
    "-> { '}' }%",
    "-> {\n\t// 100% of it\n\tmatch toks { [a] => a, _ => { unreachable!() } }\n}%",
    "-> { |x: u8| -> u8 { x } }%",
    "->\n{ a::<b>(c)? ; }\n%",
    "-> { /* -> */ r#\"\"q\"\"# }%",
    "-> { \"two  spaces\\n\" }%",
    "-> { // [toks]\n toks[0] }%",
    "-> { let x = 1; let x = None::<u8>; x }%",
];
const LITS: &[&str] = &[
    "\"+\"", "\"(\"", "\"\\\"\"", "\"->\"", "\"}%\"", "\"//\"", "\"\"", "\"A\"", "\"/*\"", "\"é\"", "\"::\"", "\";\"",
    "\"\\\\\"", "\"\\n\"", "\"a\nb\"", "\"{}\"",
];

struct Fix {
    n: usize,
    seed: usize,
}
impl Fix {
    fn pick<'a>(&mut self, from: &[&'a str]) -> &'a str {
        self.n += 1;
        from[self.seed.wrapping_mul(2 * self.n + 1).wrapping_add(self.n * 7919) / 64 % from.len()]
    }
    fn name(&self, s: &mut String) {
        if s == "_" {
            s.push('_');
        }
    }
    fn path(&self, p: &mut [String]) {
        p.iter_mut().for_each(|s| self.name(s));
    }
    fn vars(&mut self, vs: &mut [Variant]) {
        for v in vs {
            if v.code.is_some() {
                v.code = Some(self.pick(CODES).to_string());
            }
            self.items(&mut v.items);
        }
    }
    fn items(&mut self, items: &mut [Item]) {
        for i in items {
            match &mut i.what {
                What::Path(p) => self.path(p),
                What::Str(s) => *s = self.pick(LITS).to_string(),
                What::Group(v) => self.vars(v),
            }
            if let Some((_, n)) = &mut i.bind {
                self.name(n);
            }
        }
    }
}
fn rust_decls() -> BoxedStrategy<Vec<Decl>> {
    (any_decls(), any::<u32>())
        .prop_map(|(mut d, seed)| {
            let mut f = Fix { n: 0, seed: seed as usize };
            for d in &mut d {
                match d {
                    Decl::Import(p, _) => f.path(p),
                    Decl::Alias(k, t) => {
                        match k {
                            Ok(k) => f.name(k),
                            Err(s) => *s = f.pick(LITS).to_string(),
                        }
                        f.path(t);
                    }
                    Decl::Rule(n, t, v) => {
                        f.path(n);
                        f.path(t);
                        f.vars(v);
                    }
                }
            }
            tame(&mut d, 60, "A");
            d
        })
        .boxed()
}
fn rust_layout() -> BoxedStrategy<Vec<String>> {
    let t = select(vec![
        "", " ", " ", "\n", "\t", "\r\n", " /* c */ ", " // c\n", " /* * **/", "// }%\n", " /* -> */ ",
    ])
    .prop_map(str::to_string);
    prop_oneof![
        1 => Just(vec![" ".to_string()]),
        1 => Just(vec![String::new()]),
        2 => prop::collection::vec(t, 1..20),
    ]
    .boxed()
}
fn strategy(_: Tier) -> BoxedStrategy<Src> {
    prop_oneof![
        9 => (rust_decls(), rust_layout()).prop_map(|(d, l)| Src(render(&tokens(&d), &l).0)),
        3 => crate::we2e::case().prop_map(|c| Src(c.src)),
        1 => good_src(),
    ]
    .boxed()
}

// ---- reading Rust ---------------------------------------------------------------------------

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}
fn rust<T: syn::parse::Parse + ToTokens>(s: &str) -> Option<String> {
    syn::parse_str::<T>(s).ok().map(|t| toks(&t))
}
fn rust_code(s: &str) -> Option<String> {
    match syn::parse_str::<Expr>(s.strip_prefix("->")?.strip_suffix('%')?).ok()? {
        Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() => Some(toks(&b)),
        _ => None,
    }
}
fn name(s: &str) -> Option<String> {
    rust::<syn::Ident>(s)
}

/// What can be said about the value of an expression.
#[derive(Debug, Clone, PartialEq, Eq)]
struct Value {
    val: Val,
    /// `None`: not known
    kind: Option<(bool, bool)>,
    opt: bool,
}

fn number(e: &Expr) -> Option<usize> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        Expr::Paren(p) => number(&p.expr),
        _ => None,
    }
}
/// `toks[..]`, as an item or a range of them.
fn place(e: &Expr, len: usize) -> Option<Val> {
    match e {
        Expr::Paren(p) => place(&p.expr, len),
        Expr::Index(x) if toks(&*x.expr) == "toks" => match &*x.index {
            Expr::Range(r) => {
                let a = r.from.as_deref().map_or(Some(0), number)?;
                let b = r.to.as_deref().map_or(Some(len), number)?;
                let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
                Some(Val::Slice(a, b + usize::from(closed && r.to.is_some())))
            }
            i => number(i).map(Val::Item),
        },
        _ => None,
    }
}
fn eval(e: &Expr, env: &BTreeMap<String, Value>, len: usize) -> Option<Value> {
    let bare = |val: Val, clone: bool| {
        let slice = matches!(val, Val::Slice(..));
        Some(Value { val, kind: Some((slice, clone)), opt: false })
    };
    match e {
        Expr::Paren(p) => eval(&p.expr, env, len),
        Expr::Reference(r) if r.mutability.is_none() => bare(place(&r.expr, len)?, false),
        Expr::MethodCall(m) if m.args.is_empty() && ["clone", "to_vec", "to_owned"].contains(&m.method.to_string().as_str()) => {
            let v = place(&m.receiver, len)?;
            // a range is copied by to_vec, an item by clone
            let ranged = matches!(v, Val::Slice(..));
            if ranged == (m.method == "clone") {
                return None;
            }
            bare(v, true)
        }
        Expr::Call(c) if toks(&*c.func) == "Some" && c.args.len() == 1 => {
            let v = eval(&c.args[0], env, len)?;
            (!v.opt).then_some(Value { opt: true, ..v })
        }
        Expr::Path(p) => {
            let p = toks(p);
            if p == "None" {
                return Some(Value { val: Val::Absent, kind: None, opt: true });
            }
            env.get(&p).cloned()
        }
        _ => None,
    }
}

/// The names bound in front of the user's code, and that code. `Err`: written in a way this does not
/// understand.
fn function(f: &syn::ItemFn, len: usize) -> Result<(BTreeMap<String, Value>, String), String> {
    let Some(Stmt::Expr(Expr::Call(c))) = f.block.stmts.last() else {
        return Err("the end of a function".into());
    };
    if f.block.stmts.len() != 1 {
        return Err("statements before the value".into());
    }
    let Some(Expr::Block(b)) = c.args.first() else {
        return Err("the value of a function".into());
    };
    let Some((Stmt::Expr(code), lets)) = b.block.stmts.split_last() else {
        return Err("the end of a value".into());
    };
    let mut env: BTreeMap<String, Value> = BTreeMap::new();
    for s in lets {
        match s {
            Stmt::Local(l) => {
                let pat = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                let (Pat::Ident(i), Some((_, e))) = (pat, &l.init) else {
                    return Err(format!("{}", toks(l)));
                };
                let v = eval(e, &env, len).ok_or_else(|| toks(l))?;
                env.insert(i.ident.to_string(), v);
            }
            Stmt::Semi(Expr::Assign(a), _) => {
                let n = toks(&*a.left);
                let v = eval(&a.right, &env, len).ok_or_else(|| toks(a))?;
                let Some(old) = env.get(&n) else {
                    return Err(toks(a));
                };
                let kind = v.kind.or(old.kind);
                env.insert(n, Value { kind, ..v });
            }
            s => return Err(toks(s)),
        }
    }
    Ok((env, toks(code)))
}

/// The pairs which are inserted into the map a block makes.
fn inserts(b: &Block) -> Vec<(&Expr, &Expr)> {
    b.stmts
        .iter()
        .filter_map(|s| match s {
            Stmt::Semi(Expr::MethodCall(m), _) if m.method == "insert" && m.args.len() == 2 => {
                Some((&m.args[0], &m.args[1]))
            }
            _ => None,
        })
        .collect()
}
fn list(e: &Expr) -> Option<Vec<Expr>> {
    let Expr::Macro(m) = e else {
        return None;
    };
    if !m.mac.path.is_ident("vec") {
        return None;
    }
    Punctuated::<Expr, Token![,]>::parse_terminated
        .parse2(m.mac.tokens.clone())
        .ok()
        .map(|p| p.into_iter().collect())
}
fn uses(b: &Block) -> Vec<String> {
    b.stmts
        .iter()
        .filter_map(|s| match s {
            Stmt::Item(syn::Item::Use(u)) => Some(toks(&u.tree)),
            _ => None,
        })
        .collect()
}

// ---- what it is compared with ---------------------------------------------------------------

type Prod = (Vec<String>, String, String, Vec<String>);

fn all_rust(decls: &[(XDecl, wref::Sp)], src: &str) -> bool {
    let t = |s: wref::Sp| &src[s.0..s.1];
    fn items(v: &[XItem], src: &str) -> bool {
        v.iter().all(|i| {
            i.bind.map_or(true, |b| name(&src[b.0..b.1]).is_some_and(|n| n != "toks"))
                && match &i.kind {
                    XKind::Path => rust::<syn::Path>(&src[i.inner.0..i.inner.1]).is_some(),
                    XKind::Str => rust::<syn::LitStr>(&src[i.inner.0..i.inner.1]).is_some(),
                    XKind::Group(v) => v.iter().all(|v| items(&v.items, src)),
                }
        })
    }
    decls.iter().all(|(d, _)| match d {
        XDecl::Import(p) => rust::<syn::UseTree>(t(*p)).is_some(),
        XDecl::Alias(_, p) => rust::<syn::Path>(t(*p)).is_some(),
        XDecl::Rule(n, ty, alts) => {
            rust::<syn::Path>(t(*n)).is_some()
                && rust::<syn::Path>(t(*ty)).is_some()
                && alts
                    .iter()
                    .all(|a| a.code.is_some_and(|c| rust_code(t(c)).is_some()) && items(&a.items, src))
        }
    })
}

/// A bound name as it is compared; the kind of an absent one is part of it where it can be seen.
fn show(name: &str, v: &Value) -> String {
    let kind = match v.kind {
        None => "of some kind",
        Some((false, false)) => "item",
        Some((false, true)) => "cloned item",
        Some((true, false)) => "slice",
        Some((true, true)) => "vector",
    };
    format!("{name} = {:?} {kind}{}", v.val, if v.opt { " optional" } else { "" })
}

const ENTRIES: &[&str] = &["Gramem", "crate::Tok", "lrp::Token<lrp::Meta<Ast>, Sym>", "[u8; 2]"];

fn run(i: &Src, r: &mut Rec) -> Verdict {
    let src = i.0.as_str();
    if !wref::known(src) {
        r.label("character outside the reference's classes (skipped)");
        return Ok(());
    }
    let Ok(decls) = wref::parse(&wref::lex(src)) else {
        r.label("no program (skipped)");
        return Ok(());
    };
    if !wref::supported(&decls, src) {
        r.label("outside the supported sources (skipped)");
        return Ok(());
    }
    let Ok(want) = wref::build(&decls, src) else {
        r.label("not to be built (skipped)");
        return Ok(());
    };
    if !all_rust(&decls, src) {
        r.label("names, literals or code that are not Rust (skipped)");
        return Ok(());
    }
    let paths: BTreeSet<String> = want
        .rules
        .iter()
        .filter_map(|x| rust::<syn::Path>(&src[x.name.0..x.name.1]))
        .collect();
    r.eval();
    let entry = ENTRIES[src.len() % ENTRIES.len()];
    let (g, d) = guard(u64::MAX, || {
        let mut dfa = wop::build_parser(wop::lexer(src));
        dfa.start().map_err(|e| format!("a correct program was rejected: {e}"))?;
        let mut b = Builder::new(entry.to_string());
        b.process(&dfa.items[0], src);
        Ok::<_, String>((b.dump_grammar(src), b.dump_reductor(src)))
    })
    .map_err(|c| format!("generating code {c}"))??;
    let gb: Block = syn::parse_str(&g).map_err(|e| format!("the generated grammar is not Rust ({e}): {g}"))?;
    let db: Block = syn::parse_str(&d).map_err(|e| format!("the generated reductors are not Rust ({e}): {d}"))?;
    if want.rules.iter().any(|w| w.alts.iter().any(|a| a.prods.iter().any(|p| !p.binds.is_empty()))) {
        r.nontrivial(src, || src.chars().take(160).collect());
    }
    let odd = |r: &mut Rec, what: &str| {
        r.label("code of another form than is understood here (not judged)");
        if std::env::var_os("VERIF_DEBUG").is_some() {
            println!("not understood: {what}");
        }
        Ok(())
    };

    let imports: Vec<String> = want
        .imports
        .iter()
        .filter_map(|s| rust::<syn::UseTree>(&src[s.0..s.1]))
        .collect();
    for (b, what) in [(&gb, "grammar"), (&db, "reductors")] {
        let have = uses(b);
        ensure!(
            imports.iter().all(|w| have.contains(w)),
            "the {what} import {have:?} instead of {imports:?}"
        );
    }

    // the grammar: rule by rule, its productions in the order written
    let mut rules: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
    for (n, v) in inserts(&gb) {
        let Expr::Call(c) = v else {
            return odd(r, &toks(v));
        };
        let Some(ps) = c.args.last().and_then(list) else {
            return odd(r, &toks(v));
        };
        let ps: Option<Vec<Vec<String>>> = ps
            .iter()
            .map(|p| list(p).map(|p| p.iter().map(toks).collect()))
            .collect();
        let Some(ps) = ps else {
            return odd(r, &toks(v));
        };
        let n = toks(n);
        if c.args.len() == 2 {
            ensure!(toks(&c.args[0]) == n, "the rule {n} is named {}", toks(&c.args[0]));
        }
        ensure!(rules.insert(n.clone(), ps).is_none(), "the rule {n} is there twice");
    }
    if rules.is_empty() && !want.rules.is_empty() {
        return odd(r, "no rules");
    }

    // the functions
    let mut fns: BTreeMap<String, &syn::ItemFn> = BTreeMap::new();
    for s in &db.stmts {
        if let Stmt::Item(syn::Item::Fn(f)) = s {
            ensure!(
                fns.insert(f.sig.ident.to_string(), f).is_none(),
                "two functions are named {}",
                f.sig.ident
            );
        }
    }
    let mut reducts: BTreeMap<String, Vec<&syn::ItemFn>> = BTreeMap::new();
    for (n, v) in inserts(&db) {
        let Some(fs) = list(v) else {
            return odd(r, &toks(v));
        };
        let mut out = Vec::new();
        for f in &fs {
            match fns.get(&toks(f)) {
                Some(f) => out.push(*f),
                None if matches!(f, Expr::Path(_)) => return Err(format!("there is no function {}", toks(f))),
                None => return odd(r, &toks(f)),
            }
        }
        let n = toks(n);
        ensure!(reducts.insert(n.clone(), out).is_none(), "the functions of {n} are there twice");
    }
    let names = |k: Vec<&String>| k.into_iter().cloned().collect::<BTreeSet<_>>();
    ensure!(
        names(rules.keys().collect()) == paths && names(reducts.keys().collect()) == paths,
        "rules {:?} and functions of {:?} are written for {paths:?}",
        rules.keys().collect::<Vec<_>>(),
        reducts.keys().collect::<Vec<_>>()
    );

    let text = |s: wref::Sp| {
        let t = &src[s.0..s.1];
        rust::<Expr>(t).unwrap_or_else(|| t.to_string())
    };
    let mut bound = 0;
    for w in &want.rules {
        let n = rust::<syn::Path>(&src[w.name.0..w.name.1]).unwrap_or_default();
        let ty = rust::<syn::Path>(&src[w.ty.0..w.ty.1]).unwrap_or_default();
        let (ps, fs) = (&rules[&n], &reducts[&n]);
        ensure!(
            ps.len() == fs.len(),
            "{n} has {} productions and {} functions",
            ps.len(),
            fs.len()
        );
        let mut have: Vec<Prod> = Vec::new();
        let mut vague: BTreeSet<String> = BTreeSet::new();
        let mut code_of: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for a in &w.alts {
            let names = a.prods.iter().flat_map(|p| p.binds.iter().map(|b| b.name.clone()));
            let code = rust_code(&src[a.code.0..a.code.1]).unwrap_or_default();
            code_of.entry(code).or_default().extend(names);
        }
        for (p, f) in ps.iter().zip(fs) {
            let (env, code) = match function(f, p.len()) {
                Ok(x) => x,
                Err(e) => return odd(r, &e),
            };
            let Some(known) = code_of.get(&code) else {
                return Err(format!("a function of {n} runs {code}, which no alternative says"));
            };
            let out = toks(&f.sig.output);
            let want_out = format!("Meta < {ty} >");
            ensure!(out.ends_with(&want_out), "a function of {n} returns {out}, not {ty}");
            let arg = f.sig.inputs.first().map(toks).unwrap_or_default();
            let entry = rust::<syn::Type>(entry).unwrap_or_default();
            ensure!(
                arg == format!("toks : & [{entry}]"),
                "a function takes {arg}, not symbols of the type {entry}"
            );
            // names beside those the program binds are the generator's own affair
            let binds = env.iter().filter(|(k, _)| known.contains(*k)).map(|(k, v)| {
                if v.kind.is_none() {
                    vague.insert(k.clone());
                }
                show(k, v)
            });
            have.push((p.clone(), code, ty.clone(), binds.collect()));
        }
        let mut wanted: Vec<Prod> = Vec::new();
        for a in &w.alts {
            let code = rust_code(&src[a.code.0..a.code.1]).unwrap_or_default();
            for p in &a.prods {
                bound += p.binds.len();
                let one = |b: &Bind| {
                    let kind = (!(b.val == Val::Absent && vague.contains(&b.name))).then_some((b.slice, b.clone));
                    show(&name(&b.name).unwrap_or_default(), &Value { val: b.val.clone(), kind, opt: b.opt })
                };
                let mut binds: Vec<String> = p.binds.iter().map(one).collect();
                binds.sort();
                wanted.push((p.syms.iter().map(|s| text(*s)).collect(), code.clone(), ty.clone(), binds));
            }
        }
        have.iter_mut().for_each(|h| h.3.sort());
        have.sort();
        wanted.sort();
        if have != wanted {
            let miss: Vec<_> = wanted.iter().filter(|x| !have.contains(x)).take(2).collect();
            let extra: Vec<_> = have.iter().filter(|x| !wanted.contains(x)).take(2).collect();
            return Err(format!(
                "the code for {n} has {} productions instead of {}, lacks {miss:?}, has {extra:?}",
                have.len(),
                wanted.len()
            ));
        }
    }
    r.label("read");
    if bound > 0 {
        r.label("read, with bound names");
    }
    Ok(())
}

pub static W11: Spec<Src> = Spec {
    id: "W11",
    rule: "correct programs that bind a name, whose generated code parses as Rust; labels tell how many were evaluated to the end",
    assumptions: &[
        "as for W04 and W05; names are Rust identifiers other than _ and toks, paths, literals and code blocks are Rust",
        "code written in a form the evaluation does not understand is not judged here (W07 runs such code); names beside those of the program are not looked at",
    ],
    strategy,
    run,
    fixed: |_| {
        std::fs::read_to_string("/repo/wop/src/wop.grammar").ok().map(Src).into_iter().collect()
    },
    fixed_note: "wop's own grammar",
    quick: 8_000,
    thorough: 250_000,
};

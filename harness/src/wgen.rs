//! Generated wop sources: structured documents with generated layout, mutated and arbitrary text.
use crate::run::Input;
use crate::wref::{self, NONWORD, WORD};
use proptest::prelude::*;
use proptest::sample::select;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use wop::Sym;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Src(pub String);

impl std::fmt::Debug for Src {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

impl Input for Src {
    fn to_json(&self) -> Value {
        json!({ "source": self.0 })
    }
    fn from_json(v: &Value) -> Self {
        Self(v["source"].as_str().expect("source").to_string())
    }
    fn smaller(&self) -> Vec<Self> {
        smaller_text(&self.0).into_iter().map(Self).collect()
    }
}

/// Shorter or plainer texts: without runs of tokens, without trivia, without characters.
pub fn smaller_text(s: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    // pieces: tokens and trivia, by the reference lexer; single characters where there is no token
    let mut pieces: Vec<(Option<Sym>, (usize, usize))> = Vec::new();
    let mut p = 0;
    while p < s.len() {
        let (k, e) = match wref::lex_at(s, p) {
            wref::Lexed::Skip(e) => (None, e),
            wref::Lexed::Tok(k, e) => (Some(k), e),
            wref::Lexed::Bad => (None, p + s[p..].chars().next().unwrap().len_utf8()),
        };
        pieces.push((k, (p, e)));
        p = e;
    }
    let n = pieces.len();
    let mut len = n;
    // of a very long text only long runs go
    let least = n / 512;
    while len > least {
        let mut at = 0;
        while at < n {
            let to = (at + len).min(n);
            out.push(format!("{}{}", &s[..pieces[at].1 .0], &s[pieces[to - 1].1 .1..]));
            at += len;
        }
        len /= 2;
    }
    if least > 0 {
        return out;
    }
    // two pieces at a distance, such as a pair of parentheses
    for i in 0..n {
        if pieces[i].0 == Some(Sym::OpenParen) {
            for j in i + 1..n {
                if pieces[j].0 == Some(Sym::CloseParen) {
                    out.push(format!(
                        "{}{}{}",
                        &s[..pieces[i].1 .0],
                        &s[pieces[i].1 .1..pieces[j].1 .0],
                        &s[pieces[j].1 .1..]
                    ));
                }
            }
        }
    }
    for (k, (a, b)) in &pieces {
        let t = &s[*a..*b];
        let plain: &[&str] = match k {
            None => &[" "],
            Some(Sym::Ident) => &["A", "B", "x"],
            Some(Sym::StrLit) => &["\"\"", "\"+\""],
            Some(Sym::CodeBlock) => &["->}%"],
            _ => &[],
        };
        for q in plain {
            if q.len() < t.len() {
                out.push(format!("{}{q}{}", &s[..*a], &s[*b..]));
            }
        }
        if t.chars().count() > 1 && (k.is_none() || t.len() < 40) {
            for (i, c) in t.char_indices() {
                out.push(format!("{}{}", &s[..a + i], &s[a + i + c.len_utf8()..]));
            }
        }
    }
    out.truncate(4000);
    out
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum What {
    Path(Vec<String>),
    Str(String),
    Group(Vec<Variant>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Item {
    pub what: What,
    pub opt: bool,
    pub bind: Option<(bool, String)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Variant {
    pub items: Vec<Item>,
    pub code: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Decl {
    Import(Vec<String>, bool),
    Alias(Result<String, String>, Vec<String>),
    Rule(Vec<String>, Vec<String>, Vec<Variant>),
}

pub type Toks = Vec<(Sym, String)>;

fn put(o: &mut Toks, k: Sym, t: &str) {
    o.push((k, t.to_string()));
}
fn put_path(o: &mut Toks, p: &[String]) {
    for (i, s) in p.iter().enumerate() {
        if i > 0 {
            put(o, Sym::PathAccess, "::");
        }
        put(o, Sym::Ident, s);
    }
}
fn put_alts(o: &mut Toks, vs: &[Variant]) {
    for (i, v) in vs.iter().enumerate() {
        if i > 0 {
            put(o, Sym::Pipe, "|");
        }
        for it in &v.items {
            match &it.what {
                What::Path(p) => put_path(o, p),
                What::Str(s) => put(o, Sym::StrLit, s),
                What::Group(g) => {
                    put(o, Sym::OpenParen, "(");
                    put_alts(o, g);
                    put(o, Sym::CloseParen, ")");
                }
            }
            if it.opt {
                put(o, Sym::Optional, "?");
            }
            if let Some((c, n)) = &it.bind {
                put(o, Sym::TwoDots, ":");
                if *c {
                    put(o, Sym::Clone, "&");
                }
                put(o, Sym::Ident, n);
            }
        }
        if let Some(c) = &v.code {
            put(o, Sym::CodeBlock, c);
        }
    }
}
pub fn tokens(decls: &[Decl]) -> Toks {
    let mut o = Toks::new();
    for d in decls {
        match d {
            Decl::Import(p, glob) => {
                put(&mut o, Sym::UseWord, "use");
                put_path(&mut o, p);
                if *glob {
                    put(&mut o, Sym::PathAccess, "::");
                    put(&mut o, Sym::Glob, "*");
                }
            }
            Decl::Alias(k, t) => {
                put(&mut o, Sym::AliasWord, "alias");
                match k {
                    Ok(i) => put(&mut o, Sym::Ident, i),
                    Err(s) => put(&mut o, Sym::StrLit, s),
                }
                put_path(&mut o, t);
            }
            Decl::Rule(n, ty, alts) => {
                put_path(&mut o, n);
                put(&mut o, Sym::TwoDots, ":");
                put_path(&mut o, ty);
                put(&mut o, Sym::Assign, "=");
                put_alts(&mut o, alts);
            }
        }
        put(&mut o, Sym::Sc, ";");
    }
    o
}

fn wordy(k: Sym) -> bool {
    matches!(k, Sym::Ident | Sym::AliasWord | Sym::UseWord)
}
fn colon(k: Sym) -> bool {
    matches!(k, Sym::TwoDots | Sym::PathAccess)
}

/// The text of the tokens with trivia from `layout` (used over and over) before each and at the
/// end; a blank where two tokens would run into one.
pub fn render(toks: &Toks, layout: &[String]) -> (String, Vec<(Sym, wref::Sp)>) {
    let mut src = String::new();
    let mut sp = Vec::new();
    let gap = |i: usize| layout.get(i % layout.len().max(1)).map_or("", String::as_str);
    for (i, (k, t)) in toks.iter().enumerate() {
        let g = gap(i);
        src.push_str(g);
        if i > 0 && g.is_empty() {
            let p = toks[i - 1].0;
            if (wordy(p) && wordy(*k)) || (colon(p) && colon(*k)) {
                src.push(' ');
            }
        }
        let a = src.len();
        src.push_str(t);
        sp.push((*k, (a, src.len())));
    }
    src.push_str(gap(toks.len()));
    (src, sp)
}

fn wordchars() -> BoxedStrategy<char> {
    prop_oneof![
        6 => select("abcxyzABCN019_".chars().collect::<Vec<_>>()),
        1 => select(WORD),
    ]
    .boxed()
}
fn not_keyword(s: String) -> String {
    if s == "alias" || s == "use" {
        s + "_"
    } else {
        s
    }
}
pub fn ident() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(vec!["A", "B", "C", "D", "N", "x"]).prop_map(str::to_string),
        2 => select(vec!["_", "aliasx", "alias_", "use1", "user", "usealias", "Alias", "Use", "use_", "_alias", "aliasé", "a", "Expr"]).prop_map(str::to_string),
        3 => (select("abcxyzABC_".chars().collect::<Vec<_>>()), prop::collection::vec(wordchars(), 0..6))
            .prop_map(|(c, r)| not_keyword(std::iter::once(c).chain(r).collect())),
    ]
    .boxed()
}
pub fn path() -> BoxedStrategy<Vec<String>> {
    prop_oneof![
        5 => ident().prop_map(|i| vec![i]),
        1 => prop::collection::vec(ident(), 2..4),
    ]
    .boxed()
}

/// Any character the reference knows.
pub fn anychar() -> BoxedStrategy<char> {
    prop_oneof![
        10 => select("ab_x0 \n;:|()?&*=/\\\"->}%{".chars().collect::<Vec<_>>()),
        2 => (0u8..128).prop_map(|b| b as char),
        1 => select(WORD),
        1 => select(NONWORD),
    ]
    .boxed()
}
/// Pieces which mean something somewhere in the language.
pub fn fragment() -> BoxedStrategy<String> {
    prop_oneof![
        6 => anychar().prop_map(|c| c.to_string()),
        4 => select(vec![
            "/*", "*/", "**/", "/**", "/*/", "//", "->", "}%", "}}%", "}%%", "% }", "\\\"", "\\\\", "\"", "::", ":::", ":", "\r\n",
            "\r", "alias", "use", "\\\n", "\t", "{ }", "-> }%", "-", ">", "* /", "*", "} %", "→%",
        ])
        .prop_map(str::to_string),
    ]
    .boxed()
}
fn text(max: usize) -> BoxedStrategy<String> {
    prop::collection::vec(fragment(), 0..max)
        .prop_map(|v| v.concat())
        .boxed()
}

pub fn strlit() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["\"+\"", "\"(\"", "\"\"", "\"x\"", "\"A\"", "\"->\"", "\"}%\"", "\"//\"", "\"/*\"", "\"*/\"", "\"\\\"\"", "\"\\\\\"", "\";\"", "\"::\""]).prop_map(str::to_string),
        2 => text(6).prop_map(|t| {
            // escapes what would end the literal, or leave it without an end
            let mut o = String::from("\"");
            let mut esc = false;
            for c in t.chars() {
                match c {
                    '\n' if esc => o.push('n'),
                    '"' if !esc => o.push_str("\\\""),
                    c => o.push(c),
                }
                esc = c == '\\' && !esc;
            }
            if esc {
                o.push('\\');
            }
            o + "\""
        }),
    ]
    .boxed()
}
pub fn code() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["-> { x }%", "->{ Ast::A }%", "-> {{ y }}%", "-> { 1 % 2 }%", "->}%", "-> {\n\tlet v = vec![1];\n\tv\n}%", "-> { \"}\" }%"]).prop_map(str::to_string),
        2 => text(8).prop_map(|mut t| {
            while t.contains("}%") {
                t = t.replace("}%", "} %");
            }
            format!("->{t}}}%")
        }),
    ]
    .boxed()
}
fn line_comment() -> BoxedStrategy<String> {
    text(5)
        .prop_map(|t| format!("//{}\n", t.replace('\n', " ")))
        .boxed()
}
fn block_comment() -> BoxedStrategy<String> {
    text(6)
        .prop_map(|mut t| {
            while t.contains("*/") {
                t = t.replace("*/", "* ");
            }
            format!("/*{t}*/")
        })
        .boxed()
}
/// Blanks and comments.
pub fn trivia() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        4 => select(vec![" ", "\n", "\t", "\r\n", "  ", "\r"]).prop_map(str::to_string),
        1 => line_comment(),
        1 => block_comment(),
        1 => select(vec!["/**/", "/***/", "/* * */", "/****/", "//\n", "// c\r\n", "/* / */", "/*/*/", "/*\n*/", "/**x**/"]).prop_map(str::to_string),
    ];
    prop_oneof![
        2 => Just(String::new()),
        3 => Just(" ".to_string()),
        3 => prop::collection::vec(piece, 1..4).prop_map(|v| v.concat()),
    ]
    .boxed()
}
pub fn layout() -> BoxedStrategy<Vec<String>> {
    prop_oneof![
        1 => Just(vec![" ".to_string()]),
        1 => Just(vec![String::new()]),
        4 => prop::collection::vec(trivia(), 1..24),
    ]
    .boxed()
}

fn item(codes: bool) -> BoxedStrategy<Item> {
    let leaf = prop_oneof![
        3 => path().prop_map(What::Path),
        1 => strlit().prop_map(What::Str),
    ];
    let deco = (
        prop::bool::weighted(0.25),
        prop::option::weighted(0.45, (any::<bool>(), ident())),
    );
    let leaf = (leaf, deco).prop_map(|(what, (opt, bind))| Item { what, opt, bind });
    leaf.prop_recursive(4, 24, 4, move |inner| {
        let code = if codes {
            prop::option::weighted(0.1, code()).boxed()
        } else {
            Just(None).boxed()
        };
        let var = (prop::collection::vec(inner, 1..4), code)
            .prop_map(|(items, code)| Variant { items, code });
        (
            prop::collection::vec(var, 1..4),
            (
                prop::bool::weighted(0.4),
                prop::option::weighted(0.4, (any::<bool>(), ident())),
            ),
        )
            .prop_map(|(g, (opt, bind))| Item {
                what: What::Group(g),
                opt,
                bind,
            })
    })
    .boxed()
}

/// Rules with many alternatives, long alternatives and groups of many variants.
fn wide_rule() -> BoxedStrategy<Decl> {
    let plain = || {
        (
            prop_oneof![6 => path().prop_map(What::Path), 1 => strlit().prop_map(What::Str)],
            prop::bool::weighted(0.05),
            prop::option::weighted(0.4, (any::<bool>(), ident())),
        )
            .prop_map(|(what, opt, bind)| Item { what, opt, bind })
    };
    let short = |n| {
        (prop::collection::vec(plain(), 1..n)).prop_map(|items| Variant { items, code: None })
    };
    let group = (
        prop::collection::vec(short(4), 1..16),
        prop::bool::weighted(0.3),
        prop::option::weighted(0.4, (any::<bool>(), ident())),
    )
        .prop_map(|(g, opt, bind)| Item {
            what: What::Group(g),
            opt,
            bind,
        });
    let long = (
        prop::collection::vec(prop_oneof![16 => plain().boxed(), 1 => group.boxed()], 6..40),
        prop::option::weighted(0.85, code()),
    )
        .prop_map(|(items, code)| Variant { items, code });
    let many = (prop::collection::vec(item(false), 1..3), prop::option::weighted(0.97, code()))
        .prop_map(|(items, code)| Variant { items, code });
    let alts = prop_oneof![
        2 => prop::collection::vec(long, 1..3),
        1 => prop::collection::vec(many, 5..40),
    ];
    (path(), path(), alts)
        .prop_map(|(n, t, a)| Decl::Rule(n, t, a))
        .boxed()
}

/// Declarations of every shape, whether or not they can be built.
pub fn any_decls() -> BoxedStrategy<Vec<Decl>> {
    let var = (
        prop::collection::vec(item(true), 1..6),
        prop::option::weighted(0.8, code()),
    )
        .prop_map(|(items, code)| Variant { items, code });
    let decl = prop_oneof![
        1 => (path(), any::<bool>()).prop_map(|(p, g)| Decl::Import(p, g)),
        2 => (prop_oneof![ident().prop_map(Ok), strlit().prop_map(Err)], path()).prop_map(|(k, t)| Decl::Alias(k, t)),
        4 => (path(), path(), prop::collection::vec(var, 1..5)).prop_map(|(n, t, a)| Decl::Rule(n, t, a)),
    ];
    prop_oneof![
        400 => prop::collection::vec(decl.clone(), 1..7),
        20 => prop::collection::vec(decl.clone(), 7..40),
        1 => prop::collection::vec(decl.clone(), 150..300),
        30 => (prop::collection::vec(decl, 0..3), wide_rule(), any::<bool>()).prop_map(|(mut d, r, first)| {
            d.insert(if first { 0 } else { d.len() }, r);
            d
        }),
        20 => (1usize..120, prop::bool::weighted(0.5)).prop_map(|(d, opt)| {
            // deep nesting
            let mut it = Item { what: What::Path(vec!["A".into()]), opt: false, bind: None };
            for _ in 0..d {
                it = Item { what: What::Group(vec![Variant { items: vec![it], code: None }]), opt, bind: None };
            }
            let b = Item { what: What::Path(vec!["B".into()]), opt: false, bind: Some((false, "b".into())) };
            vec![Decl::Rule(vec!["R".into()], vec!["T".into()], vec![Variant { items: vec![it, b], code: Some("->{b}%".into()) }])]
        }),
    ]
    .boxed()
}

type Ty = (bool, bool);

/// Renames what binds a name twice, returns what is bound.
fn fix_binds(items: &mut [Item]) -> BTreeMap<String, Ty> {
    let mut out: BTreeMap<String, Ty> = BTreeMap::new();
    for it in items {
        let mut mine: BTreeMap<String, Ty> = BTreeMap::new();
        if let What::Group(vs) = &mut it.what {
            let mut nvars = 0;
            for v in vs {
                let m = fix_binds(&mut v.items);
                for (n, t) in m {
                    // variants may share a name of one type
                    if mine.get(&n).map_or(false, |o| *o != t) || out.contains_key(&n) {
                        let mut k = nvars;
                        let fresh = loop {
                            let f = format!("{n}_{k}");
                            if !mine.contains_key(&f) && !out.contains_key(&f) && !has_bind(&v.items, &f) {
                                break f;
                            }
                            k += 1;
                        };
                        rename(&mut v.items, &n, &fresh);
                        mine.insert(fresh, t);
                    } else {
                        mine.insert(n, t);
                    }
                }
                nvars += 1;
            }
        }
        let slice = matches!(it.what, What::Group(_));
        if let Some((c, n)) = &mut it.bind {
            let base = n.clone();
            let mut k = 0;
            while mine.contains_key(n) || out.contains_key(n) {
                *n = format!("{base}{k}");
                k += 1;
            }
            mine.insert(n.clone(), (slice, *c));
        }
        out.extend(mine);
    }
    out
}
fn has_bind(items: &[Item], n: &str) -> bool {
    items.iter().any(|i| {
        i.bind.as_ref().map_or(false, |b| b.1 == n)
            || matches!(&i.what, What::Group(v) if v.iter().any(|v| has_bind(&v.items, n)))
    })
}
fn rename(items: &mut [Item], n: &str, to: &str) {
    for i in items {
        if let Some(b) = &mut i.bind {
            if b.1 == n {
                b.1 = to.to_string();
            }
        }
        if let What::Group(v) = &mut i.what {
            v.iter_mut().for_each(|v| rename(&mut v.items, n, to));
        }
    }
}
fn strip_codes(items: &mut [Item]) {
    for i in items {
        if let What::Group(v) = &mut i.what {
            for v in v {
                v.code = None;
                strip_codes(&mut v.items);
            }
        }
    }
}
fn count(items: &[Item]) -> u64 {
    items
        .iter()
        .map(|i| {
            let n = match &i.what {
                What::Group(v) => v.iter().map(|v| count(&v.items)).fold(0u64, u64::saturating_add),
                _ => 1,
            };
            n.saturating_add(u64::from(i.opt))
        })
        .fold(1, u64::saturating_mul)
}
fn min_len(items: &[Item]) -> usize {
    items
        .iter()
        .map(|i| match &i.what {
            _ if i.opt => 0,
            What::Group(v) => v.iter().map(|v| min_len(&v.items)).min().unwrap_or(0),
            _ => 1,
        })
        .sum()
}
fn leaves(items: &[Item], out: &mut BTreeSet<String>) {
    for i in items {
        match &i.what {
            What::Path(p) if p.len() == 1 => {
                out.insert(p[0].clone());
            }
            What::Str(s) => {
                out.insert(s.clone());
            }
            What::Group(v) => v.iter().for_each(|v| leaves(&v.items, out)),
            What::Path(_) => {}
        }
    }
}

/// Makes declarations which can be built out of any.
pub fn tame(decls: &mut Vec<Decl>, cap: u64, filler: &str) {
    let mut names = BTreeSet::new();
    let mut keys = BTreeSet::new();
    let mut used = BTreeSet::new();
    let mut late: Vec<usize> = Vec::new();
    for (di, d) in decls.iter_mut().enumerate() {
        match d {
            Decl::Import(..) => {}
            Decl::Alias(k, _) => {
                let base = k.clone();
                let mut i = 0;
                let text = |k: &Result<String, String>| match k {
                    Ok(s) | Err(s) => s.clone(),
                };
                while !keys.insert(text(k)) {
                    *k = match &base {
                        Ok(s) => Ok(format!("{s}{i}")),
                        Err(s) => Err(format!("{}{i}\"", &s[..s.len() - 1])),
                    };
                    i += 1;
                }
                if used.contains(&text(k)) {
                    late.push(di);
                }
            }
            Decl::Rule(n, _, alts) => {
                let base = n.clone();
                let mut i = 0;
                while !names.insert(n.clone()) {
                    *n = base.clone();
                    n.last_mut().unwrap().push_str(&i.to_string());
                    i += 1;
                }
                for (ai, v) in alts.iter_mut().enumerate() {
                    strip_codes(&mut v.items);
                    fix_binds(&mut v.items);
                    while count(&v.items) > cap && v.items.len() > 1 {
                        v.items.pop();
                    }
                    if count(&v.items) > cap {
                        v.items = vec![];
                    }
                    if min_len(&v.items) == 0 {
                        let a = Item {
                            what: What::Path(vec![filler.to_string()]),
                            opt: false,
                            bind: None,
                        };
                        if ai % 2 == 0 {
                            v.items.push(a);
                        } else {
                            v.items.insert(0, a);
                        }
                    }
                    v.code.get_or_insert_with(|| format!("-> {{ {ai} }}%"));
                    leaves(&v.items, &mut used);
                }
            }
        }
    }
    // aliases come before their uses
    let mut moved: Vec<Decl> = Vec::new();
    for i in late.into_iter().rev() {
        moved.push(decls.remove(i));
    }
    moved.extend(std::mem::take(decls));
    *decls = moved;
}

/// Declarations that can be built.
pub fn good_decls() -> BoxedStrategy<Vec<Decl>> {
    any_decls()
        .prop_map(|mut d| {
            tame(&mut d, 300, "A");
            d
        })
        .boxed()
}

/// What a source begins with: almost always nothing, else a comment longer than 64 kB.
fn far() -> BoxedStrategy<String> {
    prop_oneof![
        400 => Just(String::new()),
        1 => (65_500usize..66_000, any::<bool>()).prop_map(|(n, line)| {
            if line {
                format!("//{}\n", "- ".repeat(n / 2))
            } else {
                format!("/*{}*/", "a\n".repeat(n / 2))
            }
        }),
    ]
    .boxed()
}
pub fn good_src() -> BoxedStrategy<Src> {
    (good_decls(), layout(), far())
        .prop_map(|(d, l, f)| Src(f + &render(&tokens(&d), &l).0))
        .boxed()
}
pub fn any_src() -> BoxedStrategy<Src> {
    (any_decls(), layout(), far())
        .prop_map(|(d, l, f)| Src(f + &render(&tokens(&d), &l).0))
        .boxed()
}

/// Text that need not be a program: fragments, and programs cut and edited.
pub fn text_src() -> BoxedStrategy<Src> {
    let edits = prop::collection::vec((0u8..6, any::<u32>(), any::<u16>(), fragment()), 0..4);
    prop_oneof![
        3 => prop::collection::vec(fragment(), 0..24).prop_map(|v| Src(v.concat())),
        2 => (any_src(), edits).prop_map(|(s, e)| Src(edit_text(s.0, &e))),
        1 => any_src(),
        1 => (good_src(), select(EDGES), any::<bool>()).prop_map(|(s, e, first)| {
            Src(if first { format!("{e}{}", s.0) } else { s.0 + e })
        }),
    ]
    .boxed()
}
/// What some readers of text take no notice of.
const EDGES: &[&str] = &[
    "\u{feff}", "\u{a0}", "\0", "\u{1a}", "\x0c", "\x0b", "\u{2028}", "#!/bin/wop\n", "\\\n", "\x7f", "\u{1b}", "/*", "//",
    "\"", "->", "}%", "-", "/", "\r",
];

fn edit_text(mut s: String, edits: &[(u8, u32, u16, String)]) -> String {
    for (k, at, len, f) in edits {
        let bounds: Vec<usize> = s
            .char_indices()
            .map(|x| x.0)
            .chain(std::iter::once(s.len()))
            .collect();
        let i = *at as usize % bounds.len();
        let j = (i + 1 + *len as usize % 6).min(bounds.len() - 1);
        match k {
            0 | 1 => s.insert_str(bounds[i], f),
            2 => s.replace_range(bounds[i]..bounds[j], ""),
            3 => s.replace_range(bounds[i]..bounds[j], f),
            4 => s.truncate(bounds[i]),
            _ => {
                let c = s[bounds[i]..bounds[j]].to_string();
                s.insert_str(bounds[j], &c);
            }
        }
    }
    s
}

/// Token sequences near programs: tokens removed, doubled, swapped, replaced, cut off.
pub fn token_src() -> BoxedStrategy<Src> {
    let edits = prop::collection::vec((0u8..6, any::<u32>(), any::<u32>(), 0usize..SPARE.len()), 0..4);
    (any_decls(), edits, layout(), prop::bool::weighted(0.05))
        .prop_map(|(d, e, l, err)| {
            let mut t = tokens(&d);
            for (k, a, b, sp) in e {
                let n = t.len();
                if n == 0 {
                    break;
                }
                let (a, b) = (a as usize % n, b as usize % n);
                let spare = (SPARE[sp].0, SPARE[sp].1.to_string());
                match k {
                    0 => {
                        t.remove(a);
                    }
                    1 => t.insert(a, spare),
                    2 => t[a] = spare,
                    3 => t.swap(a, b),
                    4 => {
                        let c = t[b].clone();
                        t.insert(a, c);
                    }
                    _ => t.truncate(a),
                }
            }
            let (mut s, sp) = render(&t, &l);
            if err {
                let at = sp.get(sp.len() / 2).map_or(0, |x| x.1 .0);
                s.insert_str(at, " @ ");
            }
            Src(s)
        })
        .boxed()
}
const SPARE: &[(Sym, &str)] = &[
    (Sym::Ident, "A"),
    (Sym::StrLit, "\"s\""),
    (Sym::Pipe, "|"),
    (Sym::OpenParen, "("),
    (Sym::CloseParen, ")"),
    (Sym::Sc, ";"),
    (Sym::PathAccess, "::"),
    (Sym::TwoDots, ":"),
    (Sym::Glob, "*"),
    (Sym::Optional, "?"),
    (Sym::Clone, "&"),
    (Sym::Assign, "="),
    (Sym::CodeBlock, "->{}%"),
    (Sym::AliasWord, "alias"),
    (Sym::UseWord, "use"),
];

//! Reference lexer, parser and builder of the wop language, written from its documentation and
//! from `wop.grammar`. They share no code with wop; only `wop::Sym` is used, as the names of the
//! token kinds.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use wop::Sym;

pub type Sp = (usize, usize);

/// Non-ASCII characters the generators use: those that may continue an identifier, and others.
pub const WORD: &[char] = &['é', 'ß', 'Ω', '中', '٣', '\u{301}', '‿', '𝒳'];
pub const NONWORD: &[char] = &[
    '€', '→', '…', '😀', '\u{a0}', '\u{2028}', '\u{feff}', '²', '”',
];

pub fn known(src: &str) -> bool {
    src.chars()
        .all(|c| c.is_ascii() || WORD.contains(&c) || NONWORD.contains(&c))
}
fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || WORD.contains(&c)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Lexed {
    Skip(usize),
    Tok(Sym, usize),
    Bad,
}

/// What starts at byte `p`, by the longest match.
pub fn lex_at(src: &str, p: usize) -> Lexed {
    let s = &src[p..];
    let b = s.as_bytes();
    let find = |from: usize, what: &str| s.get(from..).and_then(|t| t.find(what)).map(|k| p + from + k);
    match b[0] {
        b' ' | b'\t' | b'\n' | b'\r' => Lexed::Skip(
            p + b
                .iter()
                .position(|c| !b" \t\n\r".contains(c))
                .unwrap_or(b.len()),
        ),
        b'/' if s.starts_with("//") => Lexed::Skip(find(2, "\n").unwrap_or(src.len())),
        b'/' if s.starts_with("/*") => {
            find(2, "*/").map_or(Lexed::Bad, |e| Lexed::Skip(e + 2))
        }
        b'-' if s.starts_with("->") => {
            find(2, "}%").map_or(Lexed::Bad, |e| Lexed::Tok(Sym::CodeBlock, e + 2))
        }
        b'"' => {
            let mut esc = false;
            for (k, c) in s.char_indices().skip(1) {
                match c {
                    '\n' if esc => return Lexed::Bad,
                    _ if esc => esc = false,
                    '\\' => esc = true,
                    '"' => return Lexed::Tok(Sym::StrLit, p + k + 1),
                    _ => {}
                }
            }
            Lexed::Bad
        }
        b'=' => Lexed::Tok(Sym::Assign, p + 1),
        b'|' => Lexed::Tok(Sym::Pipe, p + 1),
        b'(' => Lexed::Tok(Sym::OpenParen, p + 1),
        b')' => Lexed::Tok(Sym::CloseParen, p + 1),
        b';' => Lexed::Tok(Sym::Sc, p + 1),
        b':' if s.starts_with("::") => Lexed::Tok(Sym::PathAccess, p + 2),
        b':' => Lexed::Tok(Sym::TwoDots, p + 1),
        b'*' => Lexed::Tok(Sym::Glob, p + 1),
        b'?' => Lexed::Tok(Sym::Optional, p + 1),
        b'&' => Lexed::Tok(Sym::Clone, p + 1),
        c if c.is_ascii_alphabetic() || c == b'_' => {
            let e = s
                .char_indices()
                .find(|(_, c)| !word(*c))
                .map_or(s.len(), |x| x.0);
            let k = match &s[..e] {
                "alias" => Sym::AliasWord,
                "use" => Sym::UseWord,
                _ => Sym::Ident,
            };
            Lexed::Tok(k, p + e)
        }
        _ => Lexed::Bad,
    }
}

/// The tokens up to and including the first error token (whose end is not specified).
pub fn lex(src: &str) -> Vec<(Sym, Sp)> {
    let mut out = Vec::new();
    let mut p = 0;
    while p < src.len() {
        match lex_at(src, p) {
            Lexed::Skip(e) => p = e,
            Lexed::Tok(k, e) => {
                out.push((k, (p, e)));
                p = e;
            }
            Lexed::Bad => {
                out.push((Sym::Error, (p, src.len())));
                return out;
            }
        }
    }
    out
}

/// The token texts of a source without the trivia between them.
pub fn squeeze(text: &str) -> String {
    lex(text)
        .iter()
        .map(|t| &text[t.1 .0..t.1 .1])
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum XKind {
    Path,
    Str,
    Group(Vec<XVar>),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct XItem {
    pub kind: XKind,
    /// of the thing itself, without parentheses, `?` and name
    pub inner: Sp,
    pub span: Sp,
    pub opt: bool,
    pub bind: Option<Sp>,
    pub clone: bool,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct XVar {
    pub items: Vec<XItem>,
    pub code: Option<Sp>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum XDecl {
    Import(Sp),
    Alias(Sp, Sp),
    Rule(Sp, Sp, Vec<XVar>),
}

struct P<'a> {
    t: &'a [(Sym, Sp)],
    i: usize,
}
type R<T> = Result<T, usize>;

impl P<'_> {
    fn at(&self) -> Option<Sym> {
        self.t.get(self.i).map(|x| x.0)
    }
    fn eat(&mut self, k: Sym) -> bool {
        let y = self.at() == Some(k);
        self.i += usize::from(y);
        y
    }
    fn need(&mut self, k: Sym) -> R<Sp> {
        if self.eat(k) {
            Ok(self.t[self.i - 1].1)
        } else {
            Err(self.i)
        }
    }
    fn end(&self) -> usize {
        self.t[self.i - 1].1 .1
    }
    fn path(&mut self) -> R<Sp> {
        let s = self.need(Sym::Ident)?.0;
        while self.eat(Sym::PathAccess) {
            self.need(Sym::Ident)?;
        }
        Ok((s, self.end()))
    }
    fn decl(&mut self) -> R<(XDecl, Sp)> {
        let from = self.i;
        let d = match self.at() {
            Some(Sym::UseWord) => {
                self.i += 1;
                let s = self.need(Sym::Ident)?.0;
                while self.eat(Sym::PathAccess) {
                    if self.eat(Sym::Glob) {
                        break;
                    }
                    self.need(Sym::Ident)?;
                }
                XDecl::Import((s, self.end()))
            }
            Some(Sym::AliasWord) => {
                self.i += 1;
                let k = if self.eat(Sym::StrLit) {
                    self.t[self.i - 1].1
                } else {
                    self.need(Sym::Ident)?
                };
                XDecl::Alias(k, self.path()?)
            }
            _ => {
                let n = self.path()?;
                self.need(Sym::TwoDots)?;
                let ty = self.path()?;
                self.need(Sym::Assign)?;
                XDecl::Rule(n, ty, self.alts()?)
            }
        };
        let sp = (self.t[from].1 .0, self.end());
        self.need(Sym::Sc)?;
        Ok((d, sp))
    }
    fn alts(&mut self) -> R<Vec<XVar>> {
        let mut out = Vec::new();
        loop {
            let mut items = vec![self.item()?];
            while matches!(
                self.at(),
                Some(Sym::Ident | Sym::StrLit | Sym::OpenParen)
            ) {
                items.push(self.item()?);
            }
            let code = self
                .eat(Sym::CodeBlock)
                .then(|| self.t[self.i - 1].1);
            out.push(XVar { items, code });
            if !self.eat(Sym::Pipe) {
                return Ok(out);
            }
        }
    }
    fn item(&mut self) -> R<XItem> {
        let from = self.i;
        let (kind, inner) = match self.at() {
            Some(Sym::StrLit) => {
                self.i += 1;
                (XKind::Str, self.t[self.i - 1].1)
            }
            Some(Sym::OpenParen) => {
                self.i += 1;
                let s = self.i;
                let g = self.alts()?;
                let sp = (self.t[s].1 .0, self.end());
                self.need(Sym::CloseParen)?;
                (XKind::Group(g), sp)
            }
            _ => {
                let p = self.path()?;
                (XKind::Path, p)
            }
        };
        let opt = self.eat(Sym::Optional);
        let mut clone = false;
        let mut bind = None;
        if self.eat(Sym::TwoDots) {
            clone = self.eat(Sym::Clone);
            bind = Some(self.need(Sym::Ident)?);
        }
        Ok(XItem {
            kind,
            inner,
            span: (self.t[from].1 .0, self.end()),
            opt,
            bind,
            clone,
        })
    }
}

/// The declarations, or the index of the first token (or of the end) with which no program goes on.
pub fn parse(toks: &[(Sym, Sp)]) -> Result<Vec<(XDecl, Sp)>, usize> {
    let mut p = P { t: toks, i: 0 };
    let mut out = vec![p.decl()?];
    while p.i < toks.len() {
        out.push(p.decl()?);
    }
    Ok(out)
}

/// What a name is bound to in one production.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Item(usize),
    Slice(usize, usize),
    Absent,
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bind {
    pub name: String,
    pub val: Val,
    /// whether the name is an `Option`
    pub opt: bool,
    pub slice: bool,
    pub clone: bool,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct XProd {
    pub syms: Vec<Sp>,
    pub binds: Vec<Bind>,
}

fn expand_seq(items: &[XItem], src: &str) -> Vec<XProd> {
    let mut out = vec![XProd {
        syms: Vec::new(),
        binds: Vec::new(),
    }];
    for it in items {
        let alts = expand_item(it, src);
        out = out
            .iter()
            .flat_map(|o| {
                alts.iter().map(move |a| {
                    let mut n = o.clone();
                    let d = o.syms.len();
                    n.syms.extend(&a.syms);
                    n.binds.extend(a.binds.iter().cloned().map(|mut b| {
                        b.val = match b.val {
                            Val::Item(i) => Val::Item(i + d),
                            Val::Slice(i, j) => Val::Slice(i + d, j + d),
                            Val::Absent => Val::Absent,
                        };
                        b
                    }));
                    n
                })
            })
            .collect();
    }
    out
}

fn expand_item(it: &XItem, src: &str) -> Vec<XProd> {
    let name = it.bind.map(|b| src[b.0..b.1].to_string());
    let mut alts: Vec<XProd> = match &it.kind {
        XKind::Path | XKind::Str => vec![XProd {
            syms: vec![it.inner],
            binds: name
                .iter()
                .map(|n| Bind {
                    name: n.clone(),
                    val: Val::Item(0),
                    opt: false,
                    slice: false,
                    clone: it.clone,
                })
                .collect(),
        }],
        XKind::Group(vars) => {
            let mut alts: Vec<XProd> = vars
                .iter()
                .flat_map(|v| expand_seq(&v.items, src))
                .collect();
            // inside a group, a name which one production binds is there in all of them
            let mut names: BTreeMap<String, Bind> = BTreeMap::new();
            for b in alts.iter().flat_map(|a| &a.binds) {
                names.entry(b.name.clone()).or_insert_with(|| b.clone());
            }
            for a in &mut alts {
                for b in &mut a.binds {
                    b.opt = true;
                }
                for (n, b) in &names {
                    if !a.binds.iter().any(|x| x.name == *n) {
                        a.binds.push(Bind {
                            val: Val::Absent,
                            opt: true,
                            ..b.clone()
                        });
                    }
                }
                if let Some(n) = &name {
                    a.binds.push(Bind {
                        name: n.clone(),
                        val: Val::Slice(0, a.syms.len()),
                        opt: false,
                        slice: true,
                        clone: it.clone,
                    });
                }
            }
            alts
        }
    };
    if it.opt {
        for b in alts.iter_mut().flat_map(|a| &mut a.binds) {
            b.opt = true;
        }
        let binds = alts[0]
            .binds
            .iter()
            .cloned()
            .map(|mut b| {
                b.val = Val::Absent;
                b
            })
            .collect();
        alts.push(XProd {
            syms: Vec::new(),
            binds,
        });
    }
    alts
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct XAlt {
    pub code: Sp,
    pub prods: Vec<XProd>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct XRule {
    pub name: Sp,
    pub ty: Sp,
    pub alts: Vec<XAlt>,
}
#[derive(Debug, Clone, Default)]
pub struct XBuilt {
    pub imports: Vec<Sp>,
    pub rules: Vec<XRule>,
    pub aliases: HashMap<String, Sp>,
}

/// Why a source must not be built.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    DuplicateRule,
    DuplicateAlias,
    MissingCode,
    CodeInGroup,
}

fn code_in_group(items: &[XItem]) -> bool {
    items.iter().any(|i| match &i.kind {
        XKind::Group(v) => v.iter().any(|v| v.code.is_some() || code_in_group(&v.items)),
        _ => false,
    })
}

fn count(items: &[XItem]) -> u64 {
    items
        .iter()
        .map(|i| {
            let n = match &i.kind {
                XKind::Group(v) => v
                    .iter()
                    .map(|v| count(&v.items))
                    .fold(0u64, u64::saturating_add),
                _ => 1,
            };
            n.saturating_add(u64::from(i.opt))
        })
        .fold(1, u64::saturating_mul)
}

/// The number of productions a declaration stands for.
pub fn size(alts: &[XVar]) -> u64 {
    alts.iter()
        .map(|v| count(&v.items))
        .fold(0, u64::saturating_add)
}

/// Builds the declarations, applying each alias to the rules after it.
pub fn build(decls: &[(XDecl, Sp)], src: &str) -> Result<XBuilt, Fault> {
    let mut b = XBuilt::default();
    let mut names = BTreeSet::new();
    for (d, _) in decls {
        match d {
            XDecl::Import(s) => b.imports.push(*s),
            XDecl::Alias(k, t) => {
                if b.aliases.insert(src[k.0..k.1].to_string(), *t).is_some() {
                    return Err(Fault::DuplicateAlias);
                }
            }
            XDecl::Rule(n, ty, alts) => {
                let mut out = Vec::new();
                for a in alts {
                    if code_in_group(&a.items) {
                        return Err(Fault::CodeInGroup);
                    }
                    let code = a.code.ok_or(Fault::MissingCode)?;
                    let mut prods = expand_seq(&a.items, src);
                    for p in &mut prods {
                        for s in &mut p.syms {
                            if let Some(t) = b.aliases.get(&src[s.0..s.1]) {
                                *s = *t;
                            }
                        }
                        p.binds.sort();
                    }
                    out.push(XAlt { code, prods });
                }
                if !names.insert(src[n.0..n.1].to_string()) {
                    return Err(Fault::DuplicateRule);
                }
                b.rules.push(XRule {
                    name: *n,
                    ty: *ty,
                    alts: out,
                });
            }
        }
    }
    Ok(b)
}

/// Whether a source keeps to what the language supports: no production is empty, no production
/// binds a name twice, a name bound in several variants of a group has one type, and an alias is
/// declared before its uses.
pub fn supported(decls: &[(XDecl, Sp)], src: &str) -> bool {
    let mut used: BTreeSet<&str> = BTreeSet::new();
    fn leaves<'a>(items: &[XItem], src: &'a str, used: &mut BTreeSet<&'a str>) {
        for i in items {
            match &i.kind {
                XKind::Group(v) => v.iter().for_each(|v| leaves(&v.items, src, used)),
                _ => {
                    used.insert(&src[i.inner.0..i.inner.1]);
                }
            }
        }
    }
    let mut names: BTreeMap<String, &str> = BTreeMap::new();
    for (d, _) in decls {
        match d {
            XDecl::Alias(k, _) if used.contains(&src[k.0..k.1]) => return false,
            XDecl::Rule(n, _, alts) => {
                if size(alts) > 3000 {
                    return false;
                }
                // one spelling per name
                let t = &src[n.0..n.1];
                if *names.entry(squeeze(t)).or_insert(t) != t {
                    return false;
                }
                for a in alts {
                    leaves(&a.items, src, &mut used);
                    if types(&a.items, src).is_none() || min_len(&a.items) == 0 {
                        return false;
                    }
                }
            }
            _ => {}
        }
    }
    true
}

fn min_len(items: &[XItem]) -> usize {
    items
        .iter()
        .map(|i| match &i.kind {
            _ if i.opt => 0,
            XKind::Group(v) => v.iter().map(|v| min_len(&v.items)).min().unwrap_or(0),
            _ => 1,
        })
        .sum()
}

/// The names a sequence binds, with whether each is an `Option`, a slice, and cloned.
pub type Types = BTreeMap<String, (bool, bool, bool)>;
pub fn types(items: &[XItem], src: &str) -> Option<Types> {
    let mut out = Types::new();
    for i in items {
        let mut mine = Types::new();
        if let XKind::Group(vars) = &i.kind {
            for v in vars {
                for (n, mut t) in types(&v.items, src)? {
                    t.0 = true;
                    if *mine.entry(n).or_insert(t) != t {
                        return None;
                    }
                }
            }
        }
        if let Some(b) = i.bind {
            let slice = matches!(i.kind, XKind::Group(_));
            if mine
                .insert(src[b.0..b.1].to_string(), (false, slice, i.clone))
                .is_some()
            {
                return None;
            }
        }
        for (n, mut t) in mine {
            t.0 |= i.opt;
            if out.insert(n, t).is_some() {
                return None;
            }
        }
    }
    Some(out)
}

//! C21: spans, tokens and fixed points.
use super::*;
use lrp::{to_tokens, transitive, Meta, Span};

/// A text, pairs of places in it, and a function given by its table.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Small {
    pub text: String,
    pub at: Vec<(usize, usize)>,
    pub table: Vec<u8>,
}
impl Input for Small {
    fn to_json(&self) -> Value {
        json!({"text": self.text, "at": self.at, "table": self.table})
    }
    fn from_json(v: &Value) -> Self {
        let n = |v: &Value| v.as_u64().expect("number") as usize;
        Self {
            text: v["text"].as_str().expect("text").to_string(),
            at: v["at"].as_array().expect("places").iter().map(|p| (n(&p[0]), n(&p[1]))).collect(),
            table: v["table"].as_array().expect("table").iter().map(|x| n(x) as u8).collect(),
        }
    }
    fn smaller(&self) -> Vec<Self> {
        let mut out = Vec::new();
        for i in 0..self.at.len() {
            let mut s = self.clone();
            s.at.remove(i);
            out.push(s);
        }
        for i in 0..self.table.len() {
            let mut s = self.clone();
            s.table.remove(i);
            out.push(s);
        }
        for (i, _) in self.text.char_indices() {
            let mut s = self.clone();
            s.text.remove(i);
            out.push(s);
        }
        for i in 0..self.at.len() {
            for f in [|x: usize| x / 2, |x: usize| x.saturating_sub(1)] {
                for side in 0..2 {
                    let mut s = self.clone();
                    let p = &mut s.at[i];
                    if side == 0 {
                        p.0 = f(p.0);
                    } else {
                        p.1 = f(p.1);
                    }
                    if s != *self {
                        out.push(s);
                    }
                }
            }
        }
        out
    }
}

fn small(_: Tier) -> BoxedStrategy<Small> {
    let ch = prop_oneof![3 => Just('a'), 3 => prop::char::range('b', 'z'), 2 => any::<char>()];
    let place = prop_oneof![8 => 0usize..24, 1 => any::<usize>(), 1 => Just(usize::MAX)];
    let pair = prop_oneof![
        2 => (place.clone(), place),
        3 => (0usize..16, 0usize..12).prop_map(|(a, n)| (a, a + n)),
    ];
    (
        prop::collection::vec(ch, 0..14),
        prop::collection::vec(pair, 0..6),
        prop::collection::vec(any::<u8>(), 0..24),
    )
        .prop_map(|(t, at, table)| Small { text: t.into_iter().collect(), at, table })
        .boxed()
}

fn pairs(_: Tier) -> Vec<Small> {
    let mut at = Vec::new();
    for a in 0..7 {
        for b in 0..7 {
            at.push((a, b));
        }
    }
    ["", "a", "ab", "é", "aéb", "日本"]
        .iter()
        .map(|t| Small { text: (*t).into(), at: at.clone(), table: vec![] })
        .collect()
}

fn means(c: &Small, r: &mut Rec) -> Verdict {
    r.eval();
    let fuel = u64::MAX - 1;
    let chars: Vec<char> = c.text.chars().collect();
    let bytes = c.text.as_bytes();
    let mut inside = 0;
    for (a, b) in c.at.iter().copied() {
        let s = Span::new(a, b);
        ensure!(
            s.start == a && s.end == b && s == Span::from((a, b)) && s == Span::from(a..b),
            "a span of {a} to {b} is {s:?}, {:?} or {:?}",
            Span::from((a, b)),
            Span::from(a..b)
        );
        // the elements from the first place on, up to the second, or no answer
        let got = guard(fuel, || s.from_source(c.text.as_str()).to_string());
        match (c.text.get(a..b), got) {
            (Some(w), Ok(g)) => {
                inside += usize::from(a < b);
                ensure!(g == w, "{s:?} of {:?} is {g:?} and not {w:?}", c.text);
            }
            (None, Err(Crash::Panic(_))) => {}
            (w, g) => return Err(format!("{s:?} of {:?} is {g:?} and not {w:?}", c.text)),
        }
        let got = guard(fuel, || s.from_source(bytes).to_vec());
        ensure!(
            got.as_ref().ok().map(Vec::as_slice) == bytes.get(a..b),
            "{s:?} of the bytes of {:?} is {got:?}",
            c.text
        );
        let got = guard(fuel, || s.from_source(&chars).to_vec());
        ensure!(
            got.as_ref().ok().map(Vec::as_slice) == chars.get(a..b),
            "{s:?} of the characters of {:?} is {got:?}",
            c.text
        );
        let m = Meta::new(c.text.clone(), s);
        ensure!(m.item == c.text && m.span == s, "a value with its span is {m:?}");
        let t = Token::new(a, b);
        ensure!(t.item == a && t.ty == b, "a token of {a} and {b} is {t:?}");
        let t = Token::empty(b);
        ensure!(t == Token::new((), b), "a token without a value is {t:?}");
    }
    for (p, q) in c.at.iter().zip(c.at.iter().skip(1)) {
        let (x, y) = (Span::new(p.0, p.1), Span::new(q.0, q.1));
        ensure!(x.cmp(&y) == p.cmp(q) && (x == y) == (p == q), "{x:?} and {y:?} compare wrongly");
    }
    // tokens of plain symbols: all of them, in order, and no sooner than asked for
    let taken = Cell::new(0usize);
    let source = chars.iter().map(|x| {
        taken.set(taken.get() + 1);
        *x
    });
    let mut it = to_tokens(source);
    for (i, x) in chars.iter().enumerate() {
        let got = it.next();
        ensure!(
            got == Some(Token::new((), *x)) && taken.get() == i + 1,
            "token {i} of {chars:?} is {got:?}, {} were taken from the source",
            taken.get()
        );
    }
    drop(it);
    let all: Vec<Token<(), char>> = to_tokens(chars.clone()).collect();
    ensure!(
        all.iter().map(|t| t.ty).eq(chars.iter().copied()),
        "the tokens of {chars:?} are {all:?}"
    );
    // the first fixed point met
    let n = c.table.len();
    let f = |x: usize| c.table.get(x).map_or(x, |y| *y as usize % (n + 1));
    let mut steps = 0;
    for seed in 0..n {
        let mut x = seed;
        let mut k = 0;
        while f(x) != x && k <= n {
            x = f(x);
            k += 1;
        }
        if k > n {
            // goes round for ever
            continue;
        }
        steps = steps.max(k);
        let calls = Cell::new(0usize);
        let got = guard(fuel, || {
            transitive(seed, |y| {
                calls.set(calls.get() + 1);
                assert!(calls.get() <= 10 * (n + 2), "goes on after the fixed point");
                f(y)
            })
        });
        ensure!(
            matches!(got, Ok(y) if y == x),
            "from {seed}, {:?} leads to {got:?} and not to {x}",
            c.table
        );
    }
    r.label(if steps >= 2 { "two steps or more" } else { "at most one step" });
    if inside > 0 && steps >= 2 {
        r.nontrivial(c, || format!("{c:?}"));
    }
    Ok(())
}

pub static C21: Spec<Small> = Spec {
    id: "C21",
    rule: "A case is a text of up to 13 characters, up to five pairs of places and a function on up to 24 values given by its table. Non-trivial: a pair that takes a piece out of the text and a value at least two steps away from its fixed point; counted by distinct cases.",
    assumptions: &["a span outside its source is answered as indexing the source is: by a panic"],
    strategy: small,
    run: means,
    fixed: pairs,
    fixed_note: "all pairs of places up to 6 in six texts",
    quick: 400_000,
    thorough: 20_000_000,
};

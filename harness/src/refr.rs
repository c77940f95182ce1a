//! Reference algorithms, written from the textbook definitions and sharing no code with the
//! library: FIRST/FOLLOW, an Earley recogniser (no LR machinery at all), and the canonical LR(1),
//! LALR(1) (canonical sets merged by core) and SLR(1) tables.
use crate::gspec::GSpec;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

/// A set of terminals.
pub type Bits = u128;

const EARLEY_WORK: usize = 300_000;

pub struct RefG {
    pub nts: usize,
    pub ts: usize,
    /// (lhs, index of the production inside its rule, rhs); production 0 is the entry one
    pub prods: Vec<(u16, usize, Vec<u16>)>,
    pub by_lhs: Vec<Vec<usize>>,
    /// bit t = terminal nts+t, bit ts = end of input
    pub first: Vec<Bits>,
    pub follow: Vec<Bits>,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Acc,
}

#[derive(Debug, Clone, Default)]
pub struct Row {
    /// key: terminal bit index (ts = end of input)
    pub acts: BTreeMap<usize, BTreeSet<Act>>,
    pub goto: BTreeMap<u16, usize>,
}

#[derive(Debug, Clone)]
pub struct Auto {
    pub rows: Vec<Row>,
}

impl Auto {
    pub fn conflicts(&self) -> usize {
        self.rows
            .iter()
            .flat_map(|r| r.acts.values())
            .filter(|s| s.len() > 1)
            .count()
    }
}

impl RefG {
    pub fn new(g: &GSpec) -> Self {
        let mut prods = Vec::new();
        let mut by_lhs = vec![Vec::new(); g.nts];
        for (l, alts) in g.prods.iter().enumerate() {
            for (i, rhs) in alts.iter().enumerate() {
                by_lhs[l].push(prods.len());
                prods.push((l as u16, i, rhs.clone()));
            }
        }
        let mut r = Self {
            nts: g.nts,
            ts: g.ts,
            prods,
            by_lhs,
            first: vec![0; g.nts],
            follow: vec![0; g.nts],
        };
        assert!(g.ts < 127);
        loop {
            let mut ch = false;
            for (l, _, rhs) in &r.prods {
                let f = if (rhs[0] as usize) < r.nts {
                    r.first[rhs[0] as usize]
                } else {
                    1 << (rhs[0] as usize - r.nts)
                };
                let e = &mut r.first[*l as usize];
                ch |= *e | f != *e;
                *e |= f;
            }
            if !ch {
                break;
            }
        }
        r.follow[0] = 1 << r.ts;
        loop {
            let mut ch = false;
            for (l, _, rhs) in &r.prods {
                for (i, s) in rhs.iter().enumerate() {
                    if (*s as usize) >= r.nts {
                        continue;
                    }
                    let f = match rhs.get(i + 1) {
                        Some(n) => r.first_sym(*n),
                        None => r.follow[*l as usize],
                    };
                    let e = &mut r.follow[*s as usize];
                    ch |= *e | f != *e;
                    *e |= f;
                }
            }
            if !ch {
                break;
            }
        }
        r
    }

    pub fn first_sym(&self, s: u16) -> Bits {
        if (s as usize) < self.nts {
            self.first[s as usize]
        } else {
            1 << (s as usize - self.nts)
        }
    }

    fn is_nt(&self, s: u16) -> bool {
        (s as usize) < self.nts
    }

    /// Earley over terminal indices. Stops at the first token which no sentence can continue with.
    /// Gives up on words that take more than `EARLEY_WORK` items, as very ambiguous ones do.
    pub fn earley(&self, input: &[u16]) -> Option<Earley> {
        let mut work = 0;
        // item: (prod, dot, origin)
        let mut sets: Vec<Vec<(usize, usize, usize)>> = Vec::new();
        let mut cur: Vec<(usize, usize, usize)> =
            self.by_lhs[0].iter().map(|p| (*p, 0, 0)).collect();
        let mut expected = Vec::new();
        for pos in 0..=input.len() {
            let mut set = Vec::new();
            let mut s = BTreeSet::new();
            let mut q: VecDeque<_> = cur.drain(..).collect();
            let mut exp: Bits = 0;
            let mut done = false;
            // no empty productions: a completed item never started at `pos`, so completion only
            // looks at finished sets
            while let Some(it) = q.pop_front() {
                work += 1;
                if work > EARLEY_WORK {
                    return None;
                }
                if !s.insert(it) {
                    continue;
                }
                set.push(it);
                let (p, d, o) = it;
                match self.prods[p].2.get(d) {
                    Some(x) if self.is_nt(*x) => {
                        q.extend(self.by_lhs[*x as usize].iter().map(|p| (*p, 0, pos)));
                    }
                    Some(x) => exp |= 1 << (*x as usize - self.nts),
                    None => {
                        let lhs = self.prods[p].0;
                        if lhs == 0 && o == 0 {
                            exp |= 1 << self.ts;
                            done = true;
                        }
                        for (p2, d2, o2) in &sets[o] {
                            if self.prods[*p2].2.get(*d2) == Some(&lhs) {
                                q.push_back((*p2, d2 + 1, *o2));
                            }
                        }
                    }
                }
            }
            expected.push(exp);
            if pos == input.len() {
                return Some(Earley {
                    accepts: done,
                    err: if done { None } else { Some(pos) },
                    expected,
                });
            }
            let t = input[pos];
            for (p, d, o) in &set {
                if self.prods[*p].2.get(*d) == Some(&t) {
                    cur.push((*p, d + 1, *o));
                }
            }
            sets.push(set);
            if cur.is_empty() {
                return Some(Earley {
                    accepts: false,
                    err: Some(pos),
                    expected,
                });
            }
        }
        unreachable!()
    }

    /// Canonical LR(1) sets as maps core item -> lookahead bits, or None when over `cap` states.
    pub fn lr1_sets(&self, cap: usize) -> Option<Sets> {
        let start = self.closure1(BTreeMap::from([((0, 0), 1 << self.ts)]));
        let mut idx: HashMap<ItemSet, usize> = HashMap::from([(start.clone(), 0)]);
        let mut states = vec![start];
        let mut trans: Vec<BTreeMap<u16, usize>> = Vec::new();
        let mut i = 0;
        while i < states.len() {
            let mut by: BTreeMap<u16, ItemSet> = BTreeMap::new();
            for ((p, d), la) in &states[i] {
                if let Some(x) = self.prods[*p].2.get(*d) {
                    *by.entry(*x).or_default().entry((*p, d + 1)).or_default() |= la;
                }
            }
            let mut tr = BTreeMap::new();
            for (x, k) in by {
                let c = self.closure1(k);
                let n = states.len();
                let t = *idx.entry(c.clone()).or_insert(n);
                if t == n {
                    states.push(c);
                    if states.len() > cap {
                        return None;
                    }
                }
                tr.insert(x, t);
            }
            trans.push(tr);
            i += 1;
        }
        Some((states, trans))
    }

    fn closure1(&self, mut set: ItemSet) -> ItemSet {
        let mut work: Vec<(usize, usize)> = set.keys().copied().collect();
        while let Some((p, d)) = work.pop() {
            let la = set[&(p, d)];
            let rhs = &self.prods[p].2;
            let Some(x) = rhs.get(d) else { continue };
            if !self.is_nt(*x) {
                continue;
            }
            let nla = rhs.get(d + 1).map_or(la, |n| self.first_sym(*n));
            for q in &self.by_lhs[*x as usize] {
                let e = set.entry((*q, 0)).or_insert(0);
                if *e | nla != *e {
                    *e |= nla;
                    work.push((*q, 0));
                }
            }
        }
        set
    }

    pub fn rows(&self, sets: &[ItemSet], trans: &[BTreeMap<u16, usize>]) -> Auto {
        let rows = sets
            .iter()
            .zip(trans)
            .map(|(s, t)| {
                let mut row = Row::default();
                for (x, to) in t {
                    if self.is_nt(*x) {
                        row.goto.insert(*x, *to);
                    } else {
                        row.acts
                            .entry(*x as usize - self.nts)
                            .or_default()
                            .insert(Act::Shift(*to));
                    }
                }
                for ((p, d), la) in s {
                    if *d == self.prods[*p].2.len() {
                        for b in 0..=self.ts {
                            if la >> b & 1 == 1 {
                                row.acts.entry(b).or_default().insert(
                                    if self.prods[*p].0 == 0 {
                                        Act::Acc
                                    } else {
                                        Act::Reduce(*p)
                                    },
                                );
                            }
                        }
                    }
                }
                row
            })
            .collect();
        Auto { rows }
    }

    /// (canonical LR(1), LALR(1))
    pub fn lr1_lalr(&self, cap: usize) -> Option<(Auto, Auto)> {
        let (sets, trans) = self.lr1_sets(cap)?;
        let (ms, mt) = Self::merge_cores(&sets, &trans);
        Some((self.rows(&sets, &trans), self.rows(&ms, &mt)))
    }

    pub fn merge_cores(sets: &[ItemSet], trans: &[BTreeMap<u16, usize>]) -> Sets {
        let mut core_idx: BTreeMap<Vec<(usize, usize)>, usize> = BTreeMap::new();
        let mut merged: Vec<ItemSet> = Vec::new();
        let mut of = Vec::new();
        for s in sets {
            let core: Vec<_> = s.keys().copied().collect();
            let n = merged.len();
            let i = *core_idx.entry(core).or_insert(n);
            if i == n {
                merged.push(ItemSet::new());
            }
            for (k, la) in s {
                *merged[i].entry(*k).or_insert(0) |= la;
            }
            of.push(i);
        }
        let mut mtrans = vec![BTreeMap::new(); merged.len()];
        for (i, t) in trans.iter().enumerate() {
            for (x, to) in t {
                mtrans[of[i]].insert(*x, of[*to]);
            }
        }
        (merged, mtrans)
    }

    /// SLR(1)
    pub fn slr(&self) -> Auto {
        let (sets, trans) = self.slr_sets();
        self.rows(&sets, &trans)
    }

    /// LR(0) sets, every item with FOLLOW of its rule
    pub fn slr_sets(&self) -> Sets {
        let close = |mut s: BTreeSet<(usize, usize)>| {
            let mut work: Vec<_> = s.iter().copied().collect();
            while let Some((p, d)) = work.pop() {
                if let Some(x) = self.prods[p].2.get(d) {
                    if self.is_nt(*x) {
                        for q in &self.by_lhs[*x as usize] {
                            if s.insert((*q, 0)) {
                                work.push((*q, 0));
                            }
                        }
                    }
                }
            }
            s
        };
        let start = close(BTreeSet::from([(0, 0)]));
        let mut idx = HashMap::from([(start.clone(), 0usize)]);
        let mut states = vec![start];
        let mut trans = Vec::new();
        let mut i = 0;
        while i < states.len() {
            let mut by: BTreeMap<u16, BTreeSet<(usize, usize)>> = BTreeMap::new();
            for (p, d) in &states[i] {
                if let Some(x) = self.prods[*p].2.get(*d) {
                    by.entry(*x).or_default().insert((*p, d + 1));
                }
            }
            let mut tr = BTreeMap::new();
            for (x, k) in by {
                let c = close(k);
                let n = states.len();
                let t = *idx.entry(c.clone()).or_insert(n);
                if t == n {
                    states.push(c);
                }
                tr.insert(x, t);
            }
            trans.push(tr);
            i += 1;
        }
        let sets: Vec<ItemSet> = states
            .iter()
            .map(|s| {
                s.iter()
                    .map(|(p, d)| ((*p, *d), self.follow[self.prods[*p].0 as usize]))
                    .collect()
            })
            .collect();
        (sets, trans)
    }
}

pub type Sets = (Vec<ItemSet>, Vec<BTreeMap<u16, usize>>);
pub type ItemSet = BTreeMap<(usize, usize), Bits>;

#[derive(Debug, Clone)]
pub struct Earley {
    pub accepts: bool,
    /// index of the first token (input length = end of input) no sentence can continue with
    pub err: Option<usize>,
    /// per position reached, the tokens some sentence continues with, and the end of input if it
    /// can end there
    pub expected: Vec<Bits>,
}

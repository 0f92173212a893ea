//! Grammar specifications: data type, random generation, static analysis, derivation of inputs.
use crate::nt::{structural, EOF};
use crate::re::{self, Re};
use crate::lexs::size;
use crate::tape::Tape;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct VFn {
    pub id: usize,
    pub kind: u8,
    pub k: u64,
}

#[derive(Clone, Debug)]
pub enum G {
    Tok(u8, Option<u8>),
    /// set of tokens; bool: built with `with_value`
    TokSet(Vec<(u8, Option<u8>)>, bool),
    Str(String, Option<u8>),
    StrSet(Vec<(String, Option<u8>)>),
    Punct(Vec<(String, Option<u8>)>),
    Regex(Re, Option<u8>),
    Null,
    NullHidden,
    Eof(Option<u8>),
    Ref(usize),
    Nullable(Box<G>),
    NullHid(Box<G>),
    List(Box<G>),
    Sep(Box<G>, Box<G>, bool),
    Hidden(Box<G>),
    Node(Box<G>, u8),
    Look(Box<G>, Option<u8>),
    NonStr(Box<G>, bool),
    Struct(Box<G>),
    Cache(Box<G>, usize),
    Valid(Box<G>, VFn),
}

#[derive(Clone, Debug)]
pub enum Rule {
    Concat(Vec<G>),
    Union(Vec<G>),
    Suffixes(G, bool, Vec<(G, u8)>),
}

#[derive(Clone, Debug)]
pub struct Gram {
    pub rules: Vec<Rule>,
    /// rules meant for raw (skipped-token) context
    pub raw: Vec<bool>,
    pub tokenized: bool,
}

/// Kinds, used for weights and for reporting which constructs were exercised.
pub const K_TERM: usize = 0;
pub const K_REF: usize = 1;
pub const K_NULLABLE: usize = 2;
pub const K_NULLHID: usize = 3;
pub const K_LIST: usize = 4;
pub const K_SEP: usize = 5;
pub const K_HIDDEN: usize = 6;
pub const K_NODE: usize = 7;
pub const K_LOOK: usize = 8;
pub const K_NULL: usize = 9;
pub const K_EOF: usize = 10;
pub const K_NONSTR: usize = 11;
pub const K_STRUCT: usize = 12;
pub const K_CACHE: usize = 13;
pub const K_VALID: usize = 14;
pub const NK: usize = 15;
/// rule kinds for coverage masks
pub const K_CONCAT: usize = 16;
pub const K_UNION: usize = 17;
pub const K_SUFFIX: usize = 18;

#[derive(Clone)]
pub struct Cfg {
    pub tokenized: bool,
    pub w: [usize; NK],
    /// weights of Concat, Union, Suffixes
    pub rw: [usize; 3],
    pub max_rules: usize,
    pub depth: usize,
    /// structural tokens used (tokenized)
    pub toks: Vec<u8>,
    pub trivia: Vec<u8>,
    /// allow several kinds of terminals that match emptily
    pub empty_terms: bool,
    /// leave left recursion in (no repair)
    pub no_repair: bool,
    /// spelling pool for lexerless terminals
    pub strs: Vec<&'static str>,
    /// only plain terminals (no sets, no regexes)
    pub plain_terms: bool,
    /// refs to ordinary rules allowed inside raw context
    pub mixed_raw: bool,
}

impl Cfg {
    pub fn new(tokenized: bool) -> Self {
        Cfg {
            tokenized,
            //  term ref nullable nullhid list sep hidden node look null eof nonstr struct cache valid
            w: [40, 18, 5, 3, 5, 4, 3, 6, 3, 2, 1, 0, 0, 0, 0],
            rw: [5, 4, 2],
            max_rules: 5,
            depth: 3,
            toks: vec![0, 1, 2, 4, 6, 8],
            trivia: vec![3, 7],
            empty_terms: true,
            no_repair: false,
            strs: vec!["a", "b", "ab", "aa", "abc", "+", "=", "==", "é", "1", "ba", "\n", "c"],
            plain_terms: false,
            mixed_raw: false,
        }
    }
}

pub struct Gen<'a> {
    pub cfg: &'a Cfg,
    n_valid: usize,
    n_cache: usize,
    n_rules: usize,
    n_struct_rules: usize,
}

fn nodeval(t: &mut Tape) -> Option<u8> {
    if t.chance(1, 4) {
        None
    } else {
        Some(1 + t.below(9) as u8)
    }
}

impl<'a> Gen<'a> {
    fn terminal(&mut self, t: &mut Tape, raw: bool) -> G {
        let c = self.cfg;
        if c.tokenized {
            let mut pick = |t: &mut Tape| -> u8 {
                if raw && t.chance(2, 3) {
                    *t.pick(&c.trivia)
                } else if !raw && !c.trivia.is_empty() && t.chance(1, 60) {
                    *t.pick(&c.trivia)
                } else {
                    // skewed towards few tokens so that alternatives share first tokens
                    let n = c.toks.len();
                    let m = if t.chance(1, 3) { n } else { n.min(3) };
                    c.toks[t.below(m)]
                }
            };
            if !c.plain_terms && t.chance(1, 6) {
                let n = size(t, 1, 3, 12);
                let mut set: Vec<(u8, Option<u8>)> = vec![];
                let shared = t.chance(1, 3);
                let v = nodeval(t);
                for _ in 0..n {
                    let k = pick(t);
                    if set.iter().all(|(x, _)| *x != k) {
                        let nv = if shared { v } else { nodeval(t) };
                        set.push((k, nv));
                    }
                }
                return G::TokSet(set, shared);
            }
            let k = pick(t);
            G::Tok(k, nodeval(t))
        } else {
            let k = if c.plain_terms { 0 } else { t.weighted(&[6, 2, 2, 3]) };
            match k {
                0 => G::Str(t.pick(&c.strs).to_string(), nodeval(t)),
                1 | 2 => {
                    let n = size(t, 1, 4, 30);
                    let mut set: Vec<(String, Option<u8>)> = vec![];
                    for _ in 0..n {
                        let mut s = if c.empty_terms && t.chance(1, 20) { "".to_string() } else { t.pick(&c.strs).to_string() };
                        if n > 4 && t.chance(2, 3) {
                            s.push_str(t.pick(&c.strs));
                        }
                        let nv = nodeval(t);
                        if set.iter().all(|(x, _)| *x != s) {
                            set.push((s, nv));
                        }
                    }
                    if k == 1 {
                        G::StrSet(set)
                    } else {
                        G::Punct(set)
                    }
                }
                _ => {
                    let allow = c.empty_terms && t.chance(1, 4);
                    let r = re::gen(t, 2, allow);
                    G::Regex(re::ending(t, r), nodeval(t))
                }
            }
        }
    }

    fn expr(&mut self, t: &mut Tape, depth: usize, raw: bool) -> G {
        let mut w = self.cfg.w;
        if depth == 0 {
            for (i, x) in w.iter_mut().enumerate() {
                if i != K_TERM && i != K_REF && i != K_NULL {
                    *x = 0;
                }
            }
        }
        if raw {
            w[K_CACHE] = 0;
        } else {
            w[K_STRUCT] = if w[K_STRUCT] > 0 { 1 } else { 0 };
        }
        if raw && self.n_rules == self.n_struct_rules && !self.cfg.mixed_raw {
            w[K_REF] = 0;
        }
        let k = t.weighted(&w);
        let d = depth.saturating_sub(1);
        match k {
            K_TERM => self.terminal(t, raw),
            K_REF => {
                if raw {
                    if self.cfg.mixed_raw && (self.n_rules == self.n_struct_rules || t.chance(1, 2)) {
                        G::Ref(t.below(self.n_struct_rules))
                    } else {
                        G::Ref(self.n_struct_rules + t.below(self.n_rules - self.n_struct_rules))
                    }
                } else {
                    G::Ref(t.below(self.n_struct_rules))
                }
            }
            K_NULLABLE => G::Nullable(Box::new(self.expr(t, d, raw))),
            K_NULLHID => G::NullHid(Box::new(self.expr(t, d, raw))),
            K_LIST => G::List(Box::new(self.expr(t, d, raw))),
            K_SEP => G::Sep(Box::new(self.expr(t, d, raw)), Box::new(self.expr(t, d, raw)), t.chance(1, 2)),
            K_HIDDEN => G::Hidden(Box::new(self.expr(t, d, raw))),
            K_NODE => G::Node(Box::new(self.expr(t, d, raw)), 10 + t.below(10) as u8),
            K_LOOK => G::Look(Box::new(self.expr(t, d, raw)), if t.chance(1, 2) { None } else { Some(20 + t.below(4) as u8) }),
            K_NULL => {
                if t.chance(1, 2) {
                    G::NullHidden
                } else {
                    G::Null
                }
            }
            K_EOF => G::Eof(if t.chance(1, 2) { None } else { Some(25) }),
            K_NONSTR => G::NonStr(Box::new(self.expr(t, d, true)), t.chance(1, 2)),
            K_STRUCT => {
                // content of Structural is evaluated on structural tokens again
                G::Struct(Box::new(self.expr(t, d, false)))
            }
            K_CACHE => {
                self.n_cache += 1;
                let k = self.n_cache;
                G::Cache(Box::new(self.expr(t, d, raw)), k)
            }
            _ => {
                self.n_valid += 1;
                let id = self.n_valid;
                let kind = *t.pick(&[1u8, 2, 0, 3, 4]);
                let k = t.below(7) as u64;
                G::Valid(Box::new(self.expr(t, d, raw)), VFn { id, kind, k })
            }
        }
    }
    fn rule(&mut self, t: &mut Tape, raw: bool) -> Rule {
        let d = self.cfg.depth;
        match t.weighted(&self.cfg.rw) {
            0 => {
                let n = size(t, 1, 4, 16);
                Rule::Concat((0..n).map(|_| self.expr(t, d, raw)).collect())
            }
            1 => {
                let n = size(t, 1, 4, 40);
                Rule::Union((0..n).map(|_| self.expr(t, d, raw)).collect())
            }
            _ => {
                let l = self.expr(t, d, raw);
                let n = size(t, 1, 3, 20);
                let st = t.chance(1, 2);
                Rule::Suffixes(l, st, (0..n).map(|_| (self.expr(t, d, raw), 30 + t.below(9) as u8)).collect())
            }
        }
    }
}

pub fn gen(t: &mut Tape, cfg: &Cfg) -> Gram {
    let n = size(t, 1, cfg.max_rules, 40);
    let n_raw = if cfg.w[K_NONSTR] > 0 { t.below(3) } else { 0 };
    let mut g = Gen { cfg, n_valid: 0, n_cache: 0, n_rules: n + n_raw, n_struct_rules: n };
    let mut rules = vec![];
    let mut raw = vec![];
    for i in 0..n + n_raw {
        let r = i >= n;
        rules.push(g.rule(t, r));
        raw.push(r);
    }
    let mut gr = Gram { rules, raw, tokenized: cfg.tokenized };
    if !cfg.no_repair {
        repair(&mut gr, cfg);
    }
    gr
}

// ------------------------------------------------------------------ analysis

impl G {
    pub fn kind(&self) -> usize {
        match self {
            G::Tok(..) | G::TokSet(..) | G::Str(..) | G::StrSet(..) | G::Punct(..) | G::Regex(..) => K_TERM,
            G::Null | G::NullHidden => K_NULL,
            G::Eof(_) => K_EOF,
            G::Ref(_) => K_REF,
            G::Nullable(_) => K_NULLABLE,
            G::NullHid(_) => K_NULLHID,
            G::List(_) => K_LIST,
            G::Sep(..) => K_SEP,
            G::Hidden(_) => K_HIDDEN,
            G::Node(..) => K_NODE,
            G::Look(..) => K_LOOK,
            G::NonStr(..) => K_NONSTR,
            G::Struct(_) => K_STRUCT,
            G::Cache(..) => K_CACHE,
            G::Valid(..) => K_VALID,
        }
    }
    pub fn kids(&self) -> Vec<&G> {
        match self {
            G::Nullable(x) | G::NullHid(x) | G::List(x) | G::Hidden(x) | G::Node(x, _) | G::Look(x, _) | G::NonStr(x, _) | G::Struct(x) | G::Cache(x, _) | G::Valid(x, _) => vec![x],
            G::Sep(a, b, _) => vec![a, b],
            _ => vec![],
        }
    }
    /// Renames the kinds of the token terminals.
    pub fn rename(&mut self, f: &dyn Fn(u8) -> u8) {
        match self {
            G::Tok(k, _) => *k = f(*k),
            G::TokSet(v, _) => v.iter_mut().for_each(|(k, _)| *k = f(*k)),
            G::Nullable(x) | G::NullHid(x) | G::List(x) | G::Hidden(x) | G::Node(x, _) | G::Look(x, _) | G::NonStr(x, _) | G::Struct(x) | G::Cache(x, _) | G::Valid(x, _) => x.rename(f),
            G::Sep(a, b, _) => {
                a.rename(f);
                b.rename(f)
            }
            _ => {}
        }
    }
    /// Can it succeed without consuming? (zero-width constructs always can)
    pub fn nullable(&self, rn: &[bool]) -> bool {
        match self {
            G::Tok(..) | G::TokSet(..) => false,
            G::Str(s, _) => s.is_empty(),
            G::StrSet(v) | G::Punct(v) => v.iter().any(|(s, _)| s.is_empty()),
            G::Regex(r, _) => r.nullable(),
            G::Null | G::NullHidden | G::Eof(_) | G::Nullable(_) | G::NullHid(_) | G::Look(..) | G::NonStr(..) => true,
            G::Ref(i) => rn[*i],
            G::List(x) | G::Hidden(x) | G::Node(x, _) | G::Struct(x) | G::Cache(x, _) | G::Valid(x, _) => x.nullable(rn),
            // one element is needed, nothing else
            G::Sep(x, _, _) => x.nullable(rn),
        }
    }
    /// Rules that can be entered at the same position.
    pub fn left(&self, rn: &[bool], out: &mut BTreeSet<usize>) {
        match self {
            G::Ref(i) => {
                out.insert(*i);
            }
            G::Sep(x, s, _) => {
                x.left(rn, out);
                if x.nullable(rn) {
                    s.left(rn, out);
                }
            }
            _ => self.kids().iter().for_each(|k| k.left(rn, out)),
        }
    }
    /// Replace references to rules of `set` at left positions.
    fn cut(&mut self, rn: &[bool], set: &BTreeSet<usize>, with: &G) {
        match self {
            G::Ref(i) => {
                if set.contains(i) {
                    *self = with.clone();
                }
            }
            G::Sep(x, s, _) => {
                if x.nullable(rn) {
                    s.cut(rn, set, with);
                }
                x.cut(rn, set, with);
            }
            G::Nullable(x) | G::NullHid(x) | G::List(x) | G::Hidden(x) | G::Node(x, _) | G::Look(x, _) | G::NonStr(x, _) | G::Struct(x) | G::Cache(x, _) | G::Valid(x, _) => x.cut(rn, set, with),
            _ => {}
        }
    }
    pub fn refs(&self, out: &mut BTreeSet<usize>) {
        if let G::Ref(i) = self {
            out.insert(*i);
        }
        self.kids().iter().for_each(|k| k.refs(out));
    }
    pub fn any(&self, f: &dyn Fn(&G) -> bool) -> bool {
        f(self) || self.kids().iter().any(|k| k.any(f))
    }
}

impl Rule {
    pub fn rename(&mut self, f: &dyn Fn(u8) -> u8) {
        match self {
            Rule::Concat(v) | Rule::Union(v) => v.iter_mut().for_each(|g| g.rename(f)),
            Rule::Suffixes(g, _, v) => {
                g.rename(f);
                v.iter_mut().for_each(|(g, _)| g.rename(f))
            }
        }
    }
    pub fn parts(&self) -> Vec<&G> {
        match self {
            Rule::Concat(v) | Rule::Union(v) => v.iter().collect(),
            Rule::Suffixes(l, _, s) => std::iter::once(l).chain(s.iter().map(|(g, _)| g)).collect(),
        }
    }
    pub fn parts_mut(&mut self) -> Vec<&mut G> {
        match self {
            Rule::Concat(v) | Rule::Union(v) => v.iter_mut().collect(),
            Rule::Suffixes(l, _, s) => std::iter::once(l).chain(s.iter_mut().map(|(g, _)| g)).collect(),
        }
    }
    pub fn nullable(&self, rn: &[bool]) -> bool {
        match self {
            Rule::Concat(v) => v.iter().all(|g| g.nullable(rn)),
            Rule::Union(v) => v.iter().any(|g| g.nullable(rn)),
            Rule::Suffixes(l, st, s) => l.nullable(rn) && (*st || s.iter().any(|(g, _)| g.nullable(rn))),
        }
    }
    fn left_count(&self, rn: &[bool]) -> usize {
        match self {
            Rule::Concat(v) => {
                let mut n = 0;
                for g in v {
                    n += 1;
                    if !g.nullable(rn) {
                        break;
                    }
                }
                n
            }
            Rule::Union(v) => v.len(),
            Rule::Suffixes(l, _, s) => {
                if l.nullable(rn) {
                    1 + s.len()
                } else {
                    1
                }
            }
        }
    }
    pub fn left(&self, rn: &[bool]) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        for g in self.parts().into_iter().take(self.left_count(rn)) {
            g.left(rn, &mut out);
        }
        out
    }
}

impl Gram {
    pub fn nullability(&self) -> Vec<bool> {
        let mut rn = vec![false; self.rules.len()];
        loop {
            let mut ch = false;
            for (i, r) in self.rules.iter().enumerate() {
                if !rn[i] && r.nullable(&rn) {
                    rn[i] = true;
                    ch = true;
                }
            }
            if !ch {
                return rn;
            }
        }
    }
    pub fn reachable(&self) -> BTreeSet<usize> {
        self.reachable_from(0)
    }
    pub fn reachable_from(&self, root: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut st = vec![root];
        while let Some(i) = st.pop() {
            if seen.insert(i) {
                let mut o = BTreeSet::new();
                self.rules[i].parts().iter().for_each(|g| g.refs(&mut o));
                st.extend(o);
            }
        }
        seen
    }
    /// For each rule, the set of rules reachable through left positions.
    pub fn left_closure(&self) -> Vec<BTreeSet<usize>> {
        let rn = self.nullability();
        let mut l: Vec<BTreeSet<usize>> = self.rules.iter().map(|r| r.left(&rn)).collect();
        loop {
            let mut ch = false;
            for i in 0..l.len() {
                let mut add = BTreeSet::new();
                for j in &l[i] {
                    add.extend(l[*j].iter().copied());
                }
                for a in add {
                    ch |= l[i].insert(a);
                }
            }
            if !ch {
                return l;
            }
        }
    }
    pub fn left_recursive(&self, among: &BTreeSet<usize>) -> bool {
        let l = self.left_closure();
        among.iter().any(|i| l[*i].contains(i))
    }
    pub fn any(&self, f: &dyn Fn(&G) -> bool) -> bool {
        self.rules.iter().any(|r| r.parts().iter().any(|g| g.any(f)))
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        for (i, r) in self.rules.iter().enumerate() {
            let _ = write!(o, "R{}{} = ", i, if self.raw[i] { " (raw)" } else { "" });
            match r {
                Rule::Concat(v) => {
                    let _ = write!(o, "Concat[{}]", v.iter().map(show).collect::<Vec<_>>().join(", "));
                }
                Rule::Union(v) => {
                    let _ = write!(o, "Union[{}]", v.iter().map(show).collect::<Vec<_>>().join(" | "));
                }
                Rule::Suffixes(l, st, s) => {
                    let _ = write!(
                        o,
                        "Suffixes(left {}, standalone {}, [{}])",
                        show(l),
                        st,
                        s.iter().map(|(g, n)| format!("{} as N{}", show(g), n)).collect::<Vec<_>>().join(" | ")
                    );
                }
            }
            o.push('\n');
        }
        o
    }
}

fn nv(n: &Option<u8>) -> String {
    n.map_or(String::new(), |n| format!(":N{}", n))
}
pub fn show(g: &G) -> String {
    match g {
        G::Tok(t, n) => format!("T{}{}", t, nv(n)),
        G::TokSet(v, _) => format!("TokSet({})", v.iter().map(|(t, n)| format!("T{}{}", t, nv(n))).collect::<Vec<_>>().join(",")),
        G::Str(s, n) => format!("{:?}{}", s, nv(n)),
        G::StrSet(v) => format!("ConstSet({})", v.iter().map(|(t, n)| format!("{:?}{}", t, nv(n))).collect::<Vec<_>>().join(",")),
        G::Punct(v) => format!("Punct({})", v.iter().map(|(t, n)| format!("{:?}{}", t, nv(n))).collect::<Vec<_>>().join(",")),
        G::Regex(r, n) => format!("/{}/{}", r.anchored(), nv(n)),
        G::Null => "Null".into(),
        G::NullHidden => "NullHidden".into(),
        G::Eof(n) => format!("EOF{}", nv(n)),
        G::Ref(i) => format!("R{}", i),
        G::Nullable(x) => format!("Nullable({})", show(x)),
        G::NullHid(x) => format!("NullableHidden({})", show(x)),
        G::List(x) => format!("List({})", show(x)),
        G::Sep(a, b, i) => format!("SepList({}, sep {}, inclusive {})", show(a), show(b), i),
        G::Hidden(x) => format!("Hidden({})", show(x)),
        G::Node(x, n) => format!("Node({}, N{})", show(x), n),
        G::Look(x, n) => format!("Lookahead({}{})", show(x), nv(n)),
        G::NonStr(x, f) => format!("NonStructural({}, fill {})", show(x), f),
        G::Struct(x) => format!("Structural({})", show(x)),
        G::Cache(x, k) => format!("Cacheable#{}({})", k, show(x)),
        G::Valid(x, v) => format!("Validator#{}(kind {}, k {}, {})", v.id, v.kind, v.k, show(x)),
    }
}

fn repair(g: &mut Gram, cfg: &Cfg) {
    // a terminal to put in place of an offending reference; varies with the rule
    loop {
        let l = g.left_closure();
        let rn = g.nullability();
        let mut done = true;
        for i in 0..g.rules.len() {
            if l[i].contains(&i) {
                // rules on a left cycle with i
                let scc: BTreeSet<usize> = (0..g.rules.len()).filter(|j| l[i].contains(j) && l[*j].contains(&i)).collect();
                let with = if cfg.tokenized {
                    G::Tok(cfg.toks[i % cfg.toks.len()], Some(9))
                } else {
                    G::Str(cfg.strs[i % cfg.strs.len()].to_string(), Some(9))
                };
                let n = g.rules[i].left_count(&rn);
                for p in g.rules[i].parts_mut().into_iter().take(n) {
                    p.cut(&rn, &scc, &with);
                }
                done = false;
                break;
            }
        }
        if done {
            return;
        }
    }
}

// ------------------------------------------------------------------ input derivation

/// Piece of an input: for tokenized grammars a token kind, else bytes.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Tok(u8),
    Bytes(Vec<u8>),
}

/// `big`: repetitions of up to that many elements.
pub fn derive(t: &mut Tape, g: &Gram, root: usize, big: usize) -> Vec<Item> {
    let mut out = vec![];
    let mut fuel = if big > 0 { 6 * big + 60 } else { 60 };
    derive_rule(t, g, root, &mut out, &mut fuel, 0, big);
    out
}
fn times(t: &mut Tape, depth: usize, big: usize) -> usize {
    if depth >= 10 {
        0
    } else if big > 0 && t.chance(1, 2) {
        t.below(big)
    } else {
        t.below(3)
    }
}
fn derive_rule(t: &mut Tape, gr: &Gram, i: usize, out: &mut Vec<Item>, fuel: &mut usize, depth: usize, big: usize) {
    if *fuel == 0 || depth > if big > 0 { 60 } else { 24 } {
        return;
    }
    *fuel -= 1;
    match &gr.rules[i] {
        Rule::Concat(v) => v.iter().for_each(|g| derive_g(t, gr, g, out, fuel, depth + 1, big)),
        Rule::Union(v) => {
            // prefer terminals when deep
            let k = if depth > 8 { v.iter().position(|g| g.kind() == K_TERM).unwrap_or_else(|| t.below(v.len())) } else { t.below(v.len()) };
            derive_g(t, gr, &v[k], out, fuel, depth + 1, big)
        }
        Rule::Suffixes(l, st, s) => {
            derive_g(t, gr, l, out, fuel, depth + 1, big);
            let k = t.below(s.len() + *st as usize);
            if k < s.len() {
                derive_g(t, gr, &s[k].0, out, fuel, depth + 1, big)
            }
        }
    }
}
fn derive_g(t: &mut Tape, gr: &Gram, g: &G, out: &mut Vec<Item>, fuel: &mut usize, depth: usize, big: usize) {
    if *fuel == 0 {
        return;
    }
    *fuel -= 1;
    match g {
        G::Tok(k, _) => out.push(Item::Tok(*k)),
        G::TokSet(v, _) => out.push(Item::Tok(t.pick(v).0)),
        G::Str(s, _) => out.push(Item::Bytes(s.as_bytes().to_vec())),
        G::StrSet(v) | G::Punct(v) => out.push(Item::Bytes(t.pick(v).0.as_bytes().to_vec())),
        G::Regex(r, _) => {
            let mut b = vec![];
            r.spell(t, &mut b);
            out.push(Item::Bytes(b))
        }
        G::Null | G::NullHidden | G::Eof(_) => {}
        G::Ref(i) => derive_rule(t, gr, *i, out, fuel, depth, big),
        G::Nullable(x) | G::NullHid(x) => {
            if t.chance(1, 2) && depth < 12 {
                derive_g(t, gr, x, out, fuel, depth, big)
            }
        }
        G::List(x) => {
            let n = 1 + times(t, depth, big);
            for _ in 0..n {
                derive_g(t, gr, x, out, fuel, depth, big)
            }
        }
        G::Sep(x, s, _) => {
            let n = times(t, depth, big);
            derive_g(t, gr, x, out, fuel, depth, big);
            for _ in 0..n {
                derive_g(t, gr, s, out, fuel, depth, big);
                derive_g(t, gr, x, out, fuel, depth, big)
            }
            if t.chance(1, 4) {
                derive_g(t, gr, s, out, fuel, depth, big)
            }
        }
        G::Look(..) => {}
        G::Hidden(x) | G::Node(x, _) | G::NonStr(x, _) | G::Struct(x) | G::Cache(x, _) | G::Valid(x, _) => derive_g(t, gr, x, out, fuel, depth, big),
    }
}

fn random_item(t: &mut Tape, g: &Gram, cfg: &Cfg) -> Item {
    if g.tokenized {
        if t.chance(1, 5) && !cfg.trivia.is_empty() {
            Item::Tok(*t.pick(&cfg.trivia))
        } else {
            Item::Tok(*t.pick(&cfg.toks))
        }
    } else if t.chance(1, 12) {
        Item::Bytes(vec![*t.pick(&[0xffu8, 0xc3, 0x80, 0, b'\n', b'~', b' ', 0xe2])])
    } else {
        Item::Bytes(t.pick(&cfg.strs).as_bytes().to_vec())
    }
}

/// An input for the grammar: derived from it, then maybe mutated, or random.
pub fn gen_items(t: &mut Tape, g: &Gram, cfg: &Cfg, root: usize) -> Vec<Item> {
    let big = if t.chance(1, 250) { *t.pick(&[30usize, 70, 140, 300]) } else { 0 };
    let mut v = if t.chance(7, 8) {
        derive(t, g, root, big)
    } else {
        let n = t.below(12 + 2 * big);
        (0..n).map(|_| random_item(t, g, cfg)).collect()
    };
    let m = t.weighted(&[6, 4, 2, 1]);
    for _ in 0..m {
        match t.below(5) {
            0 => v.push(random_item(t, g, cfg)),
            1 => {
                if !v.is_empty() {
                    let i = t.below(v.len());
                    v.remove(i);
                }
            }
            2 => {
                if !v.is_empty() {
                    let i = t.below(v.len());
                    v[i] = random_item(t, g, cfg);
                }
            }
            3 => {
                let i = t.below(v.len() + 1);
                let it = random_item(t, g, cfg);
                v.insert(i, it);
            }
            _ => {
                if !v.is_empty() {
                    let i = t.below(v.len());
                    let j = t.below(v.len());
                    v.swap(i, j);
                }
            }
        }
    }
    if big > 0 && !v.is_empty() && t.chance(1, 3) {
        // repeat a part many times
        let i = t.below(v.len());
        let k = t.range(1, 4.min(v.len() - i));
        let part: Vec<Item> = v[i..i + k].to_vec();
        let n = big / k;
        v.splice(i..i, (0..n).flat_map(|_| part.iter().cloned()));
    }
    v.truncate(if big > 0 { 900 } else { 120 });
    v
}

/// Tokenized grammars choose alternatives by the next token before evaluating them, so a
/// validation function whose content can be empty may not be asked at all; let those never
/// answer with a validation error.
pub fn soften(g: &mut Gram) {
    fn go(x: &mut G, rn: &[bool]) {
        match x {
            G::Valid(y, f) => {
                if y.nullable(rn) {
                    f.kind = f.kind % 2;
                }
                go(y, rn)
            }
            G::Nullable(y) | G::NullHid(y) | G::List(y) | G::Hidden(y) | G::Node(y, _) | G::Look(y, _) | G::NonStr(y, _) | G::Struct(y) | G::Cache(y, _) => go(y, rn),
            G::Sep(a, b, _) => {
                go(a, rn);
                go(b, rn)
            }
            _ => {}
        }
    }
    let rn = g.nullability();
    for r in &mut g.rules {
        for p in r.parts_mut() {
            go(p, &rn)
        }
    }
}

pub fn is_eof(k: u8) -> bool {
    k == EOF
}
pub fn is_struct(k: u8) -> bool {
    structural(k)
}

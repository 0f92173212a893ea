//! Properties about parsing: the library is compared with the reference interpreter, with
//! itself under a transformation, or its answers are checked against invariants.
use crate::engine::*;
use crate::gram::*;
use crate::lexs::*;
use crate::mk::{self, Built, Style};
use crate::nt::*;
use crate::p_lex::{fail, lib_tok, show_bytes, Toks};
use crate::peg::{Env, Mode, Out};
use crate::tape::Tape;
use lang_pt::*;
use std::collections::HashSet;
use std::rc::Rc;

pub enum Par {
    B(LexerlessParser<Nd, i8>, Built<mk::LB>),
    T(DefaultParser<Nd, Tk>, Built<mk::LT>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum LOut {
    Ok(Vec<T>),
    Err(usize, String),
    Panic(String),
}
pub fn lres<N: Nk>(r: Result<Result<Vec<ASTNode<N>>, ParseError>, String>) -> LOut {
    match r {
        Ok(Ok(v)) => LOut::Ok(from_asts(&v)),
        Ok(Err(e)) => LOut::Err(e.pointer, e.message),
        Err(p) => LOut::Panic(p),
    }
}
impl Par {
    pub fn parse(&self, code: &[u8]) -> LOut {
        lres(guard(|| match self {
            Par::B(p, _) => p.parse(code),
            Par::T(p, _) => p.parse(code),
        }))
    }
}

const BUILD_STEPS: usize = 2_000_000;

/// The constructor's answer.
pub fn try_par(g: &Gram, tok: Option<&DynTok>, st: &Style) -> Result<Result<Par, String>, String> {
    mk::budget(BUILD_STEPS, 20_000);
    guard(|| match tok {
        None => {
            let b = mk::build::<mk::LB>(g, st);
            match LexerlessParser::new(b.root(0)) {
                Ok(p) => Ok(Par::B(p, b)),
                Err(e) => Err(format!("{}", e)),
            }
        }
        Some(t) => {
            let b = mk::build::<mk::LT>(g, st);
            match DefaultParser::new(t.clone(), b.root(0)) {
                Ok(p) => Ok(Par::T(p, b)),
                Err(e) => Err(format!("{}", e)),
            }
        }
    })
}
pub fn par(g: &Gram, tok: Option<&DynTok>, st: &Style) -> Result<Par, Fail> {
    match try_par(g, tok, st) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => fail(format!("a well-formed grammar was rejected: {}", e), g.show()),
        Err(p) => fail(format!("constructing a parser panicked: {}", p), g.show()),
    }
}

/// Where tokens come from.
#[derive(Clone, Copy, PartialEq)]
pub enum Src {
    None,
    /// harness tokenizer
    Ref,
    /// library tokenizer
    Lib,
}

pub struct Sys {
    pub g: Gram,
    pub cfg: Cfg,
    pub spec: Option<LexSpec>,
    pub src: Src,
    pub tok: Option<DynTok>,
    pub fixed_tokens: bool,
}

/// What the reference says about one input.
pub struct Want {
    pub out: Out,
    pub steps: usize,
    pub depth: usize,
    pub hit: u32,
    pub calls: Vec<(usize, u64)>,
    pub pos_calls: Vec<(usize, usize)>,
    pub val_unparsed: bool,
}

pub const LIMIT: usize = 20_000;

impl Sys {
    /// Token system of a tokenized grammar: `random` allows arbitrary tokenizers.
    pub fn new(t: &mut Tape, cfg: Cfg, random: bool) -> Result<Sys, Fail> {
        let mut g = gen(t, &cfg);
        if cfg.tokenized {
            soften(&mut g);
        }
        let k = if !cfg.tokenized {
            0
        } else if random {
            t.weighted(&[2, 1, 1]) + 1
        } else {
            t.weighted(&[3, 1]) + 1
        };
        let mut sys = Sys { g, cfg, spec: None, src: Src::None, tok: None, fixed_tokens: true };
        match k {
            0 => {}
            1 => {
                sys.spec = Some(s1());
                sys.src = Src::Ref;
                sys.tok = Some(Rc::new(RefTok(s1())));
            }
            _ => {
                let spec = if k == 2 {
                    s1()
                } else {
                    sys.fixed_tokens = false;
                    let st = t.chance(1, 2);
                    gen_spec(t, &LCfg { states: if st { 3 } else { 1 }, state_actions: st, ..LCfg::default() })
                };
                sys.src = Src::Lib;
                let b = guard(|| build_tok(&spec, LStyle::default()));
                sys.tok = match b {
                    Ok(Ok(t)) => Some(t),
                    // reported by the tokenizer properties
                    _ => None,
                };
                if sys.tok.is_none() {
                    sys.src = Src::Ref;
                    sys.tok = Some(Rc::new(RefTok(spec.clone())));
                }
                sys.spec = Some(spec);
            }
        }
        Ok(sys)
    }
    pub fn par(&self, st: &Style) -> Result<Par, Fail> {
        par(&self.g, self.tok.as_ref(), st)
    }
    pub fn spell(&self, t: &mut Tape, items: &[Item]) -> Vec<u8> {
        let mut out = vec![];
        let spec = self.spec.as_ref();
        for it in items {
            if spec.is_some() && t.chance(1, 5) {
                let k = *t.pick(&[3u8, 7]);
                self.spell_tok(t, k, &mut out);
            }
            match it {
                Item::Bytes(b) => out.extend_from_slice(b),
                Item::Tok(k) => self.spell_tok(t, *k, &mut out),
            }
        }
        if spec.is_some() && t.chance(1, 5) {
            let k = *t.pick(&[3u8, 7]);
                self.spell_tok(t, k, &mut out);
        }
        if spec.is_some() && t.chance(1, 50) {
            out.push(b'~');
        }
        // validation functions look at the whole source
        let looks = self.g.any(&|x| matches!(x, G::Valid(..)));
        out.truncate(if looks { 2000 } else { 70_000 });
        if let (Some(s), false) = (spec, self.fixed_tokens) {
            bound(s, &mut out)
        }
        out
    }
    fn spell_tok(&self, t: &mut Tape, k: u8, out: &mut Vec<u8>) {
        if self.fixed_tokens {
            s1_spell(t, k, out);
        } else {
            let spec = self.spec.as_ref().unwrap();
            let all: Vec<&LexS> = spec.states.iter().flat_map(|s| s.1.iter()).filter(|l| kinds_of(l).contains(&k)).collect();
            if all.is_empty() {
                let st = t.pick(&spec.states);
                t.pick(&st.1).spell(t, out);
            } else {
                t.pick(&all).spell(t, out);
            }
        }
    }
    pub fn input(&self, t: &mut Tape) -> Vec<u8> {
        let items = gen_items(t, &self.g, &self.cfg, 0);
        let mut out = self.spell(t, &items);
        edges(t, &mut out);
        if let (Some(s), false) = (&self.spec, self.fixed_tokens) {
            bound(s, &mut out)
        }
        out
    }
    /// Tokens the parser works on; None: the tokenizer misbehaves (reported elsewhere).
    pub fn tokens(&self, code: &[u8]) -> Option<Toks> {
        match self.src {
            Src::None => Some(Ok(vec![])),
            Src::Ref => Some(self.spec.as_ref().unwrap().tokenize(code).map_err(|e| e.0)),
            Src::Lib => match lib_tok(self.tok.as_ref().unwrap(), code) {
                Err(_) => None,
                Ok(Err(p)) => Some(Err(p)),
                Ok(Ok(v)) => {
                    let mut p = 0;
                    for (i, l) in v.iter().enumerate() {
                        let last = i + 1 == v.len();
                        if l.s != p || l.e < l.s || (l.t == EOF) != last || (last && l.e != l.s) || (!last && l.e == l.s) {
                            return None;
                        }
                        p = l.e;
                    }
                    if v.is_empty() || p != code.len() {
                        return None;
                    }
                    Some(Ok(v))
                }
            },
        }
    }
    pub fn mode(&self) -> Mode {
        if self.src == Src::None {
            Mode::Byte
        } else {
            Mode::Fltr
        }
    }
    pub fn want(&self, code: &[u8], toks: &[Lx], root: usize, p: usize, max: usize) -> Want {
        let mut e = Env::new(&self.g, code, toks, LIMIT.max(200 * code.len()));
        e.max = max;
        let out = e.parse(root, self.mode(), p);
        Want { out, steps: e.steps, depth: e.max_depth, hit: e.hit, calls: e.calls, pos_calls: e.pos_calls, val_unparsed: e.unparsed_by_valid }
    }
    pub fn expect(&self, code: &[u8]) -> Option<(Want, Vec<Lx>)> {
        match self.tokens(code)? {
            Err(p) => Some((Want { out: Out::Lex(p), steps: 0, depth: 0, hit: 0, calls: vec![], pos_calls: vec![], val_unparsed: false }, vec![])),
            Ok(v) => Some((self.want(code, &v, 0, 0, 0), v)),
        }
    }
    pub fn allow(&self, w: &Want, code: &[u8]) {
        lex_budget(400 * (code.len() + 2));
        mk::budget(50 * w.steps + 200_000, w.depth * 4 + 2000);
    }
    pub fn desc(&self, code: &[u8]) -> String {
        let tk = match &self.spec {
            Some(s) if !self.fixed_tokens => s.show(),
            _ => String::new(),
        };
        let kind = match self.src {
            Src::None => "lexerless",
            Src::Ref => "tokenized",
            Src::Lib => "tokenized, library tokenizer",
        };
        let toks = if self.src == Src::None {
            String::new()
        } else {
            match self.tokens(code) {
                Some(Ok(v)) => format!("\ntokens {}", v.iter().map(|l| format!("T{}@{}-{}", l.t, l.s, l.e)).collect::<Vec<_>>().join(" ")),
                o => format!("\ntokens {:?}", o),
            }
        };
        format!("{} grammar:\n{}{}input {}{}", kind, self.g.show(), tk, show_bytes(code), toks)
    }
}
pub fn kind_of(m: &str) -> &'static str {
    if m.starts_with("VAL#") {
        "validation error"
    } else {
        "syntax error"
    }
}
/// Does the library's answer fit the prescribed one?
pub fn agree(w: &Out, g: &LOut, ptr: bool) -> Result<(), String> {
    match (w, g) {
        (_, LOut::Panic(p)) => Err(format!("panic: {}", p)),
        (Out::Ok(v, _), LOut::Ok(t)) => {
            if v == t {
                Ok(())
            } else {
                Err(format!("trees differ\nexpected {:?}\ngot      {:?}", v, t))
            }
        }
        (Out::Ok(v, _), LOut::Err(p, m)) => Err(format!("the input parses but was rejected\nexpected {:?}\ngot error at {}: {:?}", v, p, m)),
        (e, LOut::Ok(t)) => Err(format!("the input was accepted although the outcome is {:?}\ngot {:?}", e, t)),
        (Out::Syn(p), LOut::Err(q, m)) => {
            if kind_of(m) != "syntax error" {
                Err(format!("expected a syntax error, got {:?}", m))
            } else if ptr && p != q {
                Err(format!("syntax error expected at {}, reported at {}: {:?}", p, q, m))
            } else {
                Ok(())
            }
        }
        (Out::Val(p, s), LOut::Err(q, m)) => {
            if kind_of(m) != "validation error" {
                Err(format!("expected the validation error {:?}, got {:?}", s, m))
            } else if ptr && (p != q || !m.starts_with(&format!("{}\n", s))) {
                Err(format!("expected the validation error {:?} at {}, got {:?} at {}", s, p, m, q))
            } else {
                Ok(())
            }
        }
        (Out::Lex(p), LOut::Err(q, m)) => {
            if p != q || kind_of(m) != "syntax error" {
                Err(format!("tokenization fails at {}, reported {:?} at {}", p, m, q))
            } else {
                Ok(())
            }
        }
        (Out::Budget, _) => Ok(()),
    }
}

pub const KN: [&str; 19] = [
    "terminal", "reference", "optional", "optional hidden", "list", "separated list", "hidden", "node", "lookahead", "null", "end of file",
    "non-structural", "structural", "cached", "validated", "", "concatenation", "later alternative", "suffix",
];

pub struct Std<'a> {
    pub inputs: usize,
    pub ptr: bool,
    /// non-trivial input?
    pub nt: &'a dyn Fn(&Sys, &[u8], &[Lx], &Want) -> bool,
    /// further checks on one input
    pub extra: &'a dyn Fn(&Sys, &Par, &[u8], &[Lx], &Want, &LOut) -> Result<(), String>,
}
pub fn no_extra(_: &Sys, _: &Par, _: &[u8], _: &[Lx], _: &Want, _: &LOut) -> Result<(), String> {
    Ok(())
}
/// Accepted, at least two bytes or tokens consumed, at least three nodes, one construct of
/// `focus` succeeded.
pub fn rich(code: &[u8], toks: &[Lx], w: &Want, focus: u32) -> bool {
    match &w.out {
        Out::Ok(v, q) => {
            let units = if toks.is_empty() { *q.min(&code.len()) } else { toks.iter().filter(|l| structural(l.t) && l.e <= *q && l.t != EOF).count() };
            units >= 2 && count(v) >= 3 && (focus == 0 || w.hit & focus != 0)
        }
        _ => false,
    }
}
pub fn label(w: &Want, labels: &mut Vec<&'static str>) {
    labels.push(match w.out {
        Out::Ok(..) => "accepted",
        Out::Syn(_) => "syntax error",
        Out::Val(..) => "validation error",
        Out::Lex(_) => "tokenization error",
        Out::Budget => "discarded",
    });
    if let Out::Ok(..) = w.out {
        for (i, n) in KN.iter().enumerate() {
            if i >= K_NULLABLE && w.hit >> i & 1 == 1 {
                labels.push(n);
            }
        }
    }
}
pub fn std_case(t: &mut Tape, c: &Ctx, sys: &Sys, st: &Style, o: &Std) -> CaseResult {
    let p = sys.par(st)?;
    let mut labels = vec![match sys.src {
        Src::None => "lexerless",
        Src::Ref => "tokenized",
        Src::Lib => "library tokenizer",
    }];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..o.inputs {
        let code = sys.input(t);
        let (w, toks) = match sys.expect(&code) {
            Some(x) => x,
            None => continue,
        };
        label(&w, &mut labels);
        if w.out == Out::Budget {
            continue;
        }
        sys.allow(&w, &code);
        let got = p.parse(&code);
        if let Err(m) = agree(&w.out, &got, o.ptr).and_then(|_| (o.extra)(sys, &p, &code, &toks, &w, &got)) {
            return fail(m, sys.desc(&code));
        }
        if (o.nt)(sys, &code, &toks, &w) {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = format!("{}\n-> {:?}", sys.desc(&code), got);
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

fn focus_case(t: &mut Tape, c: &Ctx, cfg: Cfg, random: bool, focus: u32) -> CaseResult {
    let sys = Sys::new(t, cfg, random)?;
    std_case(t, c, &sys, &Style::default(), &Std { inputs: 6, ptr: false, nt: &|_, code, toks, w| rich(code, toks, w, focus), extra: &no_extra })
}

pub fn c08(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(false);
    cfg.w[K_CACHE] = 2;
    cfg.w[K_VALID] = 2;
    focus_case(t, c, cfg, false, 0)
}
pub fn c09(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(true);
    cfg.w[K_CACHE] = 2;
    cfg.w[K_VALID] = 2;
    if t.chance(1, 2) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 2;
    }
    focus_case(t, c, cfg, true, 0)
}
pub fn c10(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(3, 4));
    cfg.rw = [2, 6, 1];
    //       term ref nullable nullhid list sep hidden node look null eof nonstr struct cache valid
    cfg.w = [30, 20, 5, 3, 3, 2, 2, 4, 6, 3, 2, 0, 0, 0, 0];
    cfg.depth = 2;
    if cfg.tokenized {
        cfg.w[K_NONSTR] = 4;
        cfg.w[K_STRUCT] = 1;
    }
    focus_case(t, c, cfg, false, 1 << K_UNION)
}
pub fn c11(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.rw = [5, 3, 1];
    cfg.w = [30, 10, 4, 2, 12, 12, 2, 4, 1, 2, 2, 0, 0, 0, 0];
    if cfg.tokenized && t.chance(1, 3) {
        cfg.w[K_NONSTR] = 2;
        cfg.w[K_STRUCT] = 1;
    }
    focus_case(t, c, cfg, false, 1 << K_LIST | 1 << K_SEP)
}
pub fn c12(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.rw = [3, 1, 6];
    if cfg.tokenized && t.chance(1, 3) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 1;
    }
    focus_case(t, c, cfg, false, 1 << K_SUFFIX)
}
pub fn c13(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.w = [30, 10, 8, 8, 2, 2, 8, 8, 8, 4, 2, 0, 0, 0, 0];
    if t.chance(1, 4) {
        cfg.w[K_VALID] = 2;
    }
    focus_case(t, c, cfg, false, 1 << K_NULLABLE | 1 << K_NULLHID | 1 << K_HIDDEN | 1 << K_LOOK)
}

// ------------------------------------------------------------------ C14

fn nested(v: &[T], lo: usize, hi: usize, toks: Option<&[Lx]>, order: bool) -> Result<(), String> {
    let mut at = lo;
    for n in v {
        if n.s > n.e && order {
            return Err(format!("start after end: {:?}", n));
        }
        if order && (n.s < at || n.e > hi) {
            return Err(format!("overlaps a sibling, is out of order or leaves its parent ({}..{}): {:?}", lo, hi, n));
        }
        at = n.e;
        if let Some(k) = toks {
            match n.b {
                None => return Err(format!("no token range: {:?}", n)),
                Some((i, j)) => {
                    if (order && i > j) || i.max(j) >= k.len() {
                        return Err(format!("token range does not point at tokens: {:?}", n));
                    }
                    if k[i].s != n.s || k[j].s != n.e {
                        return Err(format!("token range and byte extent disagree: {:?}", n));
                    }
                }
            }
        }
        nested(&n.c, n.s, n.e, toks, order)?;
    }
    Ok(())
}
pub fn c14(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(2, 3));
    cfg.w = [30, 15, 5, 3, 6, 6, 3, 10, 4, 3, 2, 0, 0, 1, 0];
    cfg.rw = [4, 3, 3];
    let skipped = cfg.tokenized && t.chance(1, 3);
    if skipped {
        // only the token ranges are claimed with skipped-token constructs
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 1;
    }
    let sys = Sys::new(t, cfg, true)?;
    let p = sys.par(&Style::default())?;
    let mut nt = false;
    let mut desc = String::new();
    let mut labels = vec![];
    for _ in 0..6 {
        let code = sys.input(t);
        let (w, toks) = match sys.expect(&code) {
            Some(x) => x,
            None => continue,
        };
        label(&w, &mut labels);
        if w.out == Out::Budget {
            continue;
        }
        sys.allow(&w, &code);
        let got = p.parse(&code);
        if let LOut::Ok(v) = &got {
            let k = if sys.src == Src::None { None } else { Some(&toks[..]) };
            if let Err(m) = nested(v, 0, code.len(), k, !skipped) {
                return fail(m, format!("{}\ntree {:?}", sys.desc(&code), v));
            }
            if count(v) >= 4 && v.iter().any(|n| !n.c.is_empty()) {
                nt = true;
                if c.want_desc && desc.is_empty() {
                    desc = format!("{}\n-> {:?}", sys.desc(&code), v);
                }
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C15

pub fn c15(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.w[K_VALID] = 14;
    cfg.w[K_CACHE] = 6;
    cfg.w[K_LOOK] = 5;
    if cfg.tokenized && t.chance(1, 4) {
        cfg.w[K_NONSTR] = 2;
        cfg.w[K_STRUCT] = 1;
    }
    let sys = Sys::new(t, cfg, false)?;
    let rn = sys.g.nullability();
    // validators the pre-selection of alternatives may leave unasked
    let unsure: HashSet<usize> = if sys.g.tokenized {
        let ids = std::cell::RefCell::new(HashSet::new());
        sys.g.any(&|g| {
            if let G::Valid(x, f) = g {
                if x.nullable(&rn) {
                    ids.borrow_mut().insert(f.id);
                }
            }
            false
        });
        ids.into_inner()
    } else {
        HashSet::new()
    };
    let cached = sys.g.any(&|g| matches!(g, G::Cache(..)));
    let extra = |_: &Sys, _: &Par, _: &[u8], _: &[Lx], w: &Want, _: &LOut| -> Result<(), String> {
        let keep = |v: &[(usize, u64)]| -> Vec<(usize, u64)> { v.iter().filter(|(i, _)| !unsure.contains(i)).cloned().collect() };
        let lib = mk::CALLS.with(|c| keep(&c.borrow()));
        let want = keep(&w.calls);
        if !cached {
            if lib != want {
                return Err(format!("validation functions were called differently (function, digest of the nodes)\nexpected {:?}\ngot      {:?}", want, lib));
            }
        } else {
            let all: HashSet<_> = want.iter().collect();
            let mine: HashSet<_> = lib.iter().collect();
            if all != mine {
                return Err(format!("validation functions were called with other nodes\nexpected {:?}\ngot      {:?}", want, lib));
            }
        }
        Ok(())
    };
    std_case(
        t,
        c,
        &sys,
        &Style::default(),
        &Std {
            inputs: 6,
            ptr: true,
            nt: &|_, _, _, w| matches!(w.out, Out::Val(..)) && w.steps > 4 || w.val_unparsed && matches!(w.out, Out::Ok(..)),
            extra: &extra,
        },
    )
}

// ------------------------------------------------------------------ C16

pub fn ints(s: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut cur = None;
    for ch in s.chars() {
        match ch.to_digit(10) {
            Some(d) => cur = Some(cur.unwrap_or(0usize).saturating_mul(10).saturating_add(d as usize)),
            None => v.extend(cur.take()),
        }
    }
    v.extend(cur);
    v
}
/// Does the last line of a message name the line and column of `p`?
pub fn named(code: &[u8], p: usize, m: &str) -> Result<(), String> {
    let line = 1 + code[..p].iter().filter(|b| **b == b'\n').count();
    let col = 1 + p - code[..p].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let last = m.trim_end().rsplit('\n').next().unwrap_or("");
    if ints(last) != vec![line, col] {
        return Err(format!("the message does not name line {} column {}: {:?}", line, col, m));
    }
    Ok(())
}
/// Checks the text of a syntax error at `p`.
pub fn message(code: &[u8], toks: Option<&[Lx]>, p: usize, m: &str) -> Result<(), String> {
    if std::str::from_utf8(m.as_bytes()).is_err() {
        return Err("the message is not valid UTF-8".into());
    }
    named(code, p, m)?;
    let at_end = p == code.len();
    if m.to_lowercase().contains("end of file") != at_end {
        return Err(format!("the message must say end of file exactly at the end of the input: {:?}", m));
    }
    if !at_end {
        let s = match toks {
            None => {
                let rest = &code[p..];
                let n = (1..=rest.len().min(4)).find(|n| std::str::from_utf8(&rest[..*n]).is_ok());
                match n {
                    Some(n) => String::from_utf8(rest[..n].to_vec()).unwrap(),
                    None => "\u{fffd}".to_string(),
                }
            }
            Some(v) => {
                let l = v.iter().find(|l| structural(l.t) && l.s == p).ok_or_else(|| format!("no structural token starts at the pointer {}", p))?;
                String::from_utf8_lossy(&code[l.s..l.e]).to_string()
            }
        };
        let dbg = format!("{:?}", s);
        if !m.contains(&s) && !m.contains(&dbg[1..dbg.len() - 1]) {
            return Err(format!("the message does not quote {:?}: {:?}", s, m));
        }
    }
    Ok(())
}
pub fn c16(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.w[K_EOF] = if t.chance(1, 4) { 12 } else { 4 };
    cfg.w[K_CACHE] = 2;
    if cfg.tokenized && t.chance(1, 3) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 1;
    }
    let sys = Sys::new(t, cfg, false)?;
    let extra = |s: &Sys, _: &Par, code: &[u8], toks: &[Lx], w: &Want, g: &LOut| -> Result<(), String> {
        match (&w.out, g) {
            (Out::Syn(p), LOut::Err(_, m)) => message(code, if s.src == Src::None { None } else { Some(toks) }, *p, m),
            (Out::Lex(p), LOut::Err(_, m)) if s.src == Src::Lib => named(code, *p, m),
            _ => Ok(()),
        }
    };
    std_case(
        t,
        c,
        &sys,
        &Style::default(),
        &Std { inputs: 7, ptr: true, nt: &|_, code, _, w| matches!(w.out, Out::Syn(p) if p > 1 && p < code.len() && w.steps > 3), extra: &extra },
    )
}

// ------------------------------------------------------------------ C18

pub fn c18(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.no_repair = t.chance(2, 3);
    cfg.max_rules = 7;
    cfg.depth = 2;
    cfg.rw = [4, 3, 3];
    cfg.w = [22, 16, 4, 3, 3, 4, 3, 3, 4, 2, 1, 0, 0, 3, 2];
    if cfg.tokenized && t.chance(1, 2) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 1;
    }
    let g = gen(t, &cfg);
    // outside the property: what counts as consuming differs between the two contexts
    let rn: Vec<usize> = (0..g.rules.len()).filter(|i| g.raw[*i]).collect();
    let inner = |x: &G| matches!(x, G::NonStr(..));
    if rn.iter().any(|i| g.rules[*i].parts().iter().any(|p| p.any(&inner))) || g.any(&|x| if let G::NonStr(y, _) = x { y.any(&inner) } else { false }) {
        return Ok(Rep { labels: vec!["discarded"], ..Rep::default() });
    }
    let mut st = Style::default();
    let mut unset = vec![];
    if t.chance(1, 3) {
        for i in 0..g.rules.len() {
            if t.chance(1, 4) {
                unset.push(i);
            }
        }
    }
    st.unset = unset.clone();
    st.seed = t.below(1 << 16) as u64;
    st.direct = t.chance(1, 2);
    // reachable rules; an unset rule has no parts
    let mut seen = std::collections::BTreeSet::new();
    let mut stack = vec![0];
    while let Some(i) = stack.pop() {
        if seen.insert(i) && !unset.contains(&i) {
            let mut o = std::collections::BTreeSet::new();
            g.rules[i].parts().iter().for_each(|x| x.refs(&mut o));
            stack.extend(o);
        } else if unset.contains(&i) {
            if let Rule::Suffixes(l, ..) = &g.rules[i] {
                let mut o = std::collections::BTreeSet::new();
                l.refs(&mut o);
                stack.extend(o.into_iter().filter(|j| !seen.contains(j)));
            }
        }
    }
    let open = seen.iter().any(|i| unset.contains(i));
    let lrec = g.left_recursive(&seen);
    let ok = !open && !lrec;
    let tok: Option<DynTok> = if cfg.tokenized { Some(Rc::new(RefTok(s1()))) } else { None };
    let d = || format!("{} grammar:\n{}unset rules {:?}", if cfg.tokenized { "tokenized" } else { "lexerless" }, g.show(), unset);
    match try_par(&g, tok.as_ref(), &st) {
        Err(p) => return fail(format!("constructing a parser panicked: {}", p), d()),
        Ok(Ok(p)) => {
            if !ok {
                return fail(format!("the grammar was accepted (reachable unset rule: {}, left recursion: {})", open, lrec), d());
            }
            mk::budget(BUILD_STEPS, 20_000);
            let again = guard(|| match &p {
                Par::B(p, _) => p.validate().is_ok(),
                Par::T(p, _) => p.validate().is_ok(),
            });
            if again != Ok(true) {
                return fail(format!("validating again gave {:?}", again), d());
            }
        }
        Ok(Err(e)) => {
            if ok {
                return fail(format!("the grammar was rejected: {}", e), d());
            }
            let closure = g.left_closure();
            let guilty = |i: &usize| unset.contains(i) || closure[*i].contains(i);
            let says = |i: &usize| {
                let id = mk::RULE_IDS[*i];
                e.match_indices(id).any(|(k, _)| !e[k + id.len()..].starts_with(|ch: char| ch.is_ascii_digit()))
            };
            if !seen.iter().any(|i| guilty(i) && says(i)) {
                return fail(format!("the refusal names no rule that is left-recursive or unfinished: {}", e), d());
            }
        }
    }
    let mut labels = vec![if ok { "accepted" } else { "rejected" }];
    if open {
        labels.push("reachable unset rule");
    }
    if lrec {
        labels.push("left recursion");
    }
    if ok && !unset.is_empty() {
        labels.push("unreachable unset rule");
    }
    Ok(Rep { nontrivial: seen.len() >= 2, labels, desc: if c.want_desc { format!("{}\n-> {}", d(), if ok { "accepted" } else { "rejected" }) } else { String::new() }, digest: String::new() })
}

// ------------------------------------------------------------------ C19

pub fn c19(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.w[K_CACHE] = 14;
    cfg.w[K_REF] = 24;
    cfg.w[K_VALID] = 3;
    cfg.rw = [4, 5, 3];
    if cfg.tokenized && t.chance(1, 3) {
        cfg.w[K_NONSTR] = 2;
        cfg.w[K_STRUCT] = 1;
    }
    let sys = Sys::new(t, cfg, false)?;
    let cached = sys.par(&Style::default())?;
    let plain = sys.par(&Style { drop_cache: true, ..Style::default() })?;
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..6 {
        let code = sys.input(t);
        let (w, _) = match sys.expect(&code) {
            Some(x) => x,
            None => continue,
        };
        label(&w, &mut labels);
        if w.out == Out::Budget {
            continue;
        }
        sys.allow(&w, &code);
        let a = cached.parse(&code);
        let ev = mk::EVALS.with(|e| e.borrow().clone());
        sys.allow(&w, &code);
        let b = plain.parse(&code);
        if a != b {
            return fail("the cached and the uncached grammar give different outcomes", format!("{}\ncached   {:?}\nuncached {:?}", sys.desc(&code), a, b));
        }
        if let LOut::Panic(p) = &a {
            return fail(format!("panic: {}", p), sys.desc(&code));
        }
        let mut set = HashSet::new();
        for e in &ev {
            if !set.insert(*e) {
                return fail(format!("cached production #{} was evaluated twice at position {} within one parse", e.0, e.1), sys.desc(&code));
            }
        }
        // used again at the same place by the uncached semantics?
        let mut seen = HashSet::new();
        let reuse = w.pos_calls.iter().any(|x| !seen.insert(*x));
        if reuse {
            labels.push("cache hit");
        }
        if reuse && w.steps > 5 {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = format!("{}\n-> {:?}", sys.desc(&code), a);
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C20

/// (value, first structural index, end structural index, is the end the end of that token?)
fn shape(v: &[T], toks: &[Lx], fl: &[usize]) -> Result<Vec<String>, String> {
    let mut out = vec![];
    for n in v {
        let (i, j) = n.b.ok_or("no token range")?;
        let si = fl.iter().position(|x| *x == i).ok_or_else(|| format!("node does not start at a structural token: {:?}", n))?;
        if toks[i].s != n.s {
            return Err(format!("node does not start where its first token starts: {:?}", n));
        }
        let sj = fl.iter().filter(|x| **x < j).count();
        // distance of the end from the end of the last structural token before it
        let last_end = if sj > 0 { toks[fl[sj - 1]].e } else { 0 };
        let tight = n.e == last_end;
        let at_next = sj < fl.len() && n.e == toks[fl[sj]].s;
        if !tight && !at_next {
            return Err(format!("node ends neither with a structural token nor where one starts: {:?}", n));
        }
        out.push(format!("N{} {}-{}({})", n.n, si, sj, shape(&n.c, toks, fl)?.join(" ")));
    }
    Ok(out)
}
pub fn c20(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(true);
    cfg.w[K_CACHE] = 2;
    cfg.trivia = vec![3, 7];
    let sys = Sys::new(t, cfg, false)?;
    let p = sys.par(&Style::default())?;
    let spec = sys.spec.clone().unwrap();
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..5 {
        let items: Vec<u8> = gen_items(t, &sys.g, &sys.cfg, 0)
            .iter()
            .filter_map(|i| match i {
                Item::Tok(k) if structural(*k) => Some(*k),
                _ => None,
            })
            .collect();
        // one spelling per structural token, two fillings
        let words: Vec<Vec<u8>> = items
            .iter()
            .map(|k| {
                let mut b = vec![];
                s1_spell(t, *k, &mut b);
                b
            })
            .collect();
        let fill = |t: &mut Tape, num: usize| -> Vec<u8> {
            let mut o = vec![];
            for i in 0..=words.len() {
                while t.chance(num, 4) && o.len() < 400 {
                    let k = *t.pick(&[3u8, 7]);
                    s1_spell(t, k, &mut o);
                }
                if i < words.len() {
                    o.extend_from_slice(&words[i]);
                }
            }
            o
        };
        let na = t.below(2);
        let a = fill(t, na);
        let nb = 1 + t.below(2);
        let b = fill(t, nb);
        let (ta, tb) = match (spec.tokenize(&a), spec.tokenize(&b)) {
            (Ok(x), Ok(y)) => (x, y),
            _ => continue,
        };
        let st = |v: &[Lx], code: &[u8]| -> Vec<(u8, Vec<u8>)> { v.iter().filter(|l| structural(l.t)).map(|l| (l.t, code[l.s..l.e].to_vec())).collect() };
        if st(&ta, &a) != st(&tb, &b) {
            labels.push("discarded");
            continue;
        }
        let mut e = Env::new(&sys.g, &a, &ta, LIMIT);
        let out = e.parse(0, Mode::Fltr, 0);
        if out == Out::Budget {
            labels.push("discarded");
            continue;
        }
        let w = Want { out, steps: e.steps, depth: e.max_depth, hit: e.hit, calls: vec![], pos_calls: vec![], val_unparsed: false };
        let idx = |v: &[Lx]| -> Vec<usize> { (0..v.len()).filter(|i| structural(v[*i].t)).collect() };
        let d = |x: &LOut, y: &LOut| format!("{}\nsame structural tokens: {}\nfirst  {:?}\nsecond {:?}", sys.desc(&a), show_bytes(&b), x, y);
        sys.allow(&w, &a);
        let x = p.parse(&a);
        sys.allow(&w, &b);
        let y = p.parse(&b);
        label(&w, &mut labels);
        match (&x, &y) {
            (LOut::Ok(u), LOut::Ok(v)) => {
                let sx = shape(u, &ta, &idx(&ta));
                let sy = shape(v, &tb, &idx(&tb));
                match (&sx, &sy) {
                    (Ok(l), Ok(r)) if l == r => {}
                    _ => return fail(format!("skipped tokens changed the tree\n{:?}\n{:?}", sx, sy), d(&x, &y)),
                }
                if count(u) >= 3 && ta.len() != tb.len() {
                    nt = true;
                    if c.want_desc && desc.is_empty() {
                        desc = format!("{}\nand {}\n-> {:?}", sys.desc(&a), show_bytes(&b), sx);
                    }
                }
            }
            (LOut::Err(pa, ma), LOut::Err(pb, mb)) => {
                let ka = idx(&ta).iter().position(|i| ta[*i].s == *pa);
                let kb = idx(&tb).iter().position(|i| tb[*i].s == *pb);
                if ka.is_none() || ka != kb || kind_of(ma) != kind_of(mb) {
                    return fail("skipped tokens changed the error", d(&x, &y));
                }
            }
            _ => return fail("skipped tokens changed acceptance", d(&x, &y)),
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C21

pub fn c21(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(true);
    cfg.w = [30, 12, 5, 3, 6, 3, 2, 6, 3, 2, 2, 14, 6, 0, 0];
    cfg.rw = [5, 4, 3];
    cfg.mixed_raw = t.chance(1, 4);
    if t.chance(1, 5) {
        cfg.w[K_VALID] = 2;
    }
    let random = t.chance(1, 6);
    let sys = Sys::new(t, cfg, random)?;
    std_case(
        t,
        c,
        &sys,
        &Style::default(),
        &Std { inputs: 7, ptr: false, nt: &|_, code, toks, w| rich(code, toks, w, 1 << K_NONSTR) && toks.iter().any(|l| !structural(l.t)), extra: &no_extra },
    )
}

// ------------------------------------------------------------------ C22

fn run_full(p: &Par, op: usize, code: &[u8]) -> String {
    // one operation, printed completely
    let r = guard(|| match p {
        Par::B(q, _) => match op {
            4 => format!("{:?}", q.grammar()),
            5 => format!("{:?}", q.validate().is_ok()),
            _ => format!("{:?}", lres(Ok(q.parse(code)))),
        },
        Par::T(q, _) => match op {
            1 => {
                let c = Code::new(code);
                format!("{:?}", q.tokenize(&c).map(|v| lxs(&v)).map_err(|e| (e.pointer, e.message)))
            }
            2 => format!(
                "{:?}",
                q.tokenize_n_parse(code).map(|(l, v)| (lxs(&l), from_asts(&v))).map_err(|e| (e.pointer, e.message))
            ),
            3 => {
                let c = Code::new(code);
                match q.tokenize(&c) {
                    Ok(v) => format!("{:?}", lres(Ok(q.parse_stream(&c, TokenStream::from(&v))))),
                    Err(e) => format!("{:?}", (e.pointer, e.message)),
                }
            }
            4 => format!("{:?}", q.grammar()),
            5 => format!("{:?}", q.validate().is_ok()),
            _ => format!("{:?}", lres(Ok(q.parse(code)))),
        },
    });
    r.unwrap_or_else(|p| format!("panic: {}", p))
}
#[cfg(debug_assertions)]
pub fn debug_at(p: &Par, name: &str, code: &[u8], at: usize) -> LOut {
    lres(guard(|| match p {
        Par::B(q, _) => q.debug_parser_at(name, code, at),
        Par::T(q, _) => q.debug_production_at(name, code, at),
    }))
}
#[cfg(not(debug_assertions))]
pub fn debug_at(_: &Par, _: &str, _: &[u8], _: usize) -> LOut {
    LOut::Ok(vec![])
}
pub fn register(p: &mut Par, n: usize) {
    for i in 0..n {
        match p {
            Par::B(q, b) => q.add_debug_production(mk::RULE_IDS[i], &b.counted(i)),
            Par::T(q, b) => q.add_debug_production(mk::RULE_IDS[i], &b.counted(i)),
        }
    }
}

/// One operation of a history.
struct Todo {
    op: usize,
    rule: usize,
    at: usize,
    steps: usize,
    depth: usize,
    dsteps: usize,
    code: Vec<u8>,
}
impl Todo {
    fn run(&self, p: &Par, code: &[u8]) -> String {
        lex_budget(4000 * (code.len() + 2));
        mk::budget(50 * self.steps + 400_000, self.depth * 4 + 2000);
        if self.op == 6 {
            mk::budget(self.dsteps + 400_000, 20_000);
            format!("{:?}", debug_at(p, mk::RULE_IDS[self.rule], code, self.at))
        } else {
            run_full(p, self.op, code)
        }
    }
}

pub fn c22(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(2, 3));
    cfg.w[K_CACHE] = 6;
    cfg.w[K_VALID] = 3;
    cfg.rw = [4, 4, 3];
    if cfg.tokenized && t.chance(1, 3) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 1;
    }
    let sys = Sys::new(t, cfg, true)?;
    let n = sys.g.rules.len();
    let fresh = || -> Result<Par, Fail> {
        let mut p = sys.par(&Style::default())?;
        register(&mut p, n);
        Ok(p)
    };
    let used = fresh()?;
    let mut pool: Vec<(Vec<u8>, usize, usize)> = vec![];
    for _ in 0..4 {
        let code = sys.input(t);
        if let Some((w, _)) = sys.expect(&code) {
            if w.out != Out::Budget {
                pool.push((code, w.steps, w.depth));
            }
        }
    }
    // texts that differ from another one in a few bytes only
    for _ in 0..3 {
        if pool.is_empty() {
            break;
        }
        let mut code = t.pick(&pool).0.clone();
        let other = t.pick(&pool).0.clone();
        if code.is_empty() {
            continue;
        }
        let i = t.below(code.len());
        match t.below(4) {
            0 => code.truncate(i),
            1 if i < other.len() => code[i] = other[i],
            2 => {
                code.truncate(i);
                code.extend_from_slice(&other[i.min(other.len())..]);
            }
            _ => code[i] = *t.pick(&other.iter().chain(b"ab+").copied().collect::<Vec<_>>()),
        }
        if let Some((w, _)) = sys.expect(&code) {
            if w.out != Out::Budget {
                pool.push((code, w.steps, w.depth));
            }
        }
    }
    if pool.is_empty() {
        return Ok(Rep { labels: vec!["discarded"], ..Rep::default() });
    }
    // every text given to the used parser lies at the same place in memory
    let mut shared: Vec<u8> = Vec::with_capacity(pool.iter().map(|p| p.0.len()).max().unwrap() + 1);
    let in_place = t.chance(3, 4);
    let mut log = String::new();
    let mut distinct = HashSet::new();
    let mut fails = 0;
    let mut answers = vec![];
    let nops = t.range(2, 9);
    for k in 0..nops {
        let op = t.weighted(&[6, 1, 1, 1, 1, 1, 2]);
        let (code, steps, depth) = t.pick(&pool).clone();
        let (rule, at) = (t.below(n), t.below(code.len() + 1));
        let mut dsteps = 0;
        if op == 6 {
            if !cfg!(debug_assertions) {
                continue;
            }
            // skip starts the reference cannot decide quickly
            match debug_want(&sys, rule, &code, at) {
                Some((w, _)) if w.out != Out::Budget => dsteps = 50 * w.steps,
                _ => continue,
            }
        }
        // the whole history first: what the library keeps outside the parser stays as it is
        shared.clear();
        shared.extend_from_slice(&code);
        let todo = Todo { op, rule, at, steps, depth, dsteps, code };
        let a = todo.run(&used, if in_place { &shared } else { &todo.code });
        let name = ["parse", "tokenize", "tokenize_n_parse", "parse_stream", "grammar", "validate", "debug parse"][op];
        log.push_str(&format!("{}. {} {} {}\n", k + 1, name, show_bytes(&todo.code), if op == 6 { format!("R{} at {}", rule, at) } else { String::new() }));
        if a.starts_with("panic") || a.starts_with("Panic") {
            return fail(format!("panic in {}: {}", name, a), format!("{}\nhistory:\n{}", sys.desc(&todo.code), log));
        }
        if a.contains("Err") {
            fails += 1;
        }
        answers.push((todo, a));
    }
    for (k, (todo, a)) in answers.into_iter().enumerate() {
        let b = todo.run(&fresh()?, &todo.code);
        if a != b {
            return fail("a used parser answers differently from a fresh one", format!("{}\nhistory:\n{}answer {}\nused  {}\nfresh {}", sys.desc(&todo.code), log, k + 1, a, b));
        }
        if todo.op == 0 || todo.op == 3 {
            // not the reference's answer either: something outside the parsers was left over
            if let Some((w, _)) = sys.expect(&todo.code) {
                let ok = match &w.out {
                    Out::Ok(v, _) => a == format!("{:?}", LOut::Ok(v.clone())),
                    Out::Budget => true,
                    Out::Lex(_) => a.starts_with("Err(") || a.starts_with('('),
                    _ => a.starts_with("Err("),
                };
                if !ok {
                    return fail("the answer is not the prescribed one", format!("{}\nhistory:\n{}answer {}\ngot {}\nexpected {:?}", sys.desc(&todo.code), log, k + 1, a, w.out));
                }
            }
        }
        distinct.insert(a);
    }
    let nt = distinct.len() >= 3;
    let mut labels = vec![];
    if fails > 0 {
        labels.push("with failures");
    }
    Ok(Rep { nontrivial: nt, labels, desc: if c.want_desc { format!("{}history:\n{}", sys.g.show(), log) } else { String::new() }, digest: String::new() })
}

// ------------------------------------------------------------------ C23

/// Tokenizers with states, decorators and logs.
fn c23_tok(t: &mut Tape, c: &Ctx) -> CaseResult {
    let cfg = LCfg { states: t.range(1, 3), state_actions: true, ..LCfg::default() };
    let spec = gen_spec(t, &cfg);
    let seed = t.below(1 << 16) as u64;
    let two = guard(|| Ok::<_, String>((build_tok(&spec, LStyle::default())?, build_tok(&spec, LStyle { seed, shorthand: t.chance(1, 2), logs: true })?)));
    let (a, b) = match two {
        Ok(Ok(x)) => x,
        o => return fail(format!("building failed: {:?}", o.map(|r| r.err())), spec.show()),
    };
    let mut digest = String::new();
    let mut desc = String::new();
    let mut nt = false;
    for _ in 0..5 {
        let code = gen_input(t, &spec, 12);
        lex_budget(400 * (code.len() + 2));
        let x = lib_tok(&a, &code);
        lex_budget(400 * (code.len() + 2));
        let y = lib_tok(&b, &code);
        if x != y {
            return fail("logs on lexemes or the tokenizer changed the tokens", format!("{}input {}\nwithout {:?}\nwith    {:?}", spec.show(), show_bytes(&code), x, y));
        }
        digest.push_str(&match &x {
            Ok(r) => format!("{:?};", r),
            Err(_) => "panic;".to_string(),
        });
        if matches!(&x, Ok(Ok(v)) if v.len() > 3) {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = format!("{}input {}\n-> {:?}", spec.show(), show_bytes(&code), x);
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels: vec!["tokenizer only"], desc, digest })
}

pub fn c23(t: &mut Tape, c: &Ctx) -> CaseResult {
    match t.below(40) {
        0..=7 => return c23_tok(t, c),
        8 => {
            // the shipped parsers
            let docs = (0..4).map(|i| crate::p_json::input(t, i % 2 == 1)).collect::<Vec<_>>();
            let mut digest = String::new();
            for d in &docs {
                digest.push_str(&crate::p_json::outcome(d));
            }
            return Ok(Rep { nontrivial: true, labels: vec!["shipped JSON parsers"], desc: format!("{:?}", docs.iter().map(|d| show_bytes(d)).collect::<Vec<_>>()), digest });
        }
        _ => {}
    }
    let mut cfg = Cfg::new(t.chance(2, 3));
    cfg.w[K_CACHE] = 3;
    cfg.w[K_VALID] = 3;
    if cfg.tokenized && t.chance(1, 3) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 1;
    }
    let mut sys = Sys::new(t, cfg, true)?;
    let seed = t.below(1 << 16) as u64;
    // the logged side has logs on productions, lexemes and the tokenizer
    let quiet = sys.par(&Style::default())?;
    let quiet_tok = sys.tok.clone();
    if sys.src == Src::Lib {
        let spec = sys.spec.clone().unwrap();
        sys.tok = match guard(|| build_tok(&spec, LStyle { seed, shorthand: false, logs: true })) {
            Ok(Ok(t)) => Some(t),
            o => return fail(format!("building with logs failed: {:?}", o.map(|r| r.err())), spec.show()),
        };
    }
    let loud = sys.par(&Style { logs: true, seed, ..Style::default() })?;
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    let mut digest = String::new();
    for _ in 0..5 {
        let code = sys.input(t);
        let (w, toks) = match sys.expect(&code) {
            Some(x) => x,
            None => {
                // malformed tokens: still an outcome to compare between builds
                digest.push_str("malformed;");
                continue;
            }
        };
        label(&w, &mut labels);
        if w.out == Out::Budget {
            continue;
        }
        if sys.src == Src::Lib {
            let a = lib_tok(quiet_tok.as_ref().unwrap(), &code);
            let b = lib_tok(sys.tok.as_ref().unwrap(), &code);
            if a != b {
                return fail("logs on lexemes or the tokenizer changed the tokens", format!("{}\nwithout {:?}\nwith    {:?}", sys.desc(&code), a, b));
            }
            digest.push_str(&format!("{:?};", a));
        }
        sys.allow(&w, &code);
        let a = quiet.parse(&code);
        sys.allow(&w, &code);
        let b = loud.parse(&code);
        if a != b {
            return fail("logs changed the outcome", format!("{}\nwithout {:?}\nwith    {:?}", sys.desc(&code), a, b));
        }
        match &a {
            LOut::Ok(v) => digest.push_str(&format!("ok {:?};", v)),
            // the position is part of the message in both builds
            LOut::Err(p, m) => digest.push_str(&format!("{} at {} {:?};", kind_of(m), p, m.trim_end().lines().last())),
            LOut::Panic(_) => digest.push_str("panic;"),
        }
        if rich(&code, &toks, &w, 0) || matches!(w.out, Out::Syn(p) if p > 1) {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = format!("{}\n-> {:?}", sys.desc(&code), a);
            }
        }
    }
    if c.want_desc {
        desc.push_str(&format!("\noutcomes {}", digest));
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest })
}

// ------------------------------------------------------------------ C26

const PF: [(u8, &str); 6] = [(0, "a"), (1, "bc"), (2, "+"), (4, "=="), (6, "é"), (8, "d\n")];
fn pf_spec() -> LexSpec {
    LexSpec { states: vec![(0, vec![LexS::Punct(PF.iter().map(|(k, s)| (s.to_string(), *k)).collect())])], plain: true }
}
fn pf(k: u8) -> String {
    PF.iter().find(|(x, _)| *x == k).unwrap().1.to_string()
}
fn to_bytes(g: &G, punct: bool) -> G {
    let b = |x: &G| Box::new(to_bytes(x, punct));
    match g {
        G::Tok(k, v) => G::Str(pf(*k), *v),
        G::TokSet(v, _) => {
            let s = v.iter().map(|(k, x)| (pf(*k), *x)).collect();
            if punct {
                G::Punct(s)
            } else {
                G::StrSet(s)
            }
        }
        G::Nullable(x) => G::Nullable(b(x)),
        G::NullHid(x) => G::NullHid(b(x)),
        G::List(x) => G::List(b(x)),
        G::Sep(x, y, i) => G::Sep(b(x), b(y), *i),
        G::Hidden(x) => G::Hidden(b(x)),
        G::Node(x, n) => G::Node(b(x), *n),
        G::Look(x, n) => G::Look(b(x), *n),
        G::Cache(x, n) => G::Cache(b(x), *n),
        G::Valid(x, f) => G::Valid(b(x), f.clone()),
        o => o.clone(),
    }
}
fn strip(v: &[T]) -> Vec<T> {
    v.iter().map(|n| T { b: None, c: strip(&n.c), ..n.clone() }).collect()
}
pub fn c26(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(true);
    cfg.trivia = vec![];
    cfg.toks = PF.iter().map(|x| x.0).collect();
    cfg.w[K_CACHE] = 2;
    cfg.w[K_VALID] = 2;
    let mut g = gen(t, &cfg);
    soften(&mut g);
    let lib = t.chance(1, 2);
    let tok: DynTok = if lib {
        match guard(|| build_tok(&pf_spec(), LStyle::default())) {
            Ok(Ok(t)) => t,
            o => return fail(format!("building the tokenizer failed: {:?}", o.map(|r| r.err())), pf_spec().show()),
        }
    } else {
        Rc::new(RefTok(pf_spec()))
    };
    let punct = t.chance(1, 2);
    let gb = Gram {
        rules: g
            .rules
            .iter()
            .map(|r| match r {
                Rule::Concat(v) => Rule::Concat(v.iter().map(|x| to_bytes(x, punct)).collect()),
                Rule::Union(v) => Rule::Union(v.iter().map(|x| to_bytes(x, punct)).collect()),
                Rule::Suffixes(l, s, v) => Rule::Suffixes(to_bytes(l, punct), *s, v.iter().map(|(x, n)| (to_bytes(x, punct), *n)).collect()),
            })
            .collect(),
        raw: g.raw.clone(),
        tokenized: false,
    };
    let pt = par(&g, Some(&tok), &Style::default())?;
    let pb = par(&gb, None, &Style::default())?;
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..6 {
        let mut code = vec![];
        for i in gen_items(t, &g, &cfg, 0) {
            if let Item::Tok(k) = i {
                code.extend_from_slice(pf(k).as_bytes());
            }
        }
        let mut e = Env::new(&gb, &code, &[], LIMIT);
        let out = e.parse(0, Mode::Byte, 0);
        let w = Want { out, steps: e.steps, depth: e.max_depth, hit: e.hit, calls: vec![], pos_calls: vec![], val_unparsed: false };
        label(&w, &mut labels);
        if w.out == Out::Budget {
            continue;
        }
        let allow = || {
            lex_budget(400 * (code.len() + 2));
            mk::budget(50 * w.steps + 200_000, w.depth * 4 + 2000)
        };
        allow();
        let x = pt.parse(&code);
        allow();
        let y = pb.parse(&code);
        let d = || format!("{}input {}\ntokenized {:?}\nlexerless {:?}", g.show(), show_bytes(&code), x, y);
        match (&x, &y) {
            (LOut::Ok(u), LOut::Ok(v)) => {
                if strip(u) != *v {
                    return fail("the tokenized and the lexerless parser return different trees", d());
                }
            }
            (LOut::Err(_, m), LOut::Err(_, n)) => {
                if kind_of(m) != kind_of(n) {
                    return fail("the tokenized and the lexerless parser fail in different ways", d());
                }
            }
            _ => return fail("the tokenized and the lexerless parser accept different inputs", d()),
        }
        if rich(&code, &[], &w, 0) {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = d();
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C27

/// What parsing rule `i` at byte offset `at` gives.
fn debug_want(sys: &Sys, i: usize, code: &[u8], at: usize) -> Option<(Want, Vec<Lx>)> {
    let toks = match sys.tokens(code)? {
        Ok(v) => v,
        Err(p) => return Some((Want { out: Out::Lex(p), steps: 0, depth: 0, hit: 0, calls: vec![], pos_calls: vec![], val_unparsed: false }, vec![])),
    };
    if sys.src == Src::None {
        return Some((sys.want(code, &toks, i, at, at), toks));
    }
    let fl: Vec<usize> = (0..toks.len()).filter(|i| structural(toks[*i].t)).collect();
    let p = fl.iter().position(|i| toks[*i].s >= at)?;
    Some((sys.want(code, &toks, i, p, at), toks))
}
pub fn c27(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.w[K_CACHE] = 4;
    cfg.w[K_VALID] = 2;
    if cfg.tokenized && t.chance(1, 3) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 1;
    }
    let sys = Sys::new(t, cfg, false)?;
    let n = sys.g.rules.len();
    let mut p = sys.par(&Style::default())?;
    let registered = if n > 1 && t.chance(1, 3) { n - 1 } else { n };
    register(&mut p, registered);
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..5 {
        // something derived from the rule, behind arbitrary text
        let rule = t.below(n);
        let pre = if t.chance(1, 2) { sys.input(t) } else { vec![] };
        let items = gen_items(t, &sys.g, &sys.cfg, rule);
        let mut code = pre.clone();
        let tail = sys.spell(t, &items);
        code.extend_from_slice(&tail);
        for k in 0..3 {
            let at = if k == 0 { pre.len() } else { t.below(code.len() + 1) };
            let (w, toks) = match debug_want(&sys, rule, &code, at) {
                Some(x) => x,
                None => continue,
            };
            label(&w, &mut labels);
            if w.out == Out::Budget {
                continue;
            }
            sys.allow(&w, &code);
            let got = debug_at(&p, mk::RULE_IDS[rule], &code, at);
            let d = || format!("{}\nrule R{} at offset {}, {} rules registered\ngot {:?}", sys.desc(&code), rule, at, registered, got);
            if rule >= registered {
                if cfg!(debug_assertions) {
                    match &got {
                        LOut::Err(q, m) => {
                            if *q > code.len() || !m.contains(mk::RULE_IDS[rule]) {
                                return fail("the error for an unregistered production does not name it or points outside the text", d());
                            }
                        }
                        _ => return fail("an unregistered production was not reported as an error", d()),
                    }
                }
                labels.push("unregistered");
                continue;
            }
            if cfg!(debug_assertions) {
                if let Err(m) = agree(&w.out, &got, true) {
                    return fail(m, d());
                }
            }
            let ok = match &w.out {
                Out::Ok(v, q) => *q > at && count(v) >= 2,
                Out::Syn(q) => *q > at,
                _ => false,
            };
            let _ = toks;
            if ok && at > 0 {
                nt = true;
                if c.want_desc && desc.is_empty() {
                    desc = d();
                }
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C31

pub fn c31(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(2, 3));
    cfg.w[K_CACHE] = 2;
    cfg.w[K_VALID] = 4;
    cfg.rw = [4, 3, 4];
    cfg.w[K_NULLHID] = 5;
    cfg.w[K_LOOK] = 5;
    cfg.w[K_SEP] = 6;
    if cfg.tokenized && t.chance(1, 3) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 1;
    }
    let mut sys = Sys::new(t, cfg, true)?;
    let seed = t.below(1 << 16) as u64;
    let a = sys.par(&Style::default())?;
    let plain_tok = sys.tok.clone();
    if sys.src == Src::Lib {
        let spec = sys.spec.clone().unwrap();
        sys.tok = match guard(|| build_tok(&spec, LStyle { seed, shorthand: true, logs: false })) {
            Ok(Ok(t)) => Some(t),
            o => return fail(format!("building with the shorthands failed: {:?}", o.map(|r| r.err())), spec.show()),
        };
    }
    let b = sys.par(&Style { seed, shorthand: true, direct: true, second_assign: true, share: Some(seed & 8 == 0), ..Style::default() })?;
    let odd = match (&a, &b) {
        (Par::B(_, x), Par::B(_, y)) => x.odd.clone().or(y.odd.clone()),
        (Par::T(_, x), Par::T(_, y)) => x.odd.clone().or(y.odd.clone()),
        _ => None,
    };
    if let Some(o) = odd {
        return fail(o, sys.g.show());
    }
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..6 {
        let code = sys.input(t);
        let (w, toks) = match sys.expect(&code) {
            Some(x) => x,
            None => continue,
        };
        label(&w, &mut labels);
        if w.out == Out::Budget {
            continue;
        }
        if sys.src == Src::Lib {
            let x = lib_tok(plain_tok.as_ref().unwrap(), &code);
            let y = lib_tok(sys.tok.as_ref().unwrap(), &code);
            if x != y {
                return fail("lexeme shorthands give different tokens", format!("{}\ndirect    {:?}\nshorthand {:?}", sys.desc(&code), x, y));
            }
        }
        sys.allow(&w, &code);
        let x = a.parse(&code);
        let cx = mk::CALLS.with(|c| c.borrow().clone());
        sys.allow(&w, &code);
        let y = b.parse(&code);
        let cy = mk::CALLS.with(|c| c.borrow().clone());
        if x != y || cx != cy {
            return fail(
                "building with shorthands, deferred or repeated definitions changed the outcome",
                format!("{}\ndirect {:?}\nother  {:?}\ncalls {:?} / {:?}", sys.desc(&code), x, y, cx, cy),
            );
        }
        if rich(&code, &toks, &w, 0) || matches!(w.out, Out::Syn(p) if p > 2) {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = format!("{}\n-> {:?}", sys.desc(&code), x);
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C32

fn parse_given(p: &Par, code: &[u8], toks: &[Lx], idx: &[usize], route: usize) -> LOut {
    let q = match p {
        Par::T(q, _) => q,
        _ => unreachable!(),
    };
    let lib = to_lib(toks);
    lres(guard(|| {
        let c = Code::new(code);
        match route {
            0 => q.parse_stream(&c, TokenStream::new(&lib, idx.iter().map(|i| TokenPtr::default() + *i).collect())),
            1 => q.parse_stream(&c, TokenStream::from(&lib)),
            _ => q.parse(code),
        }
    }))
}
fn consumed(toks: &[Lx], fl: &[usize], q: usize) -> usize {
    fl.iter().filter(|i| toks[**i].t != EOF && toks[**i].e <= q).count()
}

/// Token lists and selections supplied by the caller.
pub fn c32(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(true);
    cfg.w[K_VALID] = 2;
    if t.chance(1, 2) {
        cfg.w[K_NONSTR] = 4;
        cfg.w[K_STRUCT] = 2;
    }
    let mut sys = Sys::new(t, cfg, false)?;
    sys.src = Src::Ref;
    // kinds are renamed at random, so that the caller's choice is not the default one
    let mut perm: Vec<u8> = (0..9).collect();
    let renamed = t.chance(2, 3);
    if renamed {
        for i in (1..9).rev() {
            let j = t.below(i + 1);
            if perm[i] != EOF && perm[j] != EOF {
                perm.swap(i, j);
            }
        }
    }
    let shown: Vec<Vec<u8>> = (0..6).map(|_| sys.input(t)).collect();
    let plain = sys.g.clone();
    let f = |k: u8| *perm.get(k as usize).unwrap_or(&k);
    sys.g.rules.iter_mut().for_each(|r| r.rename(&f));
    let grammar = std::mem::replace(&mut sys.g, plain);
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    let b = par(&grammar, Some(&(Rc::new(FixedTok(vec![])) as DynTok)), &Style::default())?;
    for code in shown {
        let mut toks = match sys.spec.as_ref().unwrap().tokenize(&code) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let mut pick: Vec<bool> = toks.iter().map(|l| structural(l.t)).collect();
        toks.iter_mut().for_each(|l| l.t = f(l.t));
        // deviations: other kinds, other choices, missing tokens, gaps around tokens
        let k = t.weighted(&[3, 2, 1]) * 2;
        let mut gaps = false;
        for _ in 0..k {
            let i = t.below(toks.len());
            if toks[i].t == EOF {
                continue;
            }
            match t.below(5) {
                0 => toks[i].t = *t.pick(&[0u8, 1, 2, 3, 4, 6, 7, 8]),
                1 => pick[i] = !pick[i],
                2 => {
                    toks.remove(i);
                    pick.remove(i);
                    gaps = true;
                }
                3 if toks[i].e - toks[i].s > 1 => {
                    toks[i].s += 1;
                    gaps = true;
                }
                _ if toks[i].e - toks[i].s > 1 => {
                    toks[i].e -= 1;
                    gaps = true;
                }
                _ => {
                    // two neighbours become one
                    if i + 1 < toks.len() && toks[i + 1].t != EOF {
                        toks[i].e = toks[i + 1].e;
                        toks.remove(i + 1);
                        pick.remove(i + 1);
                    }
                }
            }
        }
        let chosen: Vec<usize> = (0..toks.len()).filter(|i| pick[*i]).collect();
        let usual: Vec<usize> = (0..toks.len()).filter(|i| structural(toks[*i].t)).collect();
        for route in 0..3 {
            let fl = if route == 0 { &chosen } else { &usual };
            let mut e = Env::new(&grammar, &code, &toks, LIMIT.max(200 * code.len()));
            e.fl = fl.clone();
            let out = e.parse(0, Mode::Fltr, 0);
            let w = Want { out, steps: e.steps, depth: e.max_depth, hit: e.hit, calls: e.calls, pos_calls: e.pos_calls, val_unparsed: e.unparsed_by_valid };
            if w.out == Out::Budget {
                continue;
            }
            let own;
            let q = if route == 2 {
                own = par(&grammar, Some(&(Rc::new(FixedTok(toks.clone())) as DynTok)), &Style::default())?;
                &own
            } else {
                &b
            };
            sys.allow(&w, &code);
            let got = parse_given(q, &code, &toks, fl, route);
            let show = || {
                format!(
                    "grammar:\n{}source {}\ntokens {}\nstructural {:?} ({})",
                    grammar.show(),
                    show_bytes(&code),
                    toks.iter().map(|l| format!("T{}@{}-{}", l.t, l.s, l.e)).collect::<Vec<_>>().join(" "),
                    fl,
                    ["chosen by the caller", "the default choice", "own tokenizer"][route]
                )
            };
            if let Err(m) = agree(&w.out, &got, true) {
                return fail(m, show());
            }
            if route == 0 {
                label(&w, &mut labels);
            }
            if let Out::Ok(v, q) = &w.out {
                let odd = gaps || (route == 0 && chosen != usual);
                if odd && consumed(&toks, fl, *q) >= 2 && count(v) >= 3 {
                    nt = true;
                    labels.push(if gaps { "gaps" } else { "own choice" });
                    if c.want_desc && desc.is_empty() {
                        desc = format!("{}\n-> {:?}", show(), got);
                    }
                }
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C33

/// A tokenizer implemented by the harness, for any token type.
struct RefTokOf<A>(LexSpec, std::marker::PhantomData<A>);
impl<A: Tok> ITokenization for RefTokOf<A> {
    type Token = A;
    fn tokenize(&self, code: &Code) -> Result<Vec<Lex<A>>, ParseError> {
        match self.0.tokenize(code.value) {
            Ok(v) => Ok(to_lib(&v)),
            Err((p, _)) => Err(ParseError::new(p, format!("no token at {}", p))),
        }
    }
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        Ok(String::new())
    }
}

/// One grammar and its inputs with one choice of types.
fn with_types<T: Tok, N: Nk>(sys: &Sys, st: &Style, ls: LStyle, runs: &[(Vec<u8>, Want, Vec<Lx>)], byte: bool) -> Result<(), Fail> {
    enum P<T: Tok, N: Nk> {
        T(DefaultParser<N, T>),
        B(Box<dyn Fn(&[u8]) -> Result<Vec<ASTNode<N>>, ParseError>>, std::marker::PhantomData<T>),
    }
    let what = || format!("token type {}, node type {}", if byte { "i8" } else { T::name() }, std::any::type_name::<N>());
    let tok: Option<DynTok<T>> = match (byte, &sys.spec, sys.src) {
        (true, ..) => None,
        (_, Some(s), Src::Lib) => match guard(|| build_tok::<T>(s, ls)) {
            Ok(Ok(t)) => Some(t),
            e => return fail(format!("{}: the tokenizer was refused: {:?}", what(), e.map(|r| r.map(|_| ()))), s.show()),
        },
        (_, Some(s), _) => Some(Rc::new(RefTokOf::<T>(s.clone(), std::marker::PhantomData))),
        _ => unreachable!(),
    };
    mk::budget(BUILD_STEPS, 20_000);
    let made = guard(|| {
        if byte {
            let b = mk::build::<mk::L<i8, N>>(&sys.g, st);
            LexerlessParser::new(b.root(0)).map(|p| P::B(Box::new(move |code| { let _keep = &b; p.parse(code) }), std::marker::PhantomData)).map_err(|e| format!("{}", e))
        } else {
            let b = mk::build::<mk::L<T, N>>(&sys.g, st);
            let r = DefaultParser::new(tok.clone().unwrap(), b.root(0)).map_err(|e| format!("{}", e));
            r.map(|p| (p, b)).map(|(p, b)| {
                // the rules outlive the parser
                KEEP.with(|k| k.borrow_mut().push(Box::new(b)));
                P::T(p)
            })
        }
    });
    let p: P<T, N> = match made {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return fail(format!("{}: a well-formed grammar was rejected: {}", what(), e), sys.g.show()),
        Err(e) => return fail(format!("{}: constructing a parser panicked: {}", what(), e), sys.g.show()),
    };
    for (code, w, toks) in runs {
        if let (Some(tk), Out::Lex(_)) | (Some(tk), Out::Ok(..)) = (&tok, &w.out) {
            lex_budget(400 * (code.len() + 2));
            let got = guard(|| tk.tokenize(&Code::new(code)).map(|v| lxs(&v)).map_err(|e| e.pointer));
            let same = match (&w.out, &got) {
                (Out::Lex(p), Ok(Err(q))) => p == q,
                (Out::Ok(..), Ok(Ok(v))) => v == toks,
                _ => false,
            };
            if !same {
                return fail(format!("{}: tokens differ\nexpected {:?} {:?}\ngot      {:?}", what(), w.out, toks, got), sys.desc(code));
            }
        }
        sys.allow(w, code);
        let got = lres(guard(|| match &p {
            P::T(p) => p.parse(code),
            P::B(f, _) => f(code),
        }));
        if let Err(m) = agree(&w.out, &got, true) {
            return fail(format!("{}: {}", what(), m), sys.desc(code));
        }
    }
    drop(p);
    KEEP.with(|k| k.borrow_mut().clear());
    Ok(())
}
thread_local! {
    static KEEP: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> = Default::default();
}

/// Outcomes do not depend on the types that represent tokens, nodes and states.
pub fn c33(t: &mut Tape, c: &Ctx) -> CaseResult {
    let byte = t.chance(1, 4);
    let mut cfg = Cfg::new(!byte);
    cfg.w[K_VALID] = 2;
    if !byte {
        cfg.w[K_TERM] = 40;
        if t.chance(1, 2) {
            cfg.w[K_NONSTR] = 4;
            cfg.w[K_STRUCT] = 2;
        }
    }
    let sys = Sys::new(t, cfg, true)?;
    let st = Style { seed: t.below(1 << 16) as u64, shorthand: t.chance(1, 2), direct: t.chance(1, 2), logs: t.chance(1, 6), ..Style::default() };
    let ls = LStyle { seed: st.seed ^ 5, shorthand: st.shorthand, logs: st.logs };
    let mut runs = vec![];
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..5 {
        let code = sys.input(t);
        if let Some((w, toks)) = sys.expect(&code) {
            if w.out == Out::Budget {
                continue;
            }
            label(&w, &mut labels);
            if let Out::Ok(v, q) = &w.out {
                let fl: Vec<usize> = (0..toks.len()).filter(|i| structural(toks[*i].t)).collect();
                let enough = if byte { *q >= 3 } else { consumed(&toks, &fl, *q) >= 2 };
                if enough && count(v) >= 3 {
                    nt = true;
                    if c.want_desc && desc.is_empty() {
                        desc = format!("{}\n-> {:?}", sys.desc(&code), w.out);
                    }
                }
            }
            runs.push((code, w, toks));
        }
    }
    let n = if byte { t.below(4) } else { 4 + t.below(5) };
    match n {
        0 => with_types::<i8, u8>(&sys, &st, ls, &runs, true)?,
        1 => with_types::<i8, u16>(&sys, &st, ls, &runs, true)?,
        2 => with_types::<i8, usize>(&sys, &st, ls, &runs, true)?,
        3 => with_types::<i8, Nz>(&sys, &st, ls, &runs, true)?,
        4 => with_types::<i8, Nd>(&sys, &st, ls, &runs, false)?,
        5 => with_types::<i16, u8>(&sys, &st, ls, &runs, false)?,
        6 => with_types::<isize, usize>(&sys, &st, ls, &runs, false)?,
        7 => with_types::<Tz, Nz>(&sys, &st, ls, &runs, false)?,
        _ => with_types::<Tq, u16>(&sys, &st, ls, &runs, false)?,
    }
    labels.push(["bytes, u8", "bytes, u16", "bytes, usize", "bytes, opaque nodes", "i8, own nodes", "i16, u8", "isize, usize", "opaque tokens and nodes", "enumeration, u16"][n]);
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C34

/// One answer of a production called directly.
#[derive(Debug, PartialEq)]
enum Direct {
    /// position after what was consumed, nodes
    Ok(usize, Vec<T>),
    Un,
    Val(usize, String),
    Panic(String),
}
fn direct<I: std::fmt::Display, N: Nk>(r: Result<ParsedResult<I, N>, String>) -> Result<Direct, String> {
    Ok(match r {
        Err(p) => Direct::Panic(p),
        Ok(Err(ProductionError::Unparsed)) => Direct::Un,
        Ok(Err(ProductionError::Validation(p, m))) => Direct::Val(p, m),
        Ok(Ok(d)) => {
            let v = from_asts(&d.children);
            let want = v.first().map(|f| (f.s, v[v.len() - 1].e));
            if d.range() != want {
                return Err(format!("range() of the result is {:?}, its nodes are {:?}", d.range(), v));
            }
            Direct::Ok(d.consumed_index.to_string().parse().map_err(|_| format!("the position prints as {}", d.consumed_index))?, v)
        }
    })
}

/// A history of productions called directly, with one result cache.
pub fn c34(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(2, 3));
    cfg.w[K_VALID] = 2;
    cfg.w[K_EOF] = if t.chance(1, 4) { 10 } else { 2 };
    if t.chance(1, 2) {
        cfg.w[K_CACHE] = 6;
    }
    if cfg.tokenized && t.chance(1, 2) {
        cfg.w[K_NONSTR] = 4;
        cfg.w[K_STRUCT] = 2;
    }
    let sys = Sys::new(t, cfg, false)?;
    let st = Style { seed: t.below(1 << 16) as u64, shorthand: t.chance(1, 2), direct: t.chance(1, 2), logs: t.chance(1, 8), ..Style::default() };
    let par = sys.par(&st)?;
    let n = sys.g.rules.len();
    let cached: Vec<bool> = (0..n)
        .map(|i| sys.g.reachable_from(i).iter().any(|r| sys.g.rules[*r].parts().iter().any(|g| g.any(&|x| matches!(x, G::Cache(..))))))
        .collect();
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..2 {
        let mut code = vec![];
        for _ in 0..1 + t.below(2) {
            let r = t.below(n);
            let items = gen_items(t, &sys.g, &sys.cfg, r);
            let part = sys.spell(t, &items);
            code.extend_from_slice(&part);
        }
        let toks = match sys.tokens(&code) {
            Some(Ok(v)) => v,
            _ => continue,
        };
        let lib: Vec<Lex<Tk>> = to_lib(&toks);
        let stream = TokenStream::from(&lib);
        let cd = Code::new(&code);
        let mut tc: Cache<FltrPtr, Nd> = Cache::root();
        let mut bc: Cache<usize, Nd> = Cache::root();
        let mut max = 0;
        let mut good = 0;
        let mut log = String::new();
        let mut ends: Vec<(Mode, usize)> = vec![];
        let fl: Vec<usize> = (0..toks.len()).filter(|i| structural(toks[*i].t)).collect();
        for _ in 0..10 + t.below(30) {
            let i = t.below(n);
            let m = match (&par, cached[i]) {
                (Par::B(..), _) => Mode::Byte,
                (_, true) => Mode::Fltr,
                _ => *t.pick(&[Mode::Fltr, Mode::Raw]),
            };
            let len = match m {
                Mode::Byte => code.len() + 1,
                Mode::Fltr => fl.len(),
                Mode::Raw => toks.len(),
            };
            // anywhere, or where an earlier call of this kind stopped
            let p = match (t.chance(1, 3), ends.iter().rev().find(|e| e.0 == m)) {
                (true, Some(e)) => e.1,
                _ => t.below(len),
            };
            if t.chance(1, 12) {
                let q = t.below(code.len() + 1);
                max = max.max(q);
                tc.update_index(q);
                bc.update_index(q);
            }
            let mut e = Env::new(&sys.g, &code, &toks, LIMIT.max(200 * code.len()));
            e.max = max;
            let r = e.rule(i, m, p);
            let want = match &r {
                Ok((q, v)) => Direct::Ok(*q, v.clone()),
                Err(crate::peg::E::Un) => Direct::Un,
                Err(crate::peg::E::Val(p, m)) => Direct::Val(*p, m.clone()),
                Err(crate::peg::E::Budget) => continue,
            };
            mk::budget(50 * e.steps + 200_000, e.max_depth * 4 + 2000);
            let got = match (&par, m) {
                (Par::B(_, b), _) => {
                    let x = b.rule(i);
                    direct(guard(|| x.advance_ptr(&cd, p, &mut bc)))
                }
                (Par::T(_, b), Mode::Raw) => {
                    let x = b.rule(i);
                    direct(guard(|| x.advance_token_ptr(&cd, TokenPtr::from(p), &stream, &mut tc)))
                }
                (Par::T(_, b), _) => {
                    let x = b.rule(i);
                    let at = if p == 0 { FltrPtr::default() } else { FltrPtr::default() + p };
                    direct(guard(|| x.advance_fltr_ptr(&cd, at, &stream, &mut tc)))
                }
            };
            let what = match m {
                Mode::Byte => "byte",
                Mode::Fltr => "structural token",
                Mode::Raw => "token",
            };
            log.push_str(&format!("R{} at {} {}: {:?}\n", i, what, p, want));
            let d = || format!("{}\ncalls so far:\n{}", sys.desc(&code), log);
            let got = match got {
                Ok(g) => g,
                Err(m) => return fail(m, d()),
            };
            if got != want {
                return fail(format!("rule R{} called at {} {}\nexpected {:?}\ngot      {:?}", i, what, p, want, got), d());
            }
            // what is reached at most up to the position of the call is not prescribed: whether
            // that position itself counts, and what an alternative skipped by its first token
            // would have seen in front of it
            let start = match m {
                Mode::Byte => p,
                Mode::Fltr => toks[fl[p]].s,
                Mode::Raw => toks[p].s,
            };
            let far = if m == Mode::Byte { bc.get_index() } else { tc.get_index() };
            // where a failure would be reported
            let seen = |x: usize| if m == Mode::Byte { x } else { fl.iter().map(|i| toks[*i].s).find(|s| *s >= x).unwrap_or(code.len()) };
            let fine = seen(far) == seen(e.max) || (far >= max && seen(e.max) <= seen(start) && seen(far) <= seen(start));
            if !fine {
                return fail(format!("after rule R{} at {} {}, the furthest position is {}, expected {}", i, what, p, far, e.max), d());
            }
            e.max = far;
            max = far;
            // the report a caller would build from it
            if want == Direct::Un {
                let err = if m == Mode::Byte {
                    guard(|| bc.create_error(&cd, ProductionError::Unparsed))
                } else {
                    guard(|| tc.create_error(&cd, &stream, ProductionError::Unparsed))
                };
                let exp = e.failure(if m == Mode::Byte { m } else { Mode::Fltr });
                match err {
                    Ok(x) if x.pointer == exp => {
                        if let Err(y) = message(&code, if m == Mode::Byte { None } else { Some(&toks) }, exp, &x.message) {
                            return fail(y, d());
                        }
                    }
                    x => return fail(format!("the error built from the cache should point at {}, got {:?}", exp, x), d()),
                }
            }
            match &want {
                Direct::Ok(q, v) => {
                    ends.push((m, *q));
                    if *q >= p + 2 && p > 0 && count(v) >= 1 {
                        good += 1;
                        labels.push(match m {
                            Mode::Byte => "bytes",
                            Mode::Fltr => "structural tokens",
                            Mode::Raw => "all tokens",
                        });
                    }
                }
                Direct::Un => labels.push("unparsed"),
                Direct::Val(..) => labels.push("validation error"),
                _ => {}
            }
        }
        if good >= 2 {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = format!("{}\ncalls:\n{}", sys.desc(&code), log);
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C35

/// What productions say about themselves, against what they do.
pub fn c35(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(3, 4));
    cfg.w[K_VALID] = 2;
    cfg.w[K_LOOK] = 5;
    cfg.w[K_NULL] = 4;
    cfg.w[K_EOF] = 3;
    cfg.w[K_HIDDEN] = 4;
    cfg.w[K_CACHE] = 2;
    if cfg.tokenized && t.chance(1, 2) {
        cfg.w[K_NONSTR] = 4;
        cfg.w[K_STRUCT] = 2;
    }
    let sys = Sys::new(t, cfg, false)?;
    let st = Style { seed: t.below(1 << 16) as u64, shorthand: t.chance(1, 2), direct: t.chance(1, 2), ..Style::default() };
    let par = sys.par(&st)?;
    let n = sys.g.rules.len();
    mk::budget(BUILD_STEPS, 20_000);
    // asked in a random order: some answers are remembered
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, t.below(i + 1));
    }
    let mut says: Vec<(bool, bool, HashSet<u8>)> = vec![Default::default(); n];
    for i in order {
        let r = guard(|| match &par {
            Par::B(_, b) => {
                let r = b.rule(i);
                (r.is_nullable(), r.obtain_nullability(Default::default()).ok() == Some(true), HashSet::new())
            }
            Par::T(_, b) => {
                let r = b.rule(i);
                let mut s = HashSet::new();
                r.impl_first_set(&mut s);
                (r.is_nullable(), r.obtain_nullability(Default::default()).ok() == Some(true), s.iter().map(|k| k.0).collect())
            }
        });
        match r {
            Ok(x) => says[i] = x,
            Err(p) => return fail(format!("asking rule R{} whether it can be empty panicked: {}", i, p), sys.g.show()),
        }
        if says[i].0 != says[i].1 {
            return fail(format!("R{}: is_nullable says {}, obtain_nullability says {}", i, says[i].0, says[i].1), sys.g.show());
        }
    }
    let mut labels = vec![];
    let mut empty = 0;
    let mut taken = 0;
    let mut desc = String::new();
    for _ in 0..3 {
        let r = t.below(n);
        let items = gen_items(t, &sys.g, &sys.cfg, r);
        let code = sys.spell(t, &items);
        let toks = match sys.tokens(&code) {
            Some(Ok(v)) => v,
            _ => continue,
        };
        let fl: Vec<usize> = (0..toks.len()).filter(|i| structural(toks[*i].t)).collect();
        let modes: &[Mode] = if sys.src == Src::None { &[Mode::Byte] } else { &[Mode::Fltr, Mode::Raw] };
        for m in modes {
            let len = match m {
                Mode::Byte => code.len() + 1,
                Mode::Fltr => fl.len(),
                Mode::Raw => toks.len(),
            };
            for i in 0..n {
                let (nullable, _, first) = &says[i];
                for p in 0..len.min(25) {
                    let mut e = Env::new(&sys.g, &code, &toks, LIMIT);
                    let q = match e.rule(i, *m, p) {
                        Ok((q, _)) => q,
                        Err(crate::peg::E::Budget) => break,
                        Err(_) => continue,
                    };
                    let d = || format!("{}\nR{} at {:?} {} stops at {}, it says nullable {} and first tokens {:?}", sys.desc(&code), i, m, p, q, nullable, first);
                    if q == p {
                        empty += 1;
                        if !nullable {
                            return fail(format!("R{} matches nothing at all, but says that it is not nullable", i), d());
                        }
                        continue;
                    }
                    taken += 1;
                    if *nullable || *m == Mode::Byte {
                        continue;
                    }
                    let here = match m {
                        Mode::Fltr => fl[p],
                        _ => p,
                    };
                    // skipped tokens in front, or the structural token behind
                    let near: Vec<u8> = match m {
                        Mode::Fltr => vec![toks[here].t, toks[if p == 0 { 0 } else { fl[p - 1] + 1 }].t],
                        _ => vec![toks[here].t, toks[*fl.iter().find(|i| **i >= here).unwrap()].t],
                    };
                    if !near.iter().any(|k| first.contains(k)) {
                        return fail(format!("R{} starts with a token it does not list", i), d());
                    }
                    if c.want_desc && desc.is_empty() {
                        desc = d();
                    }
                }
            }
        }
    }
    if empty > 0 {
        labels.push("empty matches");
    }
    if taken > 0 {
        labels.push("matches");
    }
    Ok(Rep { nontrivial: taken >= 4 && empty >= 1, labels, desc, digest: String::new() })
}

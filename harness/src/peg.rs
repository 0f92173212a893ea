//! Reference interpreter: the parsing-expression meaning of a grammar, written
//! independently of the library.
use crate::engine::fnv;
use crate::gram::*;
use crate::nt::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Byte,
    Fltr,
    Raw,
}

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Un,
    Val(usize, String),
    Budget,
}

pub struct Env<'a> {
    pub g: &'a Gram,
    pub code: &'a [u8],
    pub toks: &'a [Lx],
    pub fl: Vec<usize>,
    pub max: usize,
    pub steps: usize,
    pub limit: usize,
    pub depth: usize,
    pub max_depth: usize,
    pub dlimit: usize,
    /// constructs that succeeded at least once
    pub hit: u32,
    /// calls of validation functions: (id, signature of the nodes)
    pub calls: Vec<(usize, u64)>,
    pub unparsed_by_valid: bool,
    pub pos_calls: Vec<(usize, usize)>,
}

/// Outcome of a whole parse.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Vec<T>, usize),
    /// syntax error at pointer
    Syn(usize),
    Val(usize, String),
    /// tokenization failed at pointer
    Lex(usize),
    Budget,
}

pub fn sig(v: &[T], code: &[u8]) -> u64 {
    fn go(v: &[T], h: &mut u64) {
        for t in v {
            for x in [t.n as usize + 1, t.s, t.e, t.c.len()] {
                *h = (*h ^ (x as u64)).wrapping_mul(0x100_0000_01b3);
                *h ^= *h >> 17;
            }
            go(&t.c, h);
            *h = h.wrapping_add(0x9e37);
        }
    }
    let mut h = fnv(code);
    go(v, &mut h);
    h ^= h >> 31;
    h
}

/// What a validation function answers; shared by the reference and the closures given to
/// the library (pure function of its arguments).
pub fn decide(f: &VFn, v: &[T], code: &[u8]) -> Result<(), E> {
    let h = sig(v, code);
    let z = (h ^ f.k.wrapping_mul(0x9E37_79B9)) % 5;
    let bad = match f.kind {
        0 => 0,
        1 => (z < 2) as u8,
        2 => ((z < 2) as u8) * 2,
        3 => 1,
        _ => 2,
    };
    match bad {
        0 => Ok(()),
        1 => Err(E::Un),
        _ => Err(E::Val((h >> 7) as usize % (code.len() + 1), format!("VAL#{}-{}{}", f.id, h % 1000, TAILS[(h >> 17) as usize % TAILS.len()]))),
    }
}
/// How a message may end: it has to arrive unchanged.
const TAILS: [&str; 16] = [
    "", "", "", "", "", "", " ", "\n", "  \n\t", " {} {0}", " %s\\n", "\"'<>", "\0", "é\u{1F600}\u{301}", "\r\n\r\n", ": a message of several\n\n lines, Unexpected token",
];

type R = Result<(usize, Vec<T>), E>;

impl<'a> Env<'a> {
    pub fn new(g: &'a Gram, code: &'a [u8], toks: &'a [Lx], limit: usize) -> Self {
        let fl = toks.iter().enumerate().filter(|(_, l)| structural(l.t)).map(|(i, _)| i).collect();
        Env {
            g,
            code,
            toks,
            fl,
            max: 0,
            steps: 0,
            limit,
            depth: 0,
            max_depth: 0,
            dlimit: 3000,
            hit: 0,
            calls: vec![],
            unparsed_by_valid: false,
            pos_calls: vec![],
        }
    }
    fn tp(&self, m: Mode, p: usize) -> Option<usize> {
        match m {
            Mode::Byte => None,
            Mode::Fltr => Some(self.fl[p]),
            Mode::Raw => Some(p),
        }
    }
    fn start(&self, m: Mode, p: usize) -> usize {
        match m {
            Mode::Byte => p,
            _ => self.toks[self.tp(m, p).unwrap()].s,
        }
    }
    fn zero(&self, n: u8, m: Mode, p: usize) -> T {
        let s = self.start(m, p);
        T { n, s, e: s, b: self.tp(m, p).map(|i| (i, i)), c: vec![] }
    }
    fn span(&self, n: u8, m: Mode, p: usize, q: usize, c: Vec<T>) -> T {
        T {
            n,
            s: self.start(m, p),
            e: self.start(m, q),
            b: self.tp(m, p).map(|i| (i, self.tp(m, q).unwrap())),
            c,
        }
    }
    fn at_eof(&self, m: Mode, p: usize) -> bool {
        match m {
            Mode::Byte => p == self.code.len(),
            _ => self.toks[self.tp(m, p).unwrap()].t == EOF,
        }
    }
    fn bytes(&mut self, p: usize, q: usize, n: &Option<u8>) -> R {
        self.max = self.max.max(q);
        Ok((q, n.iter().map(|n| T { n: *n, s: p, e: q, b: None, c: vec![] }).collect()))
    }
    fn token(&mut self, m: Mode, p: usize, n: &Option<u8>) -> R {
        let i = self.tp(m, p).unwrap();
        let l = self.toks[i];
        self.max = self.max.max(l.e);
        Ok((p + 1, n.iter().map(|n| T { n: *n, s: l.s, e: l.e, b: Some((i, i + 1)), c: vec![] }).collect()))
    }
    fn longest<'b>(set: &'b [(String, Option<u8>)], rest: &[u8]) -> Option<&'b (String, Option<u8>)> {
        set.iter().filter(|(s, _)| rest.starts_with(s.as_bytes())).max_by_key(|(s, _)| s.len())
    }

    pub fn eval(&mut self, g: &G, m: Mode, p: usize) -> R {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(E::Budget);
        }
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > self.dlimit {
            return Err(E::Budget);
        }
        let r = self.eval_in(g, m, p);
        self.depth -= 1;
        if r.is_ok() {
            self.hit |= 1 << g.kind();
        }
        r
    }
    fn eval_in(&mut self, g: &G, m: Mode, p: usize) -> R {
        match g {
            G::Tok(k, n) => {
                if self.toks[self.tp(m, p).unwrap()].t == *k {
                    self.token(m, p, n)
                } else {
                    Err(E::Un)
                }
            }
            G::TokSet(v, _) => {
                let k = self.toks[self.tp(m, p).unwrap()].t;
                match v.iter().find(|(x, _)| *x == k) {
                    Some((_, n)) => self.token(m, p, n),
                    None => Err(E::Un),
                }
            }
            G::Str(s, n) => {
                if self.code[p..].starts_with(s.as_bytes()) {
                    self.bytes(p, p + s.len(), n)
                } else {
                    Err(E::Un)
                }
            }
            G::StrSet(v) | G::Punct(v) => match Self::longest(v, &self.code[p..]) {
                Some((s, n)) => self.bytes(p, p + s.len(), n),
                None => Err(E::Un),
            },
            G::Regex(r, n) => {
                let before = crate::re::WORK.with(|w| w.get());
                let hit = r.find(self.code, p);
                self.steps += ((crate::re::WORK.with(|w| w.get()) - before) / 50) as usize;
                match hit {
                    Some(q) => self.bytes(p, q, n),
                    None => Err(E::Un),
                }
            }
            G::Null => Ok((p, vec![self.zero(0, m, p)])),
            G::NullHidden => Ok((p, vec![])),
            G::Eof(n) => {
                if self.at_eof(m, p) {
                    self.max = self.max.max(self.code.len());
                    Ok((p, n.iter().map(|n| self.zero(*n, m, p)).collect()))
                } else {
                    Err(E::Un)
                }
            }
            G::Ref(i) => self.rule(*i, m, p),
            G::Nullable(x) => match self.eval(x, m, p) {
                Err(E::Un) => Ok((p, vec![self.zero(0, m, p)])),
                r => r,
            },
            G::NullHid(x) => match self.eval(x, m, p) {
                Err(E::Un) => Ok((p, vec![])),
                r => r,
            },
            G::List(x) => {
                let (mut q, mut c) = self.eval(x, m, p)?;
                let mut last = p;
                while q != last {
                    match self.eval(x, m, q) {
                        Ok((e, cc)) => {
                            c.extend(cc);
                            last = q;
                            q = e;
                        }
                        Err(E::Un) => break,
                        Err(e) => return Err(e),
                    }
                }
                Ok((q, c))
            }
            G::Sep(x, s, inclusive) => {
                let (mut q, mut c) = self.eval(x, m, p)?;
                loop {
                    let (ps, cs) = match self.eval(s, m, q) {
                        Ok(r) => r,
                        Err(E::Un) => break,
                        Err(e) => return Err(e),
                    };
                    match self.eval(x, m, ps) {
                        Ok((e, ce)) => {
                            c.extend(cs);
                            c.extend(ce);
                            if e == q {
                                break;
                            }
                            q = e;
                        }
                        Err(E::Un) => {
                            if *inclusive {
                                c.extend(cs);
                                q = ps;
                            }
                            break;
                        }
                        Err(e) => return Err(e),
                    }
                }
                Ok((q, c))
            }
            G::Hidden(x) => Ok((self.eval(x, m, p)?.0, vec![])),
            G::Node(x, n) => {
                let (q, c) = self.eval(x, m, p)?;
                Ok((q, vec![self.span(*n, m, p, q, c)]))
            }
            G::Look(x, n) => {
                self.eval(x, m, p)?;
                Ok((p, n.iter().map(|n| self.zero(*n, m, p)).collect()))
            }
            G::NonStr(x, fill) => match m {
                Mode::Fltr => {
                    let s = if p == 0 { 0 } else { self.fl[p - 1] + 1 };
                    let (q, c) = self.eval(x, Mode::Raw, s)?;
                    if *fill && q != self.fl[p] {
                        return Err(E::Un);
                    }
                    Ok((p, c))
                }
                _ => self.eval(x, m, p),
            },
            G::Struct(x) => match m {
                Mode::Raw => {
                    let s = self.fl.iter().position(|i| *i >= p).unwrap();
                    let (q, c) = self.eval(x, Mode::Fltr, s)?;
                    Ok((if q == s { p } else { self.fl[q - 1] + 1 }, c))
                }
                _ => self.eval(x, m, p),
            },
            G::Cache(x, k) => {
                self.pos_calls.push((*k, p));
                self.eval(x, m, p)
            }
            G::Valid(x, f) => {
                let (q, c) = self.eval(x, m, p)?;
                self.calls.push((f.id, sig(&c, self.code)));
                match decide(f, &c, self.code) {
                    Ok(()) => Ok((q, c)),
                    Err(e) => {
                        if e == E::Un {
                            self.unparsed_by_valid = true;
                        }
                        Err(e)
                    }
                }
            }
        }
    }
    pub fn rule(&mut self, i: usize, m: Mode, p: usize) -> R {
        let g = self.g;
        match &g.rules[i] {
            Rule::Concat(v) => {
                let mut q = p;
                let mut c = vec![];
                for x in v {
                    let (e, cc) = self.eval(x, m, q)?;
                    q = e;
                    c.extend(cc);
                }
                self.hit |= 1 << K_CONCAT;
                Ok((q, c))
            }
            Rule::Union(v) => {
                for (j, x) in v.iter().enumerate() {
                    match self.eval(x, m, p) {
                        Err(E::Un) => continue,
                        r => {
                            if j > 0 && r.is_ok() {
                                self.hit |= 1 << K_UNION;
                            }
                            return r;
                        }
                    }
                }
                Err(E::Un)
            }
            Rule::Suffixes(l, st, s) => {
                let (q, mut c) = self.eval(l, m, p)?;
                for (x, n) in s {
                    match self.eval(x, m, q) {
                        Ok((e, cc)) => {
                            c.extend(cc);
                            self.hit |= 1 << K_SUFFIX;
                            return Ok((e, vec![self.span(*n, m, p, e, c)]));
                        }
                        Err(E::Un) => {}
                        Err(e) => return Err(e),
                    }
                }
                if *st {
                    Ok((q, c))
                } else {
                    Err(E::Un)
                }
            }
        }
    }
    /// Error pointer of a syntax error.
    pub fn failure(&self, m: Mode) -> usize {
        match m {
            Mode::Byte => self.max,
            _ => self.fl.iter().map(|i| self.toks[*i].s).find(|s| *s >= self.max).unwrap_or(self.code.len()),
        }
    }
    pub fn finish(&self, r: R, m: Mode) -> Out {
        match r {
            Ok((q, c)) => Out::Ok(c, self.start(m, q)),
            Err(E::Un) => Out::Syn(self.failure(m)),
            Err(E::Val(p, s)) => Out::Val(p, s),
            Err(E::Budget) => Out::Budget,
        }
    }
    pub fn parse(&mut self, root: usize, m: Mode, p: usize) -> Out {
        let r = self.rule(root, m, p);
        self.finish(r, m)
    }
}

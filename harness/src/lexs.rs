//! Lexical specifications: random generation, building with the library, and an independent
//! reference tokenizer (a stack machine over an ordered list of lexemes).
use crate::engine::fnv;
use crate::nt::*;
use crate::re::{self, Re};
use crate::tape::Tape;
use lang_pt::lexeme::*;
use lang_pt::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ActK {
    Pop,
    App(u8),
    Sw(u8),
    None,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Act {
    pub k: ActK,
    pub discard: bool,
}
#[derive(Clone, Debug)]
pub enum Lx_ {
    Pat(u8, Re),
    Punct(Vec<(String, u8)>),
    Consts(Vec<(String, u8)>),
    Map(Box<Lx_>, Vec<(String, u8)>),
    Thunk(Box<Lx_>, u64),
    Mid(Box<Lx_>, u64),
    State(Box<Lx_>, Vec<(u8, Act)>),
    ThState(Box<Lx_>, u64, Vec<u8>),
}
pub use Lx_ as LexS;

#[derive(Clone, Debug)]
pub struct LexSpec {
    /// first entry: default state
    pub states: Vec<(u8, Vec<LexS>)>,
    pub plain: bool,
}

// ------------------------------------------------------------------ the supplied functions

fn hash_args(k: u64, lex: Option<Lx>, code: &[u8], toks: &[Lx]) -> u64 {
    let mut h = fnv(code) ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (code.len() as u64) << 20;
    let mut eat = |l: &Lx| {
        for x in [l.t as usize + 1, l.s, l.e + 7] {
            h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
            h ^= h >> 15;
        }
    };
    toks.iter().for_each(&mut eat);
    if let Some(l) = lex {
        eat(&Lx { t: l.t, s: l.s + 1000, e: l.e });
    }
    h ^ (h >> 29)
}
pub fn thunk_fn(k: u64, lex: Lx, code: &[u8], toks: &[Lx]) -> Option<u8> {
    let h = hash_args(k, Some(lex), code, toks);
    if h % 3 == 0 {
        None
    } else {
        Some([0u8, 1, 2, 3, 4, 6, 7, 8][(h / 3 % 8) as usize])
    }
}
pub fn mid_fn(k: u64, code: &[u8], toks: &[Lx]) -> bool {
    hash_args(k, None, code, toks) % 4 != 0
}
pub fn th_state_fn(k: u64, names: &[u8], lex: Lx, code: &[u8], toks: &[Lx]) -> Act {
    let h = hash_args(k, Some(lex), code, toks);
    let st = names[(h / 64) as usize % names.len()];
    let kind = match h % 5 {
        0 => ActK::App(st),
        1 => ActK::Sw(st),
        2 | 3 => ActK::None,
        _ => ActK::Pop,
    };
    Act { k: kind, discard: h / 8 % 6 == 0 }
}

// ------------------------------------------------------------------ reference

fn longest<'a>(v: &'a [(String, u8)], rest: &[u8]) -> Option<&'a (String, u8)> {
    v.iter().filter(|(s, _)| !s.is_empty() && rest.starts_with(s.as_bytes())).max_by_key(|(s, _)| s.len())
}
fn act(a: Act, l: Lx, stack: &mut Vec<u8>) -> Option<Lx> {
    match a.k {
        ActK::Pop => {
            stack.pop()?;
        }
        ActK::App(s) => stack.push(s),
        ActK::Sw(s) => match stack.last_mut() {
            Some(t) => *t = s,
            None => stack.push(s),
        },
        ActK::None => {}
    }
    if a.discard {
        None
    } else {
        Some(l)
    }
}
impl LexS {
    pub fn consume(&self, code: &[u8], p: usize, toks: &[Lx], stack: &mut Vec<u8>) -> Option<Lx> {
        match self {
            LexS::Pat(t, r) => match r.find(code, p) {
                Some(e) if e > p => Some(Lx { t: *t, s: p, e }),
                _ => None,
            },
            LexS::Punct(v) | LexS::Consts(v) => longest(v, &code[p..]).map(|(s, t)| Lx { t: *t, s: p, e: p + s.len() }),
            LexS::Map(x, v) => {
                let mut l = x.consume(code, p, toks, stack)?;
                if let Some((_, t)) = v.iter().find(|(s, _)| s.as_bytes() == &code[l.s..l.e]) {
                    l.t = *t;
                }
                Some(l)
            }
            LexS::Thunk(x, k) => {
                let mut l = x.consume(code, p, toks, stack)?;
                if let Some(t) = thunk_fn(*k, l, code, toks) {
                    l.t = t;
                }
                Some(l)
            }
            LexS::Mid(x, k) => {
                if mid_fn(*k, code, toks) {
                    x.consume(code, p, toks, stack)
                } else {
                    None
                }
            }
            LexS::State(x, v) => {
                let l = x.consume(code, p, toks, stack)?;
                match v.iter().find(|(t, _)| *t == l.t) {
                    Some((_, a)) => act(*a, l, stack),
                    None => Some(l),
                }
            }
            LexS::ThState(x, k, names) => {
                let l = x.consume(code, p, toks, stack)?;
                act(th_state_fn(*k, names, l, code, toks), l, stack)
            }
        }
    }
    pub fn spell(&self, t: &mut Tape, out: &mut Vec<u8>) {
        match self {
            LexS::Pat(_, r) => r.spell(t, out),
            LexS::Punct(v) | LexS::Consts(v) => {
                if !v.is_empty() {
                    out.extend_from_slice(t.pick(v).0.as_bytes())
                }
            }
            LexS::Map(x, v) => {
                if !v.is_empty() && t.chance(1, 2) {
                    out.extend_from_slice(t.pick(v).0.as_bytes())
                } else {
                    x.spell(t, out)
                }
            }
            LexS::Thunk(x, _) | LexS::Mid(x, _) | LexS::State(x, _) | LexS::ThState(x, _, _) => x.spell(t, out),
        }
    }
    pub fn any(&self, f: &dyn Fn(&LexS) -> bool) -> bool {
        f(self)
            || match self {
                LexS::Map(x, _) | LexS::Thunk(x, _) | LexS::Mid(x, _) | LexS::State(x, _) | LexS::ThState(x, _, _) => x.any(f),
                _ => false,
            }
    }
    pub fn show(&self) -> String {
        let set = |v: &Vec<(String, u8)>| v.iter().map(|(s, t)| format!("{:?}:T{}", s, t)).collect::<Vec<_>>().join(",");
        match self {
            LexS::Pat(t, r) => format!("/{}/:T{}", r.anchored(), t),
            LexS::Punct(v) => format!("Punctuations({})", set(v)),
            LexS::Consts(v) => format!("Constants({})", set(v)),
            LexS::Map(x, v) => format!("Mapper({}, {})", x.show(), set(v)),
            LexS::Thunk(x, k) => format!("ThunkMapper#{}({})", k, x.show()),
            LexS::Mid(x, k) => format!("Middleware#{}({})", k, x.show()),
            LexS::State(x, v) => format!("StateMixin({}, {:?})", x.show(), v),
            LexS::ThState(x, k, _) => format!("ThunkStateMixin#{}({})", k, x.show()),
        }
    }
}

/// What happened during a reference tokenization (for reporting and non-triviality).
#[derive(Default, Clone)]
pub struct Info {
    pub later_lexeme: bool,
    pub state_changes: usize,
    pub discards: bool,
    pub empty_pop: bool,
    pub left_default: bool,
    pub kind_changed: bool,
    pub guarded: bool,
}

impl LexSpec {
    pub fn show(&self) -> String {
        let mut o = String::new();
        for (i, (s, v)) in self.states.iter().enumerate() {
            o.push_str(&format!("state {}{}:\n", s, if i == 0 { " (default)" } else { "" }));
            for l in v {
                o.push_str(&format!("  {}\n", l.show()));
            }
        }
        o
    }
    /// Ok(tokens incl. end of file) or Err(failure position, tokens so far).
    pub fn tokenize(&self, code: &[u8]) -> Result<Vec<Lx>, (usize, Vec<Lx>)> {
        self.tokenize_info(code).0
    }
    pub fn tokenize_info(&self, code: &[u8]) -> (Result<Vec<Lx>, (usize, Vec<Lx>)>, Info) {
        let mut info = Info::default();
        let mut toks: Vec<Lx> = vec![];
        let mut stack: Vec<u8> = vec![];
        let mut p = 0;
        while p < code.len() {
            let cur = *stack.last().unwrap_or(&self.states[0].0);
            let set = &self.states.iter().find(|(s, _)| *s == cur).expect("state registered").1;
            let mut got = None;
            for (i, l) in set.iter().enumerate() {
                // a change below the top needs a change of the length or the top as well
                let before = (stack.len(), stack.last().copied());
                let r = l.consume(code, p, &toks, &mut stack);
                if before != (stack.len(), stack.last().copied()) {
                    info.state_changes += 1;
                    if r.is_none() {
                        info.discards = true;
                    }
                }
                if let Some(x) = r {
                    info.later_lexeme |= i > 0;
                    got = Some(x);
                    break;
                }
            }
            match got {
                None => return (Err((p, toks)), info),
                Some(x) => {
                    p = x.e;
                    toks.push(x);
                }
            }
            info.left_default |= !stack.is_empty();
        }
        toks.push(Lx { t: EOF, s: p, e: p });
        (Ok(toks), info)
    }
}

// ------------------------------------------------------------------ library side

thread_local! {
    static LSTEPS: Cell<usize> = Cell::new(0);
    static LLIMIT: Cell<usize> = Cell::new(usize::MAX);
}
pub fn lex_budget(n: usize) {
    LSTEPS.with(|s| s.set(0));
    LLIMIT.with(|s| s.set(n));
}
/// A token type and a tokenizer state type.
pub trait Al: 'static {
    type T: Tok;
    type S: Copy + std::fmt::Debug + Default + Ord + Eq + std::hash::Hash + 'static;
    fn st(k: u8) -> Self::S;
}
impl<A: Tok> Al for A {
    type T = A;
    type S = <A as Tok>::S;
    fn st(k: u8) -> <A as Tok>::S {
        <A as Tok>::st(k)
    }
}
/// With the state type of `Tokenizer::new`.
pub struct Plain<A>(std::marker::PhantomData<A>);
impl<A: Tok> Al for Plain<A> {
    type T = A;
    type S = u8;
    fn st(k: u8) -> u8 {
        k
    }
}
/// Sized lexeme over a trait object; counts calls.
pub struct DynLex<A: Al>(Rc<dyn ILexeme<Token = A::T, State = A::S>>);
impl<A: Al> ILexeme for DynLex<A> {
    type Token = A::T;
    type State = A::S;
    fn consume(&self, code: &Code, p: usize, toks: &Vec<Lex<A::T>>, st: &mut Vec<A::S>) -> Option<Lex<A::T>> {
        let n = LSTEPS.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        if n > LLIMIT.with(|s| s.get()) {
            panic!("step budget exceeded: tokenization does not terminate");
        }
        self.0.consume(code, p, toks, st)
    }
    fn get_grammar_field(&self) -> Vec<(A::T, String)> {
        self.0.get_grammar_field()
    }
}
pub fn lx<A: Tok>(l: &Lex<A>) -> Lx {
    Lx { t: l.token.kind(), s: l.start, e: l.end }
}
pub fn lxs<A: Tok>(v: &[Lex<A>]) -> Vec<Lx> {
    v.iter().map(lx).collect()
}
pub fn to_lib<A: Tok>(v: &[Lx]) -> Vec<Lex<A>> {
    v.iter().map(|l| Lex::new(A::tok(l.t), l.s, l.e)).collect()
}

/// How to build: direct constructors or builder shorthands, with or without logs.
#[derive(Clone, Copy, Default)]
pub struct LStyle {
    pub seed: u64,
    pub shorthand: bool,
    pub logs: bool,
}
struct Draw(u64, LStyle);
impl Draw {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) ^ (self.0 >> 11)
    }
    fn sh(&mut self) -> bool {
        self.1.shorthand && self.next() & 1 == 1
    }
    fn log(&mut self) -> Option<Log<&'static str>> {
        if !self.1.logs {
            return None;
        }
        Some(match self.next() % 6 {
            0 => return None,
            1 => Log::None,
            2 => Log::Default("L1"),
            3 => Log::Success("L2"),
            4 => Log::Result("L3"),
            _ => Log::Verbose("L4"),
        })
    }
}
macro_rules! lexd {
    ($p:expr, $d:expr) => {{
        let p = $p;
        if let Some(l) = $d.log() {
            let _ = p.set_log(l);
        }
        DynLex(Rc::new(p))
    }};
}
fn lib_act<A: Al>(a: Act) -> Action<A::S> {
    let discard = a.discard;
    match a.k {
        ActK::Pop => Action::Pop { discard },
        ActK::App(n) => Action::Append { state: A::st(n), discard },
        ActK::Sw(n) => Action::Switch { state: A::st(n), discard },
        ActK::None => Action::None { discard },
    }
}
fn strs<A: Al>(v: &[(String, u8)]) -> Vec<(&str, A::T)> {
    v.iter().map(|(s, t)| (s.as_str(), A::T::tok(*t))).collect()
}
fn make<A: Al>(l: &LexS, d: &mut Draw) -> Result<DynLex<A>, String> {
    Ok(match l {
        LexS::Pat(t, r) => lexd!(Pattern::<A::T, A::S>::new(A::T::tok(*t), &r.anchored())?, d),
        LexS::Punct(v) => lexd!(Punctuations::<A::T, A::S>::new(strs::<A>(v))?, d),
        LexS::Consts(v) => lexd!(Constants::<A::T, A::S>::new(strs::<A>(v)), d),
        LexS::Map(x, v) => {
            let x = make::<A>(x, d)?;
            lexd!(if d.sh() { x.mapping(strs::<A>(v))? } else { Mapper::new(x, strs::<A>(v))? }, d)
        }
        LexS::Thunk(x, k) => {
            let x = make::<A>(x, d)?;
            let k = *k;
            let f = move |l: &Lex<A::T>, code: &[u8], toks: &Vec<Lex<A::T>>| thunk_fn(k, lx(l), code, &lxs(toks)).map(A::T::tok);
            if d.sh() {
                lexd!(x.thunk_mapping(f), d)
            } else {
                lexd!(ThunkMapper::new(x, f), d)
            }
        }
        LexS::Mid(x, k) => {
            let x = make::<A>(x, d)?;
            let k = *k;
            let f = move |code: &[u8], toks: &Vec<Lex<A::T>>| mid_fn(k, code, &lxs(toks));
            if d.sh() {
                lexd!(x.middleware(f), d)
            } else {
                lexd!(Middleware::new(x, f), d)
            }
        }
        LexS::State(x, v) => {
            let x = make::<A>(x, d)?;
            let v: Vec<(A::T, Action<A::S>)> = v.iter().map(|(t, a)| (A::T::tok(*t), lib_act::<A>(*a))).collect();
            lexd!(if d.sh() { x.state_mixin(v) } else { StateMixin::new(x, v) }, d)
        }
        LexS::ThState(x, k, names) => {
            let x = make::<A>(x, d)?;
            let (k, names) = (*k, names.clone());
            let f = move |l: &Lex<A::T>, code: &[u8], toks: &Vec<Lex<A::T>>| lib_act::<A>(th_state_fn(k, &names, lx(l), code, &lxs(toks)));
            if d.sh() {
                lexd!(x.thunk_mixin(f), d)
            } else {
                lexd!(ThunkStateMixin::new(x, f), d)
            }
        }
    })
}
pub type DynTok<A = Tk> = Rc<dyn ITokenization<Token = A>>;
type DynL<A> = Rc<dyn ILexeme<Token = <A as Al>::T, State = <A as Al>::S>>;

pub fn build_lexemes<A: Al>(v: &[LexS], st: LStyle) -> Result<Vec<DynL<A>>, String> {
    let mut d = Draw(st.seed, st);
    v.iter().map(|l| make::<A>(l, &mut d).map(|d| Rc::new(d) as DynL<A>)).collect()
}
pub fn build_tok<A: Tok>(s: &LexSpec, st: LStyle) -> Result<DynTok<A>, String> {
    if s.plain {
        Ok(Rc::new(Tokenizer::new(build_lexemes::<Plain<A>>(&s.states[0].1, st)?)))
    } else {
        build_comb(s, st)
    }
}
pub fn build_comb<A: Tok>(s: &LexSpec, st: LStyle) -> Result<DynTok<A>, String> {
    let mut t = CombinedTokenizer::new(<A as Tok>::st(s.states[0].0), build_lexemes::<A>(&s.states[0].1, st)?);
    for (n, v) in &s.states[1..] {
        let st = LStyle { seed: st.seed ^ (*n as u64) << 8, ..st };
        t.add_state(<A as Tok>::st(*n), build_lexemes::<A>(v, st)?);
    }
    let mut d = Draw(st.seed ^ 77, st);
    if let Some(l) = d.log() {
        let _ = t.set_log(l);
    }
    Ok(Rc::new(t))
}

/// A tokenizer implemented by the harness from a specification (reference semantics).
pub struct RefTok(pub LexSpec);
impl ITokenization for RefTok {
    type Token = Tk;
    fn tokenize(&self, code: &Code) -> Result<Vec<Lex<Tk>>, ParseError> {
        match self.0.tokenize(code.value) {
            Ok(v) => Ok(to_lib(&v)),
            Err((p, _)) => Err(ParseError::new(p, format!("no token at {}", p))),
        }
    }
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        Ok(String::new())
    }
}

/// A tokenizer that answers one given list, whatever the source.
pub struct FixedTok(pub Vec<Lx>);
impl ITokenization for FixedTok {
    type Token = Tk;
    fn tokenize(&self, _: &Code) -> Result<Vec<Lex<Tk>>, ParseError> {
        Ok(to_lib(&self.0))
    }
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        Ok(String::new())
    }
}

/// The fixed token system of the grammar properties.
pub fn s1() -> LexSpec {
    let p = |s: &str, t: u8| (s.to_string(), t);
    LexSpec {
        states: vec![(
            0,
            vec![
                LexS::Pat(3, Re::Rep(Box::new(Re::Lit(" ".into())), 1, true, true)),
                LexS::Punct(vec![p("=", 6), p("==", 8), p("+", 4), p("\n", 7), p("a", 0), p("b", 1)]),
                LexS::Pat(7, Re::Cat(vec![Re::Lit("#".into()), Re::Rep(Box::new(Re::Cls(vec![(b'0', b'9')])), 0, true, true)])),
                LexS::Pat(2, Re::Alt(vec![Re::Rep(Box::new(Re::Cls(vec![(b'x', b'z')])), 1, true, true), Re::Lit("é".into())])),
                LexS::Pat(1, Re::High),
            ],
        )],
        plain: true,
    }
}
pub fn s1_spell(t: &mut Tape, k: u8, out: &mut Vec<u8>) {
    let s: &[&[u8]] = match k {
        0 => &[b"a"],
        1 => &[b"b", b"b", b"b", b"\x80", b"\xff"],
        2 => &[b"x", b"y", b"zy", "é".as_bytes()],
        4 => &[b"+"],
        6 => &[b"="],
        8 => &[b"=="],
        3 => &[b" ", b"  "],
        7 => &[b"\n", b"#", b"#12"],
        _ => &[b"~"],
    };
    let one = t.pick(s);
    out.extend_from_slice(one);
    // long tokens
    if matches!(k, 2 | 3 | 7) && one[0] < 0x80 && one[0] != b'\n' && t.chance(1, 150) {
        let n = *t.pick(&[20usize, 31, 32, 63, 64, 100, 127, 128, 256, 300]);
        let n = if t.chance(1, 150) { 65_536 - t.below(4) } else { n };
        let b = match k {
            2 => b'y',
            3 => b' ',
            _ => {
                if one == b"#" {
                    out.push(b'7');
                }
                b'8'
            }
        };
        out.extend(std::iter::repeat(b).take(n));
    }
}

// ------------------------------------------------------------------ generation

#[derive(Clone)]
pub struct LCfg {
    pub states: usize,
    pub decorators: bool,
    pub state_actions: bool,
    pub max_lexemes: usize,
    pub word_boundary: bool,
    /// weights of Pat, Punct, Consts
    pub w: [usize; 3],
}
impl Default for LCfg {
    fn default() -> Self {
        LCfg { states: 1, decorators: true, state_actions: false, max_lexemes: 5, word_boundary: true, w: [5, 3, 2] }
    }
}
const KINDS: &[u8] = &[0, 1, 2, 3, 4, 6, 7, 8, 9, 11];
pub const SPELL: &[&str] = &["a", "ab", "abc", "abcd", "aa", "b", "bc", "+", "++", "+++", "=", "==", "=>", "<", "<=", "<=>", "é", "è", "\n", " ", "1", "12", ".", "..."];

pub fn gen_set(t: &mut Tape, n: usize, pool: &[&str]) -> Vec<(String, u8)> {
    let mut v: Vec<(String, u8)> = vec![];
    for _ in 0..n {
        let mut s = t.pick(pool).to_string();
        if n > 20 {
            // large sets need more spellings than the pool has
            for _ in 0..t.below(3) {
                s.push_str(t.pick(pool));
            }
        }
        if t.chance(1, 5) {
            // derived spelling: extension of another one by several characters
            if let Some((b, _)) = v.last() {
                s = format!("{}{}", b, t.pick(&["a", "b", "ab", "=", "+>", "é"]));
            }
        }
        if t.chance(1, 60) && s.len() < 12 {
            // a long spelling, maybe next to a long prefix of it
            s = s.repeat(*t.pick(&[3usize, 9, 17, 33, 70, 130, 300]));
            if t.chance(1, 2) {
                s.push_str(t.pick(pool));
            }
        }
        if v.iter().all(|(x, _)| *x != s) {
            v.push((s, *t.pick(KINDS)));
        }
    }
    v
}
/// Mostly lo..=hi, now and then many more.
pub fn size(t: &mut Tape, lo: usize, hi: usize, big: usize) -> usize {
    let n = t.range(lo, hi);
    if n == hi && t.chance(1, 12) {
        t.range(hi, big)
    } else {
        n
    }
}
fn gen_act(t: &mut Tape, names: &[u8]) -> Act {
    let k = match t.weighted(&[2, 4, 2, 4]) {
        0 => ActK::None,
        1 => ActK::App(*t.pick(names)),
        2 => ActK::Sw(*t.pick(names)),
        _ => ActK::Pop,
    };
    Act { k, discard: t.chance(1, 4) }
}
pub fn gen_lexeme(t: &mut Tape, c: &LCfg, names: &[u8]) -> LexS {
    let mut l = match t.weighted(&c.w) {
        0 => {
            let mut r = re::gen(t, 2, false);
            if c.word_boundary && t.chance(1, 12) {
                r = match t.below(4) {
                    0 => Re::Alt(vec![r, Re::Wb]),
                    1 => Re::Alt(vec![Re::Wb, r]),
                    2 => Re::Cat(vec![r, Re::Wb]),
                    _ => Re::Cat(vec![Re::Wb, r]),
                };
            }
            let r = re::ending(t, r);
            LexS::Pat(*t.pick(KINDS), r)
        }
        1 => {
            let n = size(t, 1, 5, 40);
            LexS::Punct(gen_set(t, n, SPELL))
        }
        _ => {
            let n = size(t, 1, 4, 40);
            LexS::Consts(gen_set(t, n, SPELL))
        }
    };
    if c.decorators {
        let n = t.weighted(&[4, 3, 2, 1]);
        for _ in 0..n {
            let b = Box::new(l);
            l = match t.below(3) {
                0 => {
                    let n = size(t, 1, 4, 30);
                    let mut v = gen_set(t, n, SPELL);
                    // some mapped spellings are texts the wrapped lexeme matches
                    if t.chance(1, 2) {
                        let mut s = vec![];
                        b.spell(t, &mut s);
                        if let Ok(s) = String::from_utf8(s) {
                            if v.iter().all(|(x, _)| *x != s) {
                                v.push((s, *t.pick(KINDS)));
                            }
                        }
                    }
                    LexS::Map(b, v)
                }
                1 => LexS::Thunk(b, t.below(50) as u64),
                _ => LexS::Mid(b, t.below(50) as u64),
            };
        }
    }
    if c.state_actions && t.chance(2, 3) {
        let b = Box::new(l);
        l = if t.chance(2, 3) {
            let n = t.range(1, 4);
            let mut v: Vec<(u8, Act)> = vec![];
            let own = kinds_of(&b);
            for _ in 0..n {
                let k = if t.chance(3, 4) && !own.is_empty() { *t.pick(&own) } else { *t.pick(KINDS) };
                if v.iter().all(|(x, _)| *x != k) {
                    v.push((k, gen_act(t, names)));
                }
            }
            LexS::State(b, v)
        } else {
            LexS::ThState(b, t.below(50) as u64, names.to_vec())
        };
        // decorators around a lexeme that changes the state
        while c.decorators && t.chance(1, 3) {
            let b = Box::new(l);
            l = match t.below(4) {
                0 => LexS::Thunk(b, t.below(50) as u64),
                1 => LexS::Map(b, gen_set(t, 2, SPELL)),
                2 => LexS::Mid(b, t.below(50) as u64),
                _ => {
                    let own = kinds_of(&b);
                    let k = if own.is_empty() { 0 } else { *t.pick(&own) };
                    LexS::State(b, vec![(k, gen_act(t, names))])
                }
            };
        }
    }
    l
}
pub fn kinds_of(l: &LexS) -> Vec<u8> {
    match l {
        LexS::Pat(t, _) => vec![*t],
        LexS::Punct(v) | LexS::Consts(v) => v.iter().map(|x| x.1).collect(),
        LexS::Map(x, v) => {
            let mut o = kinds_of(x);
            o.extend(v.iter().map(|x| x.1));
            o
        }
        LexS::Thunk(x, _) | LexS::Mid(x, _) | LexS::State(x, _) | LexS::ThState(x, _, _) => kinds_of(x),
    }
}
pub fn gen_spec(t: &mut Tape, c: &LCfg) -> LexSpec {
    let n = if c.states > 1 { t.range(1, c.states) } else { 1 };
    // state names in arbitrary order; the default may be any of them
    let mut names: Vec<u8> = vec![];
    while names.len() < n {
        let mut k = t.below(9) as u8;
        while names.contains(&k) {
            k = (k + 1) % 9;
        }
        names.push(k);
    }
    let mut states = vec![];
    for i in 0..n {
        let m = size(t, 1, c.max_lexemes, 24);
        let mut v: Vec<LexS> = (0..m).map(|_| gen_lexeme(t, c, &names)).collect();
        if t.chance(2, 3) {
            // a fallback so that tokenizations get far
            v.push(LexS::Pat(9, Re::Cls(vec![(b' ', b'~')])));
            if t.chance(1, 2) {
                v.push(LexS::Pat(11, Re::Alt(vec![Re::High, Re::Lit("\n".into())])));
            }
        }
        states.push((names[i], v));
    }
    LexSpec { states, plain: c.states <= 1 }
}
fn heavy(s: &LexSpec) -> bool {
    s.states.iter().any(|(_, v)| v.iter().any(|l| l.any(&|x| matches!(x, LexS::Thunk(..) | LexS::Mid(..) | LexS::ThState(..)))))
}
/// An input: spellings of the lexemes, some damaged, some random bytes; rarely a large one.
pub fn gen_input(t: &mut Tape, s: &LexSpec, max: usize) -> Vec<u8> {
    let mut out = gen_input_(t, s, max);
    edges(t, &mut out);
    bound(s, &mut out);
    out
}
/// Now and then text at the ends of a source that some programs treat specially.
pub fn edges(t: &mut Tape, out: &mut Vec<u8>) {
    if t.chance(1, 40) {
        let mut v: Vec<u8> = t.pick(&["\u{feff}", "\r\n", "\n", "\0", "#!/a\n", " ", "\u{fffe}", "\u{200b}"]).as_bytes().to_vec();
        v.append(out);
        *out = v;
    } else if t.chance(1, 40) {
        out.extend_from_slice(t.pick(&["\n", "\r\n", "\r", "\0", "\u{1a}", "\u{feff}", " ", "\n\n", "\u{a0}"]).as_bytes());
    }
}
/// Keep the cost of tokenizing a generated text bounded.
pub fn bound(s: &LexSpec, out: &mut Vec<u8>) {
    // closures see the whole code and all tokens
    out.truncate(if heavy(s) { 600 } else { 70_000 });
    if out.len() > 600 {
        // expressions that look far ahead for every short token
        crate::re::WORK.with(|w| w.set(0));
        crate::re::WORK_LIMIT.with(|w| w.set(3_000_000));
        let _ = s.tokenize(out);
        crate::re::WORK_LIMIT.with(|w| w.set(u64::MAX));
        if crate::re::WORK.with(|w| w.get()) > 3_000_000 {
            out.truncate(600)
        }
    }
}
fn gen_input_(t: &mut Tape, s: &LexSpec, max: usize) -> Vec<u8> {
    let mut out = vec![];
    match t.below(160) {
        159 => {
            // long runs: repeated spellings (long tokens or many tokens, deep state stacks)
            let cap = *t.pick(if heavy(s) { &[60, 140, 300, 600][..] } else { &[140, 300, 600, 1200, 5000, 70_000][..] });
            let cap = if cap > 5000 && !t.chance(1, 8) { 2500 } else { cap };
            let k = t.range(1, 3);
            let part = cap / k;
            for _ in 0..k {
                let d = t.below(2);
                input_part(t, s, &mut out, d);
                let mut unit = vec![];
                while unit.len() < 1 + t.below(3) {
                    let before = unit.len();
                    input_part(t, s, &mut unit, 0);
                    if unit.len() == before {
                        break;
                    }
                }
                if unit.is_empty() {
                    unit.push(b'a');
                }
                let n = part / unit.len() + t.below(2);
                for _ in 0..n {
                    out.extend_from_slice(&unit)
                }
            }
            input_part(t, s, &mut out, 2);
            return out;
        }
        158 => {
            // many different tokens
            let n = t.range(max, if heavy(s) { 80 } else { 300 });
            for _ in 0..n {
                input_part(t, s, &mut out, 0)
            }
            return out;
        }
        _ => {}
    }
    let n = t.below(max + 1);
    for _ in 0..n {
        input_part(t, s, &mut out, 2)
    }
    out
}
fn input_part(t: &mut Tape, s: &LexSpec, out: &mut Vec<u8>, damage: usize) {
    match t.weighted(&[12, damage, damage / 2, damage / 2]) {
        0 => {
            let st = t.pick(&s.states);
            t.pick(&st.1).spell(t, out)
        }
        1 => out.extend_from_slice(t.pick(SPELL).as_bytes()),
        2 => {
            // a damaged spelling: last byte dropped
            let st = t.pick(&s.states);
            let mut b = vec![];
            t.pick(&st.1).spell(t, &mut b);
            b.pop();
            out.extend(b)
        }
        _ => out.push(t.below(256) as u8),
    }
}

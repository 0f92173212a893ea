//! Builds library objects from grammar specifications.
use crate::gram::*;
use crate::nt::*;
use crate::peg;
use lang_pt::production::*;
use lang_pt::*;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt;
use std::rc::Rc;

thread_local! {
    static STEPS: Cell<usize> = Cell::new(0);
    static LIMIT: Cell<usize> = Cell::new(usize::MAX);
    static DEPTH: Cell<usize> = Cell::new(0);
    static DLIMIT: Cell<usize> = Cell::new(usize::MAX);
    /// (validator id, signature) calls made by the library
    pub static CALLS: RefCell<Vec<(usize, u64)>> = RefCell::new(Vec::new());
    /// (cache key, position) evaluations of cached productions' contents
    pub static EVALS: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new());
}
pub fn budget(steps: usize, depth: usize) {
    STEPS.with(|s| s.set(0));
    DEPTH.with(|s| s.set(0));
    LIMIT.with(|s| s.set(steps));
    DLIMIT.with(|s| s.set(depth));
    CALLS.with(|c| c.borrow_mut().clear());
    EVALS.with(|c| c.borrow_mut().clear());
}
pub fn steps() -> usize {
    STEPS.with(|s| s.get())
}
fn step() {
    let n = STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        n
    });
    if n > LIMIT.with(|l| l.get()) {
        LIMIT.with(|l| l.set(usize::MAX));
        panic!("step budget exceeded: does not terminate or does far more work than the reference");
    }
}
struct Deep;
impl Deep {
    fn enter() -> Deep {
        let n = DEPTH.with(|s| {
            let n = s.get() + 1;
            s.set(n);
            n
        });
        if n > DLIMIT.with(|l| l.get()) {
            DLIMIT.with(|l| l.set(usize::MAX));
            panic!("recursion limit exceeded: unbounded recursion");
        }
        Deep
    }
}
impl Drop for Deep {
    fn drop(&mut self) {
        DEPTH.with(|s| s.set(s.get().saturating_sub(1)));
    }
}

macro_rules! logged {
    ($p:expr, $st:expr, $m:ident) => {
        logged!($p, $st, $m, TL)
    };
    ($p:expr, $st:expr, $m:ident, $l:ty) => {{
        let p = $p;
        if let Some(l) = $st.log() {
            let _ = p.$m(l);
        }
        Rc::new(p) as Rc<Dyn<$l>>
    }};
}

pub type Dyn<TL> = dyn IProduction<Node = <TL as Lang>::N, Token = <TL as Lang>::T>;

/// Sized production delegating to a trait object; counts steps and depth.
pub struct DynProd<TL: Lang> {
    inner: Target<TL>,
    /// records evaluations under a cache construct
    tag: Option<usize>,
}
enum Target<TL: Lang> {
    Own(Rc<Dyn<TL>>),
    /// filled in after all rules exist; the rules outlive every use (owned by `Built`)
    Late(Rc<Cell<Option<*const Dyn<TL>>>>),
}
impl<TL: Lang> DynProd<TL> {
    pub fn own(p: Rc<Dyn<TL>>) -> Self {
        DynProd { inner: Target::Own(p), tag: None }
    }
    fn get(&self) -> &Dyn<TL> {
        match &self.inner {
            Target::Own(p) => &**p,
            Target::Late(c) => unsafe { &*c.get().expect("late reference unresolved") },
        }
    }
    fn note(&self, p: usize) {
        if let Some(k) = self.tag {
            EVALS.with(|e| e.borrow_mut().push((k, p)));
        }
    }
}
impl<TL: Lang> fmt::Display for DynProd<TL> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.get(), f)
    }
}
impl<TL: Lang> IProduction for DynProd<TL> {
    type Node = TL::N;
    type Token = TL::T;
    fn is_nullable(&self) -> bool {
        step();
        let _d = Deep::enter();
        self.get().is_nullable()
    }
    fn is_nullable_n_hidden(&self) -> bool {
        step();
        let _d = Deep::enter();
        self.get().is_nullable_n_hidden()
    }
    fn obtain_nullability<'id>(&'id self, v: HashMap<&'id str, usize>) -> Result<bool, ImplementationError> {
        step();
        let _d = Deep::enter();
        self.get().obtain_nullability(v)
    }
    fn impl_first_set(&self, s: &mut HashSet<TL::T>) {
        step();
        let _d = Deep::enter();
        self.get().impl_first_set(s)
    }
    fn impl_grammar(&self, w: &mut dyn fmt::Write, a: &mut HashSet<&'static str>) -> Result<(), fmt::Error> {
        step();
        let _d = Deep::enter();
        self.get().impl_grammar(w, a)
    }
    fn validate<'id>(&'id self, c: HashMap<&'id str, usize>, v: &mut HashSet<&'id str>) -> Result<(), ImplementationError> {
        step();
        let _d = Deep::enter();
        self.get().validate(c, v)
    }
    fn advance_fltr_ptr(&self, code: &Code, i: FltrPtr, s: &TokenStream<TL::T>, c: &mut Cache<FltrPtr, TL::N>) -> ParsedResult<FltrPtr, TL::N> {
        step();
        if self.tag.is_some() {
            self.note(i.to_string().parse().unwrap_or(usize::MAX));
        }
        let _d = Deep::enter();
        self.get().advance_fltr_ptr(code, i, s, c)
    }
    fn advance_token_ptr(&self, code: &Code, i: TokenPtr, s: &TokenStream<TL::T>, c: &mut Cache<FltrPtr, TL::N>) -> ParsedResult<TokenPtr, TL::N> {
        step();
        let _d = Deep::enter();
        self.get().advance_token_ptr(code, i, s, c)
    }
    fn advance_ptr(&self, code: &Code, i: usize, c: &mut Cache<usize, TL::N>) -> ParsedResult<usize, TL::N> {
        step();
        self.note(i);
        let _d = Deep::enter();
        self.get().advance_ptr(code, i, c)
    }
}

/// A token type together with a node type; what is built must not depend on either.
pub trait Lang: 'static {
    type T: Tok;
    type N: Nk;
}
pub struct L<T, N>(std::marker::PhantomData<(T, N)>);
impl<T: Tok, N: Nk> Lang for L<T, N> {
    type T = T;
    type N = N;
}
/// The languages of most properties.
pub type LB = L<i8, Nd>;
pub type LT = L<Tk, Nd>;
fn n<N: Nk>(v: &Option<u8>) -> Option<N> {
    v.map(N::nd)
}
fn terminal<TL: Lang>(g: &G, st: &Style) -> Rc<Dyn<TL>> {
    match g {
        G::Tok(k, v) => logged!(TokenField::<TL::N, TL::T>::new(TL::T::tok(*k), n(v)), st, set_log),
        G::TokSet(v, true) => logged!(TokenFieldSet::<TL::N, TL::T>::with_value(n(&v[0].1), v.iter().map(|(k, _)| TL::T::tok(*k)).collect()), st, assign_debugger),
        G::TokSet(v, _) => logged!(TokenFieldSet::<TL::N, TL::T>::new(v.iter().map(|(k, x)| (TL::T::tok(*k), n(x))).collect()), st, assign_debugger),
        _ => *bytes::<TL::N>(g, st).downcast::<Rc<Dyn<TL>>>().expect("byte terminals have tokens of type i8"),
    }
}
/// Terminals over bytes; an `Rc<dyn IProduction<Node = N, Token = i8>>`.
fn bytes<N: Nk>(g: &G, st: &Style) -> Box<dyn std::any::Any> {
    let p: Rc<Dyn<L<i8, N>>> = match g {
        G::Str(s, v) => logged!(ConstantField::new(s, n(v)), st, assign_debugger, L<i8, N>),
        G::StrSet(v) => logged!(ConstantFieldSet::new(v.iter().map(|(s, x)| (s.as_str(), n(x))).collect()), st, assign_debugger, L<i8, N>),
        G::Punct(v) => logged!(PunctuationsField::new(v.iter().map(|(s, x)| (s.as_str(), n(x))).collect()).expect("valid punctuation field"), st, assign_debugger, L<i8, N>),
        G::Regex(r, v) => logged!(RegexField::new(&r.anchored(), n(v)).expect("valid regex field"), st, assign_debugger, L<i8, N>),
        _ => panic!("not a terminal: {:?}", g),
    };
    Box::new(p)
}

/// How to build (never what to build).
#[derive(Clone)]
pub struct Style {
    /// per construct pseudo-random choices
    pub seed: u64,
    /// use the builder shorthands where the seed says so
    pub shorthand: bool,
    /// define rules at construction instead of afterwards where the seed says so
    pub direct: bool,
    pub second_assign: bool,
    pub logs: bool,
    /// rules left without definition
    pub unset: Vec<usize>,
    pub drop_cache: bool,
    /// rule names for wrappers
    pub names: bool,
    /// equal sub-expressions become one shared object; None: depends on the grammar
    pub share: Option<bool>,
    pub ctr: Cell<u64>,
}
impl Default for Style {
    fn default() -> Self {
        Style { seed: 0, shorthand: false, direct: false, second_assign: false, logs: false, unset: vec![], drop_cache: false, names: false, share: None, ctr: Cell::new(0) }
    }
}
impl Style {
    fn draw(&self) -> u64 {
        let c = self.ctr.get() + 1;
        self.ctr.set(c);
        let mut z = self.seed ^ c.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^ (z >> 31)
    }
    pub fn flip(&self, on: bool) -> bool {
        on && self.draw() & 1 == 1
    }
    pub fn log(&self) -> Option<Log<&'static str>> {
        if !self.logs {
            return None;
        }
        Some(match self.draw() % 6 {
            0 => return None,
            1 => Log::None,
            2 => Log::Default("L1"),
            3 => Log::Success("L2"),
            4 => Log::Result("L3"),
            _ => Log::Verbose("L4"),
        })
    }
}

pub const RULE_IDS: [&str; 48] = [
    "R0", "R1", "R2", "R3", "R4", "R5", "R6", "R7", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "R15",
    "R16", "R17", "R18", "R19", "R20", "R21", "R22", "R23", "R24", "R25", "R26", "R27", "R28", "R29", "R30", "R31",
    "R32", "R33", "R34", "R35", "R36", "R37", "R38", "R39", "R40", "R41", "R42", "R43", "R44", "R45", "R46", "R47",
];

pub enum RuleObj<TL: Lang> {
    C(Rc<Concat<TL::N, TL::T>>),
    U(Rc<Union<TL::N, TL::T>>),
    S(Rc<Suffixes<DynProd<TL>>>),
}
pub struct Built<TL: Lang> {
    pub rules: Vec<RuleObj<TL>>,
    late: Vec<Rc<Cell<Option<*const Dyn<TL>>>>>,
    /// complaints about builder behaviour (refused first assignment etc.)
    pub odd: Option<String>,
}
impl<TL: Lang> Built<TL> {
    pub fn rule(&self, i: usize) -> Rc<Dyn<TL>> {
        match &self.rules[i] {
            RuleObj::C(r) => r.clone(),
            RuleObj::U(r) => r.clone(),
            RuleObj::S(r) => r.clone(),
        }
    }
    /// Root with step counting.
    pub fn root(&self, i: usize) -> Rc<Dyn<TL>> {
        Rc::new(DynProd::<TL>::own(self.rule(i)))
    }
    pub fn counted(&self, i: usize) -> Rc<DynProd<TL>> {
        Rc::new(DynProd::<TL>::own(self.rule(i)))
    }
}
impl<TL: Lang> Drop for Built<TL> {
    fn drop(&mut self) {
        for l in &self.late {
            l.set(None);
        }
    }
}

pub fn build<TL: Lang>(gr: &Gram, st: &Style) -> Built<TL> {
    let share = st.share.unwrap_or_else(|| crate::engine::fnv(gr.show().as_bytes()) >> 9 & 1 == 1);
    SHARED.with(|m| *m.borrow_mut() = if share { Some(HashMap::new()) } else { None });
    let b = build_::<TL>(gr, st);
    SHARED.with(|m| *m.borrow_mut() = None);
    b
}
thread_local! {
    /// objects built so far, by printed sub-expression
    static SHARED: RefCell<Option<HashMap<String, Rc<dyn std::any::Any>>>> = RefCell::new(None);
}
fn build_<TL: Lang>(gr: &Gram, st: &Style) -> Built<TL> {
    let late: Vec<Rc<Cell<Option<*const Dyn<TL>>>>> = gr.rules.iter().map(|_| Rc::new(Cell::new(None))).collect();
    let mut b = Built { rules: vec![], late, odd: None };
    let mut pending: Vec<(usize, Option<Vec<Rc<Dyn<TL>>>>, Option<Vec<(Rc<Dyn<TL>>, TL::N)>>)> = vec![];
    for (i, r) in gr.rules.iter().enumerate() {
        let id = RULE_IDS[i];
        let direct = st.flip(st.direct) && !st.unset.contains(&i);
        let syms = |v: &Vec<G>| -> Vec<Rc<Dyn<TL>>> { v.iter().map(|g| expr::<TL>(g, st, &b.late)).collect() };
        let (obj, pend) = match r {
            Rule::Concat(v) => {
                let s = syms(v);
                if direct {
                    (RuleObj::C(Rc::new(Concat::new(id, s))), None)
                } else {
                    (RuleObj::C(Rc::new(Concat::init(id))), Some((i, Some(s), None)))
                }
            }
            Rule::Union(v) => {
                let s = syms(v);
                if direct {
                    (RuleObj::U(Rc::new(Union::new(id, s))), None)
                } else {
                    (RuleObj::U(Rc::new(Union::init(id))), Some((i, Some(s), None)))
                }
            }
            Rule::Suffixes(l, standalone, v) => {
                let s: Vec<(Rc<Dyn<TL>>, TL::N)> = v.iter().map(|(g, k)| (expr::<TL>(g, st, &b.late), TL::N::nd(*k))).collect();
                if direct {
                    (RuleObj::S(Rc::new(Suffixes::new(id, &rc::<TL>(l, st, &b.late), *standalone, s))), None)
                } else if st.flip(st.shorthand) {
                    // the shorthand's extra type parameter is unused
                    (RuleObj::S(Rc::new(sized::<TL>(l, st, &b.late).into_suffixes::<NullProd<TL::N, TL::T>>(id, *standalone))), Some((i, None, Some(s))))
                } else {
                    (RuleObj::S(Rc::new(Suffixes::init(id, &rc::<TL>(l, st, &b.late), *standalone))), Some((i, None, Some(s))))
                }
            }
        };
        if let Some(l) = st.log() {
            let _ = match &obj {
                RuleObj::C(r) => r.set_log(l),
                RuleObj::U(r) => r.set_log(l),
                RuleObj::S(r) => r.set_log(l),
            };
        }
        b.rules.push(obj);
        pending.extend(pend);
    }
    // assign in an order depending on the style
    if st.flip(st.direct) {
        pending.reverse();
    }
    for (i, s, x) in pending {
        if st.unset.contains(&i) {
            continue;
        }
        let r = match (&b.rules[i], s, x) {
            (RuleObj::C(r), Some(s), _) => r.set_symbols(s),
            (RuleObj::U(r), Some(s), _) => r.set_symbols(s),
            (RuleObj::S(r), _, Some(x)) => r.set_suffixes(x),
            _ => unreachable!(),
        };
        if let Err(e) = r {
            b.odd = Some(format!("first assignment of {} refused: {}", RULE_IDS[i], e));
        }
    }
    for i in 0..b.rules.len() {
        let p: *const Dyn<TL> = match &b.rules[i] {
            RuleObj::C(r) => Rc::as_ptr(r) as *const Dyn<TL>,
            RuleObj::U(r) => Rc::as_ptr(r) as *const Dyn<TL>,
            RuleObj::S(r) => Rc::as_ptr(r) as *const Dyn<TL>,
        };
        b.late[i].set(Some(p));
    }
    if st.second_assign {
        for i in 0..b.rules.len() {
            if st.unset.contains(&i) {
                continue;
            }
            let extra: Rc<Dyn<TL>> = Rc::new(NullProd::<TL::N, TL::T>::new());
            let r = match &b.rules[i] {
                RuleObj::C(r) => r.set_symbols(vec![extra]),
                RuleObj::U(r) => r.set_symbols(vec![extra]),
                RuleObj::S(r) => r.set_suffixes(vec![(extra, TL::N::nd(1))]),
            };
            if r.is_ok() {
                b.odd = Some(format!("second assignment of {} accepted", RULE_IDS[i]));
            }
        }
    }
    b
}

fn expr<TL: Lang>(g: &G, st: &Style, late: &[Rc<Cell<Option<*const Dyn<TL>>>>]) -> Rc<Dyn<TL>> {
    Rc::new(sized::<TL>(g, st, late))
}

fn vclosure<N: Nk>(f: &VFn) -> impl Fn(&Vec<ASTNode<N>>, &[u8]) -> Result<(), ProductionError> {
    let f = f.clone();
    move |v: &Vec<ASTNode<N>>, code: &[u8]| {
        let t = from_asts(v);
        CALLS.with(|c| c.borrow_mut().push((f.id, peg::sig(&t, code))));
        match peg::decide(&f, &t, code) {
            Ok(()) => Ok(()),
            Err(peg::E::Un) => Err(ProductionError::Unparsed),
            Err(peg::E::Val(p, m)) => Err(ProductionError::Validation(p, m)),
            Err(peg::E::Budget) => unreachable!(),
        }
    }
}

fn rc<TL: Lang>(g: &G, st: &Style, late: &[Rc<Cell<Option<*const Dyn<TL>>>>]) -> Rc<DynProd<TL>> {
    if SHARED.with(|m| m.borrow().is_none()) {
        return Rc::new(sized_::<TL>(g, st, late));
    }
    let key = show(g);
    if let Some(p) = SHARED.with(|m| m.borrow().as_ref().and_then(|m| m.get(&key).cloned())) {
        return p.downcast::<DynProd<TL>>().expect("one token type per build");
    }
    let p = Rc::new(sized_::<TL>(g, st, late));
    SHARED.with(|m| m.borrow_mut().as_mut().map(|m| m.insert(key, p.clone())));
    p
}
fn sized<TL: Lang>(g: &G, st: &Style, late: &[Rc<Cell<Option<*const Dyn<TL>>>>]) -> DynProd<TL> {
    if matches!(g, G::Ref(_)) || SHARED.with(|m| m.borrow().is_none()) {
        return sized_(g, st, late);
    }
    DynProd::own(rc::<TL>(g, st, late))
}
fn sized_<TL: Lang>(g: &G, st: &Style, late: &[Rc<Cell<Option<*const Dyn<TL>>>>]) -> DynProd<TL> {
    let sub = |x: &G| -> DynProd<TL> { sized::<TL>(x, st, late) };
    let rcs = |x: &G| -> Rc<DynProd<TL>> { rc::<TL>(x, st, late) };
    let sh = st.flip(st.shorthand);
    let p: Rc<Dyn<TL>> = match g {
        G::Ref(i) => return DynProd { inner: Target::Late(late[*i].clone()), tag: None },
        G::Null => logged!(NullProd::<TL::N, TL::T>::new(), st, set_log),
        G::NullHidden => logged!(NullProd::<TL::N, TL::T>::hidden(), st, set_log),
        G::Eof(v) => logged!(EOFProd::<TL::N, TL::T>::new(n(v)), st, assign_debugger),
        G::Nullable(x) => {
            logged!(if sh { sub(x).into_nullable() } else { Nullable::new(&rcs(x)) }, st, set_log)
        }
        G::NullHid(x) => {
            logged!(if sh { sub(x).into_null_hidden() } else { Nullable::hidden(&rcs(x)) }, st, set_log)
        }
        G::List(x) => {
            logged!(if sh { sub(x).into_list() } else { List::new(&rcs(x)) }, st, assign_debugger)
        }
        G::Sep(x, s, i) => {
            let s = rcs(s);
            let p = if sh { sub(x).into_separated_list(&s, *i) } else { SeparatedList::new(&rcs(x), &s, *i) };
            if let Some(n) = name_of(g, st.names) {
                let _ = p.set_rule_name(n);
            }
            logged!(p, st, assign_debugger)
        }
        G::Hidden(x) => {
            let p = if sh {
                sub(x).into_hidden()
            } else if st.flip(true) {
                Hidden::hidden(&rcs(x))
            } else {
                Hidden::new(&rcs(x))
            };
            if let Some(n) = name_of(g, st.names) {
                let _ = p.set_rule_name(n);
            }
            logged!(p, st, set_log)
        }
        G::Node(x, v) => {
            let p = if sh { sub(x).into_node(TL::N::nd(*v)) } else { Node::new(&rcs(x), TL::N::nd(*v)) };
            if let Some(n) = name_of(g, st.names) {
                let _ = p.set_rule_name(n);
            }
            logged!(p, st, set_log)
        }
        G::Look(x, v) => {
            logged!(if sh { sub(x).into_lookahead(n(v)) } else { Lookahead::new(&rcs(x), n(v)) }, st, assign_debugger)
        }
        G::NonStr(x, f) => logged!(NonStructural::new(&rcs(x), *f), st, set_log),
        G::Struct(x) => logged!(Structural::new(&rcs(x)), st, set_log),
        G::Cache(x, k) => {
            let mut x = sub(x);
            if st.drop_cache {
                return x;
            }
            if x.tag.is_some() {
                // never share a tag
                x = DynProd::own(Rc::new(x));
            }
            x.tag = Some(*k);
            logged!(Cacheable::new(cache_key(*k), &Rc::new(x)), st, assign_debugger)
        }
        G::Valid(x, f) => {
            let f = vclosure::<TL::N>(f);
            if sh {
                logged!(sub(x).validate_with(f), st, assign_debugger)
            } else {
                logged!(Validator::new(&rcs(x), f), st, assign_debugger)
            }
        }
        _ => terminal::<TL>(g, st),
    };
    DynProd::own(p)
}

thread_local! {
    static NAMES: RefCell<HashMap<u64, &'static str>> = RefCell::new(HashMap::new());
}
/// Rule names given to some wrappers; a function of the construct, so equal constructs
/// share a name and a definition.
pub fn name_of(g: &G, on: bool) -> Option<&'static str> {
    if !on || !matches!(g, G::Hidden(_) | G::Node(..) | G::Sep(..)) {
        return None;
    }
    let h = crate::engine::fnv(show(g).as_bytes());
    if h >> 7 & 1 == 0 {
        return None;
    }
    Some(NAMES.with(|n| *n.borrow_mut().entry(h).or_insert_with(|| Box::leak(format!("W{:x}", h).into_boxed_str()))))
}

pub fn cache_key(k: usize) -> CacheKey {
    CacheKey::verif_new(k)
}

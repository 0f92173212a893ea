//! Properties about tokenization, literal sets, positions and token streams.
use crate::engine::*;
use crate::lexs::*;
use crate::nt::*;
use crate::re::{self, Re};
use crate::tape::Tape;
use lang_pt::lexeme::*;
use lang_pt::production::*;
use lang_pt::*;

pub fn show_bytes(b: &[u8]) -> String {
    let mut o = String::from("b\"");
    for c in b {
        o.push_str(&std::ascii::escape_default(*c).to_string());
    }
    o.push('"');
    o
}
pub fn fail<T>(msg: impl Into<String>, desc: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), desc: desc.into() })
}

pub type Toks = Result<Vec<Lx>, usize>;
pub fn lib_tok(t: &DynTok, code: &[u8]) -> Result<Toks, String> {
    lex_budget(400 * (code.len() + 2));
    guard(|| {
        let c = Code::new(code);
        match t.tokenize(&c) {
            Ok(v) => Ok(lxs(&v)),
            Err(e) => {
                LAST.with(|l| *l.borrow_mut() = e.message);
                Err(e.pointer)
            }
        }
    })
}
thread_local! {
    /// the message of the last failure
    static LAST: std::cell::RefCell<String> = Default::default();
}
fn ref_tok(s: &LexSpec, code: &[u8]) -> (Toks, Info) {
    let (r, i) = s.tokenize_info(code);
    (r.map_err(|e| e.0), i)
}
fn shrunk_spec(s: &LexSpec, input: &[u8], want: &Toks, got: &str) -> String {
    format!("{}input {}\nexpected {:?}\ngot      {}", s.show(), show_bytes(input), want, got)
}

/// Compare the library with the reference on some inputs.
fn tok_case(t: &mut Tape, c: &Ctx, s: &LexSpec, tok: &DynTok, n: usize, nontrivial: &dyn Fn(&[u8], &Toks, &Info) -> bool, labels: &mut Vec<&'static str>) -> Result<(bool, String), Fail> {
    let mut nt = false;
    let mut desc = String::new();
    for i in 0..n {
        let input = if i == 0 && t.chance(1, 8) { vec![] } else { gen_input(t, s, 14) };
        let (want, info) = ref_tok(s, &input);
        match lib_tok(tok, &input) {
            Err(p) => return fail(format!("tokenization panicked: {}", p), shrunk_spec(s, &input, &want, "panic")),
            Ok(got) => {
                if got != want {
                    return fail("tokens differ from the reference", shrunk_spec(s, &input, &want, &format!("{:?}", got)));
                }
            }
        }
        if want.is_ok() {
            labels.push("accepted");
        } else {
            labels.push("rejected");
        }
        if info.discards {
            labels.push("discarded match");
        }
        if info.left_default {
            labels.push("state stack used");
        }
        if input.is_empty() {
            labels.push("empty input");
        }
        if nontrivial(&input, &want, &info) {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = format!("{}input {} -> {:?}", s.show(), show_bytes(&input), want);
            }
        }
    }
    Ok((nt, desc))
}
fn built(s: &LexSpec, st: LStyle) -> Result<DynTok, Fail> {
    match guard(|| build_tok(s, st)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => fail(format!("a well-formed lexeme definition was rejected: {}", e), s.show()),
        Err(p) => fail(format!("panic while building the tokenizer: {}", p), s.show()),
    }
}

pub fn c01(t: &mut Tape, c: &Ctx) -> CaseResult {
    let stateful = t.chance(1, 2);
    let cfg = LCfg { states: if stateful { 3 } else { 1 }, state_actions: stateful, ..LCfg::default() };
    let s = gen_spec(t, &cfg);
    let tok = built(&s, LStyle::default())?;
    let mut labels = vec![if stateful { "combined tokenizer" } else { "plain tokenizer" }];
    let mut nt = false;
    let mut desc = String::new();
    for i in 0..5 {
        let input = if i == 0 && t.chance(1, 6) { vec![] } else { gen_input(t, &s, 14) };
        let want = s.tokenize(&input);
        let d = || format!("{}input {}", s.show(), show_bytes(&input));
        let got = match lib_tok(&tok, &input) {
            Err(p) => return fail(format!("tokenization panicked: {}", p), d()),
            Ok(g) => g,
        };
        match (&got, &want) {
            (Ok(v), _) => {
                let n = v.len();
                if n == 0 || v[n - 1] != (Lx { t: EOF, s: input.len(), e: input.len() }) {
                    return fail("no single zero-width end-of-file token at the input length", format!("{}\ngot {:?}", d(), v));
                }
                let mut p = 0;
                for l in &v[..n - 1] {
                    if l.s != p || l.e <= l.s || l.e > input.len() || l.t == EOF {
                        return fail("tokens are not a gap-free cover by non-empty tokens", format!("{}\ngot {:?}", d(), v));
                    }
                    p = l.e;
                }
                if p != input.len() {
                    return fail("tokens do not end at the end of the input", format!("{}\ngot {:?}", d(), v));
                }
                if let Err((p, _)) = &want {
                    return fail(format!("tokenization succeeded although no active lexeme yields a token at {}", p), format!("{}\ngot {:?}", d(), v));
                }
                labels.push("accepted");
                nt |= n > 3;
            }
            (Err(p), Ok(w)) => return fail(format!("tokenization failed at {} although a cover exists", p), format!("{}\nexpected {:?}", d(), w)),
            (Err(p), Err((w, _))) => {
                if p != w {
                    return fail(format!("failure reported at {} but the longest cover ends at {}", p, w), d());
                }
                let m = LAST.with(|l| l.borrow().clone());
                if let Err(e) = crate::p_gram::named(&input, *p, &m) {
                    return fail(e, d());
                }
                labels.push("rejected");
                nt |= *p > 2;
            }
        }
        if c.want_desc && nt && desc.is_empty() {
            desc = format!("{} -> {:?}", d(), got);
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

pub fn c02(t: &mut Tape, c: &Ctx) -> CaseResult {
    let cfg = LCfg { decorators: false, max_lexemes: 6, ..LCfg::default() };
    let s = gen_spec(t, &cfg);
    let tok = built(&s, LStyle::default())?;
    let mut labels = vec![];
    let (nt, desc) = tok_case(t, c, &s, &tok, 6, &|_, w, i| i.later_lexeme && w.as_ref().map_or(false, |v| v.len() > 3), &mut labels)?;
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

pub fn c03(t: &mut Tape, c: &Ctx) -> CaseResult {
    // literal sets with dense prefix relations
    let alpha: &[&str] = *t.pick(&[&["a", "b"][..], &["=", "<", ">"][..], &["a", "é", "\n"][..], &["x", "xy", "yz"][..]]);
    let n = size(t, 1, 7, 60);
    let mut set: Vec<(String, u8)> = vec![];
    for _ in 0..n {
        let m = size(t, 1, 5, 45);
        let mut s: String = (0..m).map(|_| *t.pick(alpha)).collect();
        if t.chance(1, 100) {
            s = s.repeat(*t.pick(&[8usize, 40, 90, 150, 300]));
        } else if t.chance(1, 10) && !set.is_empty() {
            // extends or shortens another spelling
            let o = t.pick(&set).0.clone();
            s = if t.chance(1, 2) { o + &s } else { o.chars().take(t.range(1, 1 + o.chars().count() / 2)).collect() };
        }
        if set.iter().all(|(x, _)| *x != s) {
            set.push((s, 1 + t.below(9) as u8));
        }
    }
    let mut input = vec![];
    for _ in 0..t.range(1, 10) {
        match t.weighted(&[4, 4, 1]) {
            0 => input.extend_from_slice(t.pick(&set).0.as_bytes()),
            1 => input.extend_from_slice(t.pick(alpha).as_bytes()),
            _ => input.push(t.below(256) as u8),
        }
    }
    let want_at = |p: usize| -> Option<(usize, u8)> { set.iter().filter(|(s, _)| input[p..].starts_with(s.as_bytes())).max_by_key(|(s, _)| s.len()).map(|(s, k)| (p + s.len(), *k)) };
    let single = t.pick(&set).clone();
    let d = || format!("spellings {:?}, input {}", set, show_bytes(&input));
    let code = Code::new(&input);
    let refs: Vec<(&str, Tk)> = set.iter().map(|(s, k)| (s.as_str(), Tk(*k))).collect();
    // some registered literals yield no node
    let hidden = |k: u8| k % 4 == 0;
    let nrefs: Vec<(&str, Option<Nd>)> = set.iter().map(|(s, k)| (s.as_str(), if hidden(*k) { None } else { Some(Nd(*k)) })).collect();
    let made = guard(|| {
        let p = Punctuations::<Tk, u8>::new(refs.clone())?;
        let k = Constants::<Tk, u8>::new(refs.clone());
        let pf = PunctuationsField::new(nrefs.clone())?;
        let kf = ConstantFieldSet::new(nrefs.clone());
        let one = ConstantField::new(&single.0, if hidden(single.1) { None } else { Some(Nd(single.1)) });
        Ok::<_, String>((p, k, pf, kf, one))
    });
    let (p, k, pf, kf, one) = match made {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail(format!("set of distinct spellings refused: {}", e), d()),
        Err(e) => return fail(format!("panic while building: {}", e), d()),
    };
    let mut nt = false;
    for at in 0..=input.len() {
        let want = want_at(at);
        for (name, lexeme) in [("Punctuations", &p as &dyn ILexeme<Token = Tk, State = u8>), ("Constants", &k)] {
            let got = guard(|| lexeme.consume(&code, at, &vec![], &mut vec![]));
            let got = match got {
                Ok(g) => g,
                Err(e) => return fail(format!("{} panicked at {}: {}", name, at, e), d()),
            };
            let w = want.map(|(e, t)| Lx { t, s: at, e });
            if got.as_ref().map(lx) != w {
                return fail(format!("{} at {}: expected {:?}, got {:?}", name, at, w, got), d());
            }
        }
        let one_want = if input[at..].starts_with(single.0.as_bytes()) { Some((at + single.0.len(), single.1)) } else { None };
        for (name, f, want) in [
            ("PunctuationsField", &pf as &dyn IProduction<Node = Nd, Token = i8>, want),
            ("ConstantFieldSet", &kf, want),
            ("ConstantField", &one, one_want),
        ] {
            let got = guard(|| {
                let mut cache: Cache<usize, Nd> = Cache::root();
                f.advance_ptr(&code, at, &mut cache).map(|s| (s.consumed_index, from_asts(&s.children))).map_err(|e| e.is_unparsed())
            });
            let got = match got {
                Ok(g) => g,
                Err(e) => return fail(format!("{} panicked at {}: {}", name, at, e), d()),
            };
            let w = match want {
                Some((e, k)) => Ok((e, if hidden(k) { vec![] } else { vec![T { n: k, s: at, e, b: None, c: vec![] }] })),
                None => Err(true),
            };
            if got != w {
                return fail(format!("{} at {}: expected {:?}, got {:?}", name, at, w, got), d());
            }
        }
        // a longer spelling shares the matched one as prefix but the input leaves it
        if let Some((e, _)) = want {
            nt |= set.iter().any(|(s, _)| s.len() > e - at && s.as_bytes().starts_with(&input[at..e]));
        }
    }
    Ok(Rep { nontrivial: nt, labels: vec![], desc: if c.want_desc { d() } else { String::new() }, digest: String::new() })
}

pub fn c04(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = LCfg { decorators: true, max_lexemes: 4, ..LCfg::default() };
    if t.chance(1, 3) {
        // decorators in and around lexemes that change the state
        cfg = LCfg { states: 3, state_actions: true, ..cfg };
    }
    let s = gen_spec(t, &cfg);
    let tok = built(&s, LStyle { seed: 5, shorthand: t.chance(1, 2), logs: false })?;
    let deco = |s: &LexSpec| s.states[0].1.iter().filter(|l| l.any(&|x| matches!(x, LexS::Map(..) | LexS::Thunk(..) | LexS::Mid(..)))).count();
    let nd = deco(&s);
    let mut labels = vec![];
    // undecorated twin: extents may only differ where a guard said no
    let (nt, desc) = tok_case(t, c, &s, &tok, 6, &|_, w, _| nd > 0 && w.as_ref().map_or(false, |v| v.len() > 3), &mut labels)?;
    for l in &s.states[0].1 {
        if l.any(&|x| matches!(x, LexS::Map(..))) {
            labels.push("mapper");
        }
        if l.any(&|x| matches!(x, LexS::Thunk(..))) {
            labels.push("thunk mapper");
        }
        if l.any(&|x| matches!(x, LexS::Mid(..))) {
            labels.push("middleware");
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

pub fn c05(t: &mut Tape, c: &Ctx) -> CaseResult {
    let cfg = LCfg { states: 4, state_actions: true, decorators: t.chance(1, 4), word_boundary: false, max_lexemes: 4, ..LCfg::default() };
    let s = gen_spec(t, &cfg);
    let tok = built(&s, LStyle { seed: t.below(1000) as u64, shorthand: t.chance(1, 2), logs: false })?;
    let mut labels = vec![];
    let (nt, desc) = tok_case(t, c, &s, &tok, 6, &|_, w, i| i.state_changes >= 2 && i.left_default && w.as_ref().map_or(true, |v| v.len() > 3), &mut labels)?;
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

pub fn c06(t: &mut Tape, c: &Ctx) -> CaseResult {
    let cfg = LCfg { states: 1, decorators: t.chance(1, 2), ..LCfg::default() };
    let mut s = gen_spec(t, &cfg);
    s.plain = true;
    let own = s.states[0].0;
    if t.chance(1, 3) {
        // actions that stay within the only state
        let names = [own];
        let scfg = LCfg { state_actions: true, ..cfg.clone() };
        let l = gen_lexeme(t, &scfg, &names);
        s.states[0].1.insert(0, l);
    }
    // further states that nothing enters
    let mut more = s.clone();
    for _ in 0..t.below(4) {
        let n = t.below(9) as u8;
        if more.states.iter().all(|(x, _)| *x != n) {
            let m = t.below(3);
            let v = (0..m).map(|_| gen_lexeme(t, &cfg, &[own])).collect();
            more.states.push((n, v));
        }
    }
    let st = LStyle::default();
    let three = guard(|| Ok::<_, String>((build_tok(&s, st)?, build_comb(&s, st)?, build_comb(&more, st)?)));
    let (a, b, m) = match three {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail(format!("a well-formed definition was rejected: {}", e), more.show()),
        Err(e) => return fail(format!("panic while building: {}", e), more.show()),
    };
    let mut nt = false;
    let mut desc = String::new();
    let mut labels = vec![];
    for i in 0..5 {
        let input = if i == 0 && t.chance(1, 6) { vec![] } else { gen_input(t, &s, 12) };
        let d = |x: &str| format!("{}input {}\n{}", more.show(), show_bytes(&input), x);
        let ra = match lib_tok(&a, &input) {
            Ok(r) => r,
            Err(e) => return fail(format!("plain tokenizer panicked: {}", e), d("")),
        };
        for (name, x) in [("one state", &b), ("with unused states", &m)] {
            let r = match lib_tok(x, &input) {
                Ok(r) => r,
                Err(e) => return fail(format!("combined tokenizer ({}) panicked: {}", name, e), d("")),
            };
            if r != ra {
                return fail(format!("plain and combined tokenizer ({}) disagree", name), d(&format!("plain {:?}\ncombined {:?}", ra, r)));
            }
        }
        labels.push(if ra.is_ok() { "accepted" } else { "rejected" });
        nt |= more.states.len() > 1 && ra.as_ref().map_or(false, |v| v.len() > 3);
        if c.want_desc && nt && desc.is_empty() {
            desc = d(&format!("{:?}", ra));
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

const BAD_RE: &[&str] = &["^(", "^[a", "^a{2,1}", "^\\", "^(?<a", "^[z-a]", "^(a))", "^\\p{Foo}", "^(?P<n>a)(?P<n>b)", "^a\\"];

pub fn c07(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut labels = vec![];
    let mut lexemes: Vec<DynL2> = vec![];
    let mut shown = vec![];
    let mut bad_seen = false;
    for _ in 0..t.range(1, 4) {
        let kind = t.below(4);
        // (description, ill-formed?, result)
        let (desc, bad, r): (String, bool, Result<Result<DynL2, String>, String>) = match kind {
            0 => {
                let (src, bad) = if t.chance(1, 4) {
                    (t.pick(BAD_RE).to_string(), true)
                } else {
                    let r = if t.chance(1, 2) { re::gen(t, 3, true) } else { re::gen(t, 2, false) };
                    let r = re::ending(t, r);
                    (if t.chance(1, 6) { format!("^{}", r.group()) } else { r.anchored() }, r.nullable())
                };
                labels.push(if bad { "ill-formed pattern" } else { "pattern" });
                (format!("Pattern {}", src), bad, guard(|| Pattern::<Tk, u8>::new(Tk(1), &src).map(|p| std::rc::Rc::new(p) as DynL2)))
            }
            1 | 2 => {
                let n = size(t, 0, 4, 60);
                let mut v: Vec<(String, u8)> = gen_set(t, n, SPELL);
                if t.chance(1, 4) {
                    v.insert(t.below(v.len() + 1), ("".into(), 2));
                }
                if t.chance(1, 3) && !v.is_empty() {
                    let x = t.pick(&v).clone();
                    let i = t.below(v.len() + 1);
                    v.insert(i, (x.0, 4));
                }
                let dup = (0..v.len()).any(|i| (0..i).any(|j| v[i].0 == v[j].0));
                let empty = v.iter().any(|x| x.0.is_empty());
                let refs: Vec<(&str, Tk)> = v.iter().map(|(s, k)| (s.as_str(), Tk(*k))).collect();
                if kind == 1 {
                    labels.push(if dup || empty { "ill-formed punctuation set" } else { "punctuation set" });
                    (format!("Punctuations {:?}", v), dup || empty, guard(|| Punctuations::<Tk, u8>::new(refs).map(|p| std::rc::Rc::new(p) as DynL2)))
                } else {
                    labels.push("constants");
                    (format!("Constants {:?}", v), false, guard(|| Ok(std::rc::Rc::new(Constants::<Tk, u8>::new(refs)) as DynL2)))
                }
            }
            _ => {
                let n = size(t, 0, 3, 60);
                let mut v: Vec<(String, u8)> = gen_set(t, n, SPELL);
                if t.chance(1, 2) && !v.is_empty() {
                    let x = t.pick(&v).clone();
                    let i = t.below(v.len() + 1);
                    // sometimes even with the same token
                    let k = if t.chance(1, 2) { x.1 } else { 4 };
                    v.insert(i, (x.0, k));
                }
                let dup = (0..v.len()).any(|i| (0..i).any(|j| v[i].0 == v[j].0));
                let cut = t.below(v.len() + 1);
                let split = t.chance(1, 2);
                labels.push(if dup { "ill-formed mapping" } else { "mapping" });
                let r = guard(|| {
                    let refs: Vec<(&str, Tk)> = v.iter().map(|(s, k)| (s.as_str(), Tk(*k))).collect();
                    let base = Pattern::<Tk, u8>::new(Tk(0), "^[a-z=+<>1.é]+")?;
                    let m = if split {
                        // given in two steps
                        let mut m = Mapper::new(base, refs[..cut].to_vec())?;
                        m.extend_fields(refs[cut..].to_vec())?;
                        m
                    } else {
                        base.mapping(refs)?
                    };
                    Ok(std::rc::Rc::new(m) as DynL2)
                });
                (format!("Mapper {:?} (split {} at {})", v, split, cut), dup, r)
            }
        };
        bad_seen |= bad;
        match r {
            Err(p) => return fail(format!("constructor panicked: {}", p), desc),
            Ok(Ok(_)) if bad => return fail("an ill-formed definition was accepted", desc),
            Ok(Err(e)) if !bad => return fail(format!("a well-formed definition was rejected: {}", e), desc),
            Ok(Ok(l)) => {
                lexemes.push(l);
                shown.push(desc);
            }
            Ok(Err(_)) => {}
        }
    }
    let nl = lexemes.len();
    let tok: DynTok = if t.chance(1, 2) { std::rc::Rc::new(Tokenizer::new(lexemes)) } else { std::rc::Rc::new(CombinedTokenizer::new(0u8, lexemes)) };
    let mut consumed = 0;
    for _ in 0..3 {
        let mut input = vec![];
        for _ in 0..t.below(12) {
            if t.chance(3, 4) {
                input.extend_from_slice(t.pick(SPELL).as_bytes())
            } else {
                input.push(t.below(256) as u8)
            }
        }
        match lib_tok(&tok, &input) {
            Err(p) => return fail(format!("tokenization panicked or does not terminate: {}", p), format!("{:?}\ninput {}", shown, show_bytes(&input))),
            Ok(Ok(v)) => {
                consumed = consumed.max(v.len());
                if v[..v.len() - 1].iter().any(|l| l.e <= l.s) {
                    return fail("a token is empty", format!("{:?}\ninput {}\n{:?}", shown, show_bytes(&input), v));
                }
            }
            Ok(Err(_)) => {}
        }
    }
    Ok(Rep { nontrivial: bad_seen && nl > 0, labels, desc: if c.want_desc { format!("accepted: {:?}", shown) } else { String::new() }, digest: String::new() })
}
type DynL2 = std::rc::Rc<dyn ILexeme<Token = Tk, State = u8>>;

pub fn c24(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut s: Vec<u8> = vec![];
    let n = *t.pick(&[3usize, 8, 30, 100]);
    // now and then a source with a lot of text in front of, or between, the line breaks
    let big = t.chance(1, 3000);
    for _ in 0..t.below(n + 1) {
        if big && t.chance(1, 3) {
            let b = *t.pick(b"a\n\xc3\0");
            let k = *t.pick(&[255usize, 256, 300, 4096, 33_000, 65_535, 65_536, 70_000]);
            if s.len() + k < 300_000 {
                s.extend(std::iter::repeat(b).take(k));
            }
        }
        match t.weighted(&[4, 3, 2, 1, 1]) {
            0 => s.push(b'a'),
            1 => s.push(b'\n'),
            2 => s.extend_from_slice(t.pick(&["é", "\r\n", "\r", "\u{2028}", "😀", "\t", "\0", "\u{85}"]).as_bytes()),
            3 => s.push(t.below(256) as u8),
            _ => s.extend_from_slice(b"some words"),
        }
    }
    if t.chance(1, 3) {
        edges(t, &mut s);
    }
    let code = match (t.below(3), std::str::from_utf8(&s)) {
        (0, Ok(x)) => Code::from(x),
        (1, _) => Code::from(&s[..]),
        _ => Code::new(&s),
    };
    if code.value != &s[..] {
        return fail("the source holds other bytes than it was made from", format!("source {}", show_bytes(&s)));
    }
    // interleaved queries in random order, then all
    let mut order: Vec<usize> = (0..t.below(6)).map(|_| t.below(s.len() + 1)).collect();
    if s.len() < 2000 {
        order.extend(0..=s.len());
    } else {
        let breaks: Vec<usize> = (0..s.len()).filter(|i| s[*i] == b'\n').collect();
        for _ in 0..20 {
            order.push(t.below(s.len() + 1));
            if !breaks.is_empty() {
                order.push((t.pick(&breaks) + t.below(3)).min(s.len()));
            }
        }
        order.push(s.len());
    }
    let d = || format!("source {}", show_bytes(&s));
    for p in order {
        let line = 1 + s[..p].iter().filter(|b| **b == b'\n').count();
        let col = 1 + p - s[..p].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
        let got = guard(|| {
            let a = code.obtain_position(p);
            let b = Position::from(&s[..p]);
            ((a.line, a.column), (b.line, b.column), format!("{}", a))
        });
        match got {
            Err(e) => return fail(format!("panic at offset {}: {}", p, e), d()),
            Ok((a, b, text)) => {
                if crate::p_gram::ints(&text) != [line, col] {
                    return fail(format!("offset {}: expected line {} column {}, the position prints as {}", p, line, col, text), d());
                }
                if a != (line, col) {
                    return fail(format!("offset {}: expected line {} column {}, source query gives {:?}", p, line, col, a), d());
                }
                if b != (line, col) {
                    return fail(format!("offset {}: expected line {} column {}, position of the text before gives {:?}", p, line, col, b), d());
                }
            }
        }
    }
    let breaks: Vec<usize> = (0..s.len()).filter(|i| s[*i] == b'\n').collect();
    if *code.obtain_line_breaks() != breaks {
        return fail(format!("line breaks expected at {:?}, got {:?}", breaks, code.obtain_line_breaks()), d());
    }
    let nl = breaks.len();
    Ok(Rep { nontrivial: nl >= 2 && s.len() > 4, labels: vec![if std::str::from_utf8(&s).is_ok() { "utf8" } else { "not utf8" }], desc: if c.want_desc { d() } else { String::new() }, digest: String::new() })
}

pub fn c30(t: &mut Tape, c: &Ctx) -> CaseResult {
    // a token list, mostly gap-free and ended by one end-of-file token
    let n = if t.chance(1, 400) { if t.chance(1, 10) { t.range(900, 5000) } else { t.range(200, 900) } } else { t.below(14) };
    let mut v: Vec<Lx> = vec![];
    let gaps = t.chance(1, 4);
    let mut p = if gaps { t.below(3) } else { 0 };
    for _ in 0..n {
        if gaps && t.chance(1, 3) {
            p += t.range(1, 3);
        }
        let e = p + 1 + if t.chance(1, 300) { t.range(250, 700) } else { t.below(3) };
        let k = if t.chance(1, 3) { *t.pick(&[3u8, 7, 11]) } else { *t.pick(&[0u8, 1, 2, 4, 6]) };
        v.push(Lx { t: k, s: p, e });
        p = e;
    }
    // lists made by hand need not end with it
    let ended = !t.chance(1, 5) || v.is_empty();
    if ended {
        v.push(Lx { t: EOF, s: p, e: p });
    }
    let lib = to_lib(&v);
    // every piece of the text is different from its neighbours
    let text: String = (0..p).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let stream = TokenStream::from(&lib);
    let fl: Vec<usize> = (0..v.len()).filter(|i| structural(v[*i].t)).collect();
    let d = || format!("tokens {:?}", v);
    let qs: Vec<(usize, usize)> = (0..6).map(|_| (t.below(v.len() + 1), t.below(v.len() + 1))).collect();
    let r = guard(|| c30_check(&v, &fl, &lib, &stream, &text, &qs));
    match r {
        Err(e) => return fail(format!("an accessor panicked: {}", e), d()),
        Ok(Err(m)) => return fail(m, d()),
        Ok(Ok(())) => {}
    }
    let trivia = v.len() - fl.len();
    let mut labels = vec![];
    if n > 100 {
        labels.push("long list");
    }
    if !ended {
        labels.push("no end-of-file token");
    }
    Ok(Rep { nontrivial: trivia >= 2 && fl.len() >= 3, labels, desc: if c.want_desc { d() } else { String::new() }, digest: String::new() })
}
fn fnum<P: ToString>(p: P) -> usize {
    p.to_string().parse().unwrap_or(usize::MAX)
}
fn res2<A, B>(r: Result<A, A>, f: impl Fn(A) -> B) -> Result<B, B> {
    match r {
        Ok(a) => Ok(f(a)),
        Err(a) => Err(f(a)),
    }
}
/// Structural pointer of a given value, made with public operations only.
pub fn fp(i: usize) -> FltrPtr {
    if i == 0 {
        FltrPtr::default()
    } else {
        FltrPtr::default() + i
    }
}
fn c30_check(v: &[Lx], fl: &[usize], lib: &Vec<Lex<Tk>>, st: &TokenStream<Tk>, text: &str, qs: &[(usize, usize)]) -> Result<(), String> {
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let g = $got;
            let w = $want;
            if g != w {
                return Err(format!("{}: expected {:?}, got {:?}", $what, w, g));
            }
        }};
    }
    let len = v.last().unwrap().e;
    let all: Vec<Lx> = fl.iter().map(|i| v[*i]).collect();
    same!("length", st.length(), fl.len());
    same!("iter_lex", st.iter_lex().map(lx).collect::<Vec<_>>(), all.clone());
    same!("get_segments", lxs(st.get_segments()), v.to_vec());
    same!("eos_pointer", st.eos_pointer(), len);
    let filtered2 = TokenStream::new(lib, fl.iter().map(|i| TokenPtr::from(*i)).collect());
    same!("TokenStream::new", filtered2.iter_lex().map(lx).collect::<Vec<_>>(), all.clone());
    for i in 0..fl.len() + 3 {
        let f = fp(i);
        same!(format!("get({})", i), st.get(f).map(lx), all.get(i).copied());
        same!(format!("has_stream({})", i), st.has_stream(f), i < fl.len());
        if i < fl.len() {
            same!(format!("[structural {}]", i), lx(&st[f]), all[i]);
            same!(format!("pointer({})", i), st.pointer(f), all[i].s);
            same!(format!("get_token_ptr({})", i), fnum(st.get_token_ptr(f)), fl[i]);
            same!(format!("is_eos({})", i), st.is_eos(f), all[i].t == EOF);
            same!(format!("last_segment_index({})", i), st.last_segment_index(&f).map(fnum), if i > 0 { Some(fl[i - 1]) } else { None });
        }
        if i <= fl.len() && (fl.len() < 50 || i % 17 == 3 || i + 3 > fl.len()) {
            same!(format!("iter_lex_at({})", i), st.iter_lex_at(f).map(lx).collect::<Vec<_>>(), all[i..].to_vec());
        }
    }
    for i in 0..v.len() {
        let p = TokenPtr::from(i);
        same!(format!("[token {}]", i), lx(&st[p]), v[i]);
        same!(format!("text of token {}", i), crate::p_gram::ints(&format!("{}", st[p])), vec![v[i].t as usize, v[i].s, v[i].e]);
        same!(format!("is_eos_segment({})", i), st.is_eos_segment(p), v[i].t == EOF);
        if v.len() < 50 || i % 19 == 5 || i + 3 > v.len() {
            same!(format!("iter_at({})", i), st.iter_at(i).map(lx).collect::<Vec<_>>(), v[i..].to_vec());
        }
        let at = fl.iter().position(|x| *x >= i).unwrap_or(fl.len());
        let want = if fl.get(at) == Some(&i) { Ok(at) } else { Err(at) };
        same!(format!("find_filter_ptr({})", i), res2(st.find_filter_ptr(p), fnum), want);
        same!(format!("find_filtered_index({})", i), res2(st.find_filtered_index(&p), fnum), want);
    }
    for o in 0..=len {
        let at = all.iter().position(|l| l.s >= o).unwrap_or(all.len());
        let hit = all.get(at).map_or(false, |l| l.s == o);
        same!(format!("filtered_index_at({})", o), res2(st.filtered_index_at(o), fnum), if hit { Ok(at) } else { Err(at) });
        // behind the last token there is no next token to return
        if at < all.len() {
            same!(format!("filtered_data_at({})", o), res2(st.filtered_data_at(o), lx), if hit { Ok(all[at]) } else { Err(all[at]) });
        }
        let at = v.iter().position(|l| l.s >= o).unwrap_or(v.len());
        if at == v.len() {
            continue;
        }
        same!(format!("lex_data_at({})", o), res2(st.lex_data_at(o), lx), if v[at].s == o { Ok(v[at]) } else { Err(v[at]) });
    }
    for (a, b) in qs {
        let (a, b) = (*a.min(b), *a.max(b));
        same!(format!("iter_range({},{})", a, b), st.iter_range(a, b).map(lx).collect::<Vec<_>>(), v[a..b].to_vec());
        let (a, b) = (a.min(fl.len()), b.min(fl.len()));
        same!(format!("iter_lex_range({},{})", a, b), st.iter_lex_range(fp(a), fp(b)).map(lx).collect::<Vec<_>>(), all[a..b].to_vec());
    }
    let pairs: Vec<(u8, &str)> = st.token_pair(text).iter().map(|(t, s)| (t.0, *s)).collect();
    same!("token_pair", pairs, v.iter().map(|l| (l.t, &text[l.s..l.e])).collect::<Vec<_>>());
    // a node over a range of structural tokens, and pointer arithmetic
    for (k, (a, b)) in qs.iter().enumerate() {
        let (a, b) = (*a.min(b), *a.max(b));
        let (x, y) = (TokenPtr::from(a), TokenPtr::from(b));
        same!(format!("token pointer {}", a), (fnum(x), x.is_origin(), x == TokenPtr::origin(), x == TokenPtr::default()), (a, a == 0, a == 0, a == 0));
        same!(format!("token pointer {} + {}", a, b - a), fnum(x + (b - a)), b);
        same!(format!("token pointer {} - {}", b, b - a), fnum(y - (b - a)), a);
        same!(format!("order of token pointers {} {}", a, b), x.cmp(&y), a.cmp(&b));
        let (x, y) = (fp(a), fp(b));
        same!(format!("structural pointer {}", a), (fnum(x), x == FltrPtr::default()), (a, a == 0));
        same!(format!("structural pointer {} - {}", b, b - a), fnum(y - (b - a)), a);
        same!(format!("order of structural pointers {} {}", a, b), x.cmp(&y), a.cmp(&b));
        if b < fl.len() {
            let kids: Vec<ASTNode<Nd>> = (0..k).map(|j| ASTNode::leaf(Nd(j as u8), all[a].s, all[b].s, None)).collect();
            let want = T { n: 77, s: all[a].s, e: all[b].s, b: Some((fl[a], fl[b])), c: from_asts(&kids) };
            let got = st.create_node(fp(a), Nd(77), SuccessData::new(fp(b), kids));
            same!(format!("create_node({}..{})", a, b), (fnum(got.consumed_index), from_asts(&got.children)), (b, vec![want]));
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: Re) {}

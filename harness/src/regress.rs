//! One fixed case per defect that was found and repaired (and one per recorded finding).
use crate::engine::guard;
use crate::gram::*;
use crate::lexs::*;
use crate::mk::Style;
use crate::nt::*;
use crate::p_gram::*;
use crate::p_lex::{lib_tok, show_bytes};
use lang_pt::lexeme::*;
use lang_pt::*;
use std::rc::Rc;

pub type Case = (&'static str, fn() -> Result<(), String>);

fn bx(g: G) -> Box<G> {
    Box::new(g)
}
fn tok(k: u8) -> G {
    G::Tok(k, Some(k))
}
fn lit(s: &str) -> G {
    G::Str(s.into(), Some(1))
}
fn nonstr(g: G) -> G {
    G::NonStr(bx(g), false)
}
fn gram(tokenized: bool, rules: Vec<Rule>) -> Gram {
    let n = rules.len();
    Gram { rules, raw: vec![false; n], tokenized }
}
fn sys(g: Gram) -> Sys {
    let tokenized = g.tokenized;
    let (spec, src, tok) = if tokenized { (Some(s1()), Src::Ref, Some(Rc::new(RefTok(s1())) as DynTok)) } else { (None, Src::None, None) };
    Sys { g, cfg: Cfg::new(tokenized), spec, src, tok, fixed_tokens: true }
}
/// The parser's answers (with error pointer and message) are those of the reference.
fn parses(g: Gram, inputs: &[&str]) -> Result<(), String> {
    let bytes: Vec<&[u8]> = inputs.iter().map(|s| s.as_bytes()).collect();
    parses_bytes(g, &bytes)
}
fn parses_bytes(g: Gram, inputs: &[&[u8]]) -> Result<(), String> {
    let s = sys(g);
    let p = s.par(&Style::default()).map_err(|f| f.msg)?;
    for code in inputs {
        let (w, toks) = s.expect(code).ok_or("no tokens")?;
        s.allow(&w, code);
        let got = p.parse(code);
        agree(&w.out, &got, true).map_err(|m| format!("{} on {}", m, s.desc(code)))?;
        if let (crate::peg::Out::Syn(p), LOut::Err(_, m)) = (&w.out, &got) {
            message(code, if s.src == Src::None { None } else { Some(&toks) }, *p, m)?;
        }
    }
    Ok(())
}
/// The constructor accepts exactly if `ok`.
fn validates(g: Gram, unset: Vec<usize>, ok: bool) -> Result<(), String> {
    let s = sys(g);
    let st = Style { unset, ..Style::default() };
    match try_par(&s.g, s.tok.as_ref(), &st) {
        Ok(Ok(_)) if ok => Ok(()),
        Ok(Err(_)) if !ok => Ok(()),
        Ok(Ok(_)) => Err(format!("accepted:\n{}", s.g.show())),
        Ok(Err(e)) => Err(format!("rejected ({}):\n{}", e, s.g.show())),
        Err(p) => Err(format!("panic ({}):\n{}", p, s.g.show())),
    }
}
fn lexes(spec: LexSpec, inputs: &[&str]) -> Result<(), String> {
    let t = build_tok(&spec, LStyle::default())?;
    for i in inputs {
        let want = spec.tokenize(i.as_bytes()).map_err(|e| e.0);
        let got = lib_tok(&t, i.as_bytes()).map_err(|p| format!("panic on {}: {}", show_bytes(i.as_bytes()), p))?;
        if got != want {
            return Err(format!("{}input {}: expected {:?}, got {:?}", spec.show(), show_bytes(i.as_bytes()), want, got));
        }
    }
    Ok(())
}
fn ab(v: &[(&str, u8)]) -> Vec<(String, u8)> {
    v.iter().map(|(s, k)| (s.to_string(), *k)).collect()
}

// ------------------------------------------------------------------ C01
fn empty_input() -> Result<(), String> {
    let l = vec![LexS::Punct(ab(&[("a", 0)]))];
    lexes(LexSpec { states: vec![(0, l.clone())], plain: true }, &["", "a"])?;
    lexes(LexSpec { states: vec![(0, l)], plain: false }, &["", "a"])
}
pub static C01: &[Case] = &[("empty-input", empty_input)];

// ------------------------------------------------------------------ C03
fn constants_check_the_text() -> Result<(), String> {
    lexes(LexSpec { states: vec![(0, vec![LexS::Consts(ab(&[("ab", 0), ("a", 1)]))])], plain: true }, &["aab", "b", "ax"])
}
fn shorter_spelling_after_partial() -> Result<(), String> {
    lexes(
        LexSpec { states: vec![(0, vec![LexS::Punct(ab(&[("a", 0), ("aaa", 1), ("b", 2), ("bcd", 3)]))])], plain: true },
        &["aa", "aaaa", "bbcd", "bc", "aab"],
    )?;
    parses(gram(false, vec![Rule::Concat(vec![G::List(bx(G::Punct(vec![("a".into(), Some(1)), ("aaa".into(), Some(2))])))])]), &["aa", "aaaaa"])
}
pub static C03: &[Case] = &[("constants-check-the-text", constants_check_the_text), ("shorter-spelling-after-partial", shorter_spelling_after_partial)];

// ------------------------------------------------------------------ C05
fn pop_empty_stack() -> Result<(), String> {
    let a = Act { k: ActK::Pop, discard: false };
    lexes(
        LexSpec { states: vec![(0, vec![LexS::State(Box::new(LexS::Punct(ab(&[("a", 0), ("b", 1)]))), vec![(1, a)])])], plain: false },
        &["ab", "b", "a"],
    )
}
pub static C05: &[Case] = &[("pop-empty-stack", pop_empty_stack)];

// ------------------------------------------------------------------ C07
fn empty_punctuation() -> Result<(), String> {
    for v in [vec![("", Tk(1))], vec![("a", Tk(1)), ("", Tk(2))]] {
        if Punctuations::<Tk, u8>::new(v.clone()).is_ok() {
            return Err(format!("punctuations {:?} were accepted", v));
        }
    }
    Punctuations::<Tk, u8>::new(vec![("a", Tk(1))]).map(|_| ())
}
pub static C07: &[Case] = &[("empty-punctuation", empty_punctuation)];

// ------------------------------------------------------------------ C24
fn position_of_text() -> Result<(), String> {
    for (s, w) in [("", (1, 1)), ("abc", (1, 4)), ("a\nbc", (2, 3)), ("a\n", (2, 1))] {
        let p = Position::from(s.as_bytes());
        if (p.line, p.column) != w {
            return Err(format!("position of {:?}: expected {:?}, got {:?}", s, w, (p.line, p.column)));
        }
    }
    Ok(())
}
pub static C24: &[Case] = &[("position-of-text", position_of_text)];

// ------------------------------------------------------------------ C30
fn stream_accessors() -> Result<(), String> {
    let l = |t, s, e| Lex::new(Tk(t), s, e);
    let v = vec![l(3, 0, 1), l(0, 1, 2), l(3, 2, 3), l(1, 3, 4), l(EOF, 4, 4)];
    let st = TokenStream::from(&v);
    for i in 0..5 {
        if st.has_stream(crate::p_lex::fp(i)) != (i < 3) {
            return Err(format!("has_stream({}) is wrong", i));
        }
    }
    for (at, w) in [(0, Err(1)), (1, Ok(1)), (2, Err(3)), (3, Ok(3)), (4, Ok(4))] {
        let g = st.filtered_data_at(at).map(|l| l.start).map_err(|l| l.start);
        if g != w {
            return Err(format!("filtered_data_at({}): expected {:?}, got {:?}", at, w, g));
        }
    }
    Ok(())
}
pub static C30: &[Case] = &[("stream-accessors", stream_accessors)];

// ------------------------------------------------------------------ C10, C12
fn ordered_choice() -> Result<(), String> {
    let opt = |k| G::Nullable(bx(tok(k)));
    // an optional alternative before one that starts with the token at hand
    parses(gram(true, vec![Rule::Concat(vec![G::Ref(1), opt(0)]), Rule::Union(vec![opt(1), tok(0)])]), &["a", "b", "ba", ""])?;
    parses(gram(true, vec![Rule::Concat(vec![G::Ref(1), opt(0)]), Rule::Union(vec![tok(1), opt(0)])]), &["a", "b", "ba", ""])?;
    // skipped tokens before the alternative that starts with the token at hand
    parses(gram(true, vec![Rule::Concat(vec![tok(0), G::Ref(1)]), Rule::Union(vec![tok(1), nonstr(tok(7))])]), &["a\nb", "ab", "a\n", "a b"])?;
    parses(gram(true, vec![Rule::Concat(vec![tok(0), G::Ref(1)]), Rule::Union(vec![nonstr(tok(7)), tok(1)])]), &["a\nb", "ab", "a\n", "a b"])
}
fn nullable_alternative_with_longer_one() -> Result<(), String> {
    let g = gram(true, vec![Rule::Union(vec![G::Ref(1), G::Ref(2)]), Rule::Concat(vec![tok(0), tok(1)]), Rule::Concat(vec![G::Nullable(bx(tok(4))), tok(0)])]);
    parses(g, &["ab", "a", "+a", "+ab", "b"])
}
pub static C10: &[Case] = &[("ordered-choice", ordered_choice), ("nullable-alternative", nullable_alternative_with_longer_one)];

fn suffixes_in_order() -> Result<(), String> {
    for alone in [false, true] {
        let opt = |k| G::Nullable(bx(tok(k)));
        for v in [vec![(opt(1), 40), (tok(4), 41)], vec![(nonstr(tok(7)), 40), (tok(1), 41)], vec![(tok(1), 41), (nonstr(tok(7)), 40)]] {
            parses(gram(true, vec![Rule::Suffixes(tok(0), alone, v)]), &["a", "ab", "a+", "a\n", "a\nb", "a b", "b", ""])?;
        }
    }
    Ok(())
}
fn nullable_left_part() -> Result<(), String> {
    for alone in [false, true] {
        let g = gram(true, vec![Rule::Suffixes(G::Nullable(bx(tok(0))), alone, vec![(tok(1), 40), (tok(4), 41)])]);
        parses(g, &["ab", "b", "a", "a+", "+", "", "x"])?;
    }
    Ok(())
}
pub static C12: &[Case] = &[("suffixes-in-order", suffixes_in_order), ("nullable-left-part", nullable_left_part)];

// ------------------------------------------------------------------ C11
fn empty_rounds_end() -> Result<(), String> {
    for incl in [false, true] {
        let g = gram(false, vec![Rule::Concat(vec![G::Sep(bx(G::Nullable(bx(lit("a")))), bx(G::Nullable(bx(lit("+")))), incl)])]);
        parses(g, &["", "a", "a+", "+a", "a+a", "++", "b"])?;
        // a nullable element makes the list nullable, whatever the separator
        let g = gram(true, vec![Rule::Union(vec![G::Sep(bx(G::Nullable(bx(tok(0)))), bx(tok(4)), incl), tok(1)])]);
        parses(g, &["b", "a", "+", "a+a", ""])?;
    }
    Ok(())
}
pub static C11: &[Case] = &[("empty-rounds-end", empty_rounds_end)];

// ------------------------------------------------------------------ C16
fn tokenized_pointer() -> Result<(), String> {
    let g = || gram(true, vec![Rule::Concat(vec![tok(0), tok(1), tok(4)])]);
    parses(g(), &["aba", "ab", "a\nbb", "b", "a  a", "ab b"])
}
fn lexerless_char() -> Result<(), String> {
    parses_bytes(gram(false, vec![Rule::Concat(vec![lit("a"), lit("b")])]), &["aé".as_bytes(), b"a\xff", "é".as_bytes(), b"a", b"a\xc3", b"", b"a\xf0\x9f\x98\x80"])
}
fn tokenized_bytes() -> Result<(), String> {
    parses_bytes(gram(true, vec![Rule::Concat(vec![tok(0), tok(4)])]), &[b"a\xff", b"\x80", "aé".as_bytes()])
}
pub static C16: &[Case] = &[("tokenized-pointer", tokenized_pointer), ("lexerless-message", lexerless_char), ("tokenized-message", tokenized_bytes)];

// ------------------------------------------------------------------ C18
fn left_recursion() -> Result<(), String> {
    let c = |v| Rule::Concat(v);
    let u = |v| Rule::Union(v);
    for t in [false, true] {
        let a = || if t { tok(0) } else { lit("a") };
        let no = |r: Vec<Rule>| validates(gram(t, r), vec![], false);
        let yes = |r: Vec<Rule>| validates(gram(t, r), vec![], true);
        no(vec![c(vec![G::Ref(0), a()])])?;
        no(vec![u(vec![a(), G::Ref(0)])])?;
        // the recursive rule is visited a second time on another path
        no(vec![c(vec![G::Ref(1), G::Ref(2)]), c(vec![a()]), u(vec![G::Ref(1), G::Ref(2)])])?;
        no(vec![c(vec![G::Nullable(bx(a())), G::Ref(0)])])?;
        no(vec![c(vec![G::Look(bx(a()), None), G::Ref(0)])])?;
        no(vec![c(vec![G::Eof(None), G::Ref(0)])])?;
        no(vec![c(vec![G::Sep(bx(G::Nullable(bx(a()))), bx(a()), false), G::Ref(0)])])?;
        no(vec![c(vec![G::Sep(bx(a()), bx(G::Ref(1)), false)]), c(vec![G::Ref(1), a()])])?;
        no(vec![Rule::Suffixes(G::Nullable(bx(a())), true, vec![(G::Ref(0), 40)])])?;
        no(vec![c(vec![a(), G::Ref(1)]), c(vec![G::Ref(1), a()])])?;
        yes(vec![c(vec![a(), G::Nullable(bx(G::Ref(0)))])])?;
        yes(vec![u(vec![G::Ref(1), G::Ref(1)]), c(vec![a()])])?;
        yes(vec![c(vec![G::Ref(1), G::Ref(1), G::Nullable(bx(G::Ref(0)))]), c(vec![a()])])?;
        yes(vec![c(vec![G::Sep(bx(a()), bx(G::Ref(1)), false)]), c(vec![a(), G::Nullable(bx(G::Ref(0)))])])?;
    }
    validates(gram(true, vec![c(vec![nonstr(tok(7)), G::Ref(0)])]), vec![], false)
}
fn unfinished_rules() -> Result<(), String> {
    let r = || vec![Rule::Concat(vec![lit("a"), G::Ref(1)]), Rule::Union(vec![lit("a")]), Rule::Concat(vec![lit("b")])];
    validates(gram(false, r()), vec![1], false)?;
    validates(gram(false, r()), vec![0], false)?;
    validates(gram(false, r()), vec![2], true)
}
fn constant_field_set() -> Result<(), String> {
    parses(gram(false, vec![Rule::Concat(vec![G::StrSet(vec![("a".into(), Some(1)), ("b".into(), None)]), G::Eof(None)])]), &["a", "b", "c"])
}
fn mixed_recursion() -> Result<(), String> {
    // R0 = skipped( T3 structural(R0) ) T0
    let g = gram(true, vec![Rule::Concat(vec![nonstr(G::Ref(1)), tok(0)]), Rule::Concat(vec![tok(3), G::Struct(bx(G::Ref(0)))])]);
    validates(Gram { raw: vec![false, true], ..g }, vec![], false)
}
pub static C18: &[Case] = &[
    ("left-recursion", left_recursion),
    ("unfinished-rules", unfinished_rules),
    ("constant-field-set", constant_field_set),
    ("recursion-through-skipped-tokens", mixed_recursion),
];

// ------------------------------------------------------------------ C21
fn start_of_input() -> Result<(), String> {
    let g = gram(true, vec![Rule::Concat(vec![nonstr(tok(7)), tok(0)])]);
    parses(g, &["\na", " \na", "a", "\n\na"])
}
fn structural_inside() -> Result<(), String> {
    for g in [tok(0), G::Nullable(bx(tok(0))), G::Look(bx(tok(0)), Some(5))] {
        let inner = Gram { rules: vec![Rule::Concat(vec![nonstr(G::Ref(1)), tok(0)]), Rule::Concat(vec![tok(7), G::Struct(bx(g))])], raw: vec![false, true], tokenized: true };
        parses(inner, &["\na", "\n a", "\n\na", "a", " \n a", "\n"])?;
    }
    Ok(())
}
pub static C21: &[Case] = &[("start-of-input", start_of_input), ("structural-inside", structural_inside)];

// ------------------------------------------------------------------ C28
fn rules_below_choice() -> Result<(), String> {
    let g = gram(false, vec![Rule::Union(vec![G::Ref(1), G::Ref(2)]), Rule::Concat(vec![lit("a")]), Rule::Suffixes(G::Ref(3), true, vec![(G::Ref(4), 40)]), Rule::Concat(vec![lit("b")]), Rule::Concat(vec![lit("c")])]);
    let s = sys(g);
    let p = match s.par(&Style::default()).map_err(|f| f.msg)? {
        Par::B(p, b) => (p, b),
        _ => return Err("?".into()),
    };
    crate::mk::budget(500_000, 5000);
    let text = guard(|| p.0.grammar())?.map_err(|e| e.to_string())?;
    let n = crate::p_more::printed(&text, &s.g, &s.g.reachable(), false).map_err(|m| format!("{}\n{}", m, text))?;
    if n == 5 {
        Ok(())
    } else {
        Err(format!("{} definitions in\n{}", n, text))
    }
}
pub static C28: &[Case] = &[("rules-below-choice", rules_below_choice)];


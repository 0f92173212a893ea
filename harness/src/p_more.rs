//! Robustness, printed grammars and tree queries.
use crate::engine::*;
use crate::gram::*;
use crate::lexs::*;
use crate::mk::{self, Style};
use crate::nt::*;
use crate::p_gram::*;
use crate::p_json;
use crate::p_lex::{fail, lib_tok, show_bytes};
use crate::peg::{Env, Mode, Out};
use crate::re::Re;
use crate::tape::Tape;
use lang_pt::*;
use std::collections::BTreeSet;
use std::rc::Rc;

// ------------------------------------------------------------------ C17

pub fn arb_bytes(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = t.below(max + 1);
    let mut o = vec![];
    while o.len() < n {
        match t.below(6) {
            0 => o.push(t.below(256) as u8),
            1 => o.extend_from_slice(t.pick(&["a", "ab", "+", "==", "é", "b", "\n", " ", "x", "\u{1F600}", "#1", "\"", "\\", "{", "[", "1"]).as_bytes()),
            // pieces of multi-byte characters
            2 => o.extend_from_slice(t.pick(&[&b"\xc3"[..], b"\xe2\x82", b"\xf0\x9f\x98", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xff", b"\xf8\x88"])),
            3 => {
                let b = t.below(256) as u8;
                let k = t.range(1, 5);
                o.extend(std::iter::repeat(b).take(k))
            }
            4 => o.push(t.below(32) as u8),
            _ => o.push(*t.pick(b"ab+=xyz \n\r\t\0#~.0")),
        }
    }
    o
}

fn utf8(m: &str) -> Result<(), String> {
    std::str::from_utf8(m.as_bytes()).map(|_| ()).map_err(|_| "the error message is not valid UTF-8".to_string())
}
fn sane(o: &LOut) -> Result<(), String> {
    match o {
        LOut::Panic(p) => Err(format!("panic: {}", p)),
        LOut::Err(_, m) => utf8(m),
        LOut::Ok(_) => Ok(()),
    }
}

/// A grammar whose nesting depth follows the input.
fn nest_gram(t: &mut Tape, tokenized: bool) -> Gram {
    let lit = |k: usize, v: Option<u8>| -> G {
        if tokenized {
            G::Tok([0u8, 1, 4, 6, 8][k], v)
        } else {
            G::Str(["a", "b", "+", "=", "=="][k].to_string(), v)
        }
    };
    let mut x = G::Ref(1);
    let mut key = 1;
    for _ in 0..t.below(3) {
        let b = Box::new(x);
        x = match t.below(8) {
            0 => G::Nullable(b),
            1 => G::NullHid(b),
            2 => G::List(b),
            3 => G::Sep(b, Box::new(lit(2, None)), t.chance(1, 2)),
            4 => G::Hidden(b),
            5 => G::Node(b, 11),
            6 => G::Valid(b, VFn { id: key, kind: 0, k: 0 }),
            _ => {
                key += 1;
                G::Cache(b, key)
            }
        };
    }
    let raw = |n: usize| vec![false; n];
    match t.below(4) {
        // bracketed
        0 => Gram { rules: vec![Rule::Concat(vec![G::Ref(1), G::Eof(None)]), Rule::Union(vec![G::Ref(2), lit(3, Some(2))]), Rule::Concat(vec![lit(0, Some(1)), x, lit(1, None)])], raw: raw(3), tokenized },
        // right recursive
        1 => Gram { rules: vec![Rule::Concat(vec![G::Ref(1), G::Eof(None)]), Rule::Concat(vec![lit(0, Some(1)), G::Nullable(Box::new(x))])], raw: raw(2), tokenized },
        // suffix recursion
        2 => Gram { rules: vec![Rule::Union(vec![G::Ref(1), lit(3, None)]), Rule::Suffixes(lit(0, Some(1)), true, vec![(x, 31), (lit(1, None), 32)])], raw: raw(2), tokenized },
        // long list
        _ => Gram { rules: vec![Rule::Concat(vec![G::List(Box::new(G::Ref(1))), G::NullHid(Box::new(lit(1, None)))]), Rule::Union(vec![lit(1, Some(3)), lit(0, Some(1)), G::Sep(Box::new(lit(3, Some(4))), Box::new(lit(2, None)), true)])], raw: raw(2), tokenized },
    }
}

fn nest_case(t: &mut Tape, c: &Ctx) -> CaseResult {
    let tokenized = t.chance(1, 2);
    let g = nest_gram(t, tokenized);
    let rn = g.nullability();
    let _ = rn;
    if g.left_recursive(&g.reachable()) {
        return Ok(Rep { labels: vec!["discarded"], ..Rep::default() });
    }
    let lib = t.chance(1, 2);
    let spec = s1();
    let tok: Option<DynTok> = if !tokenized {
        None
    } else if lib {
        match guard(|| build_tok(&spec, LStyle::default())) {
            Ok(Ok(x)) => Some(x),
            o => return fail(format!("building the tokenizer failed: {:?}", o.map(|r| r.err())), spec.show()),
        }
    } else {
        Some(Rc::new(RefTok(spec.clone())))
    };
    let p = par(&g, tok.as_ref(), &Style::default())?;
    let n = match t.weighted(&[10, 10, 6, 3, 1]) {
        0 => t.below(10),
        1 => t.below(100),
        2 => t.below(400),
        3 => t.below(1500),
        _ => t.below(4000),
    };
    let mut code = vec![];
    let fill = t.chance(1, 4);
    for i in 0..n {
        code.extend_from_slice(b"a");
        if fill && tokenized && i % 7 == 0 {
            code.extend_from_slice(b" \n");
        }
    }
    code.extend_from_slice(*t.pick(&[&b"="[..], b"", b"=+=", b"=+=+"]));
    for _ in 0..n {
        code.extend_from_slice(b"b");
    }
    for _ in 0..t.below(3) {
        let i = t.below(code.len() + 1);
        match t.below(3) {
            0 if i < code.len() => {
                code.remove(i);
            }
            1 => code.insert(i, *t.pick(b"ab+=\xff\n~")),
            _ => code.truncate(i),
        }
    }
    let toks = if tokenized {
        match spec.tokenize(&code) {
            Ok(v) => v,
            Err(_) => vec![],
        }
    } else {
        vec![]
    };
    let (mut steps, mut depth) = (0, 0);
    if !tokenized || !toks.is_empty() {
        let mut e = Env::new(&g, &code, &toks, 400_000);
        e.dlimit = 200_000;
        let out = e.parse(0, if tokenized { Mode::Fltr } else { Mode::Byte }, 0);
        steps = e.steps;
        depth = e.max_depth;
        if out == Out::Budget {
            return Ok(Rep { labels: vec!["discarded"], ..Rep::default() });
        }
    }
    lex_budget(400 * (code.len() + 2));
    mk::budget(50 * steps + 200_000, depth * 4 + 2000);
    let got = p.parse(&code);
    let d = || format!("{}input {}", g.show(), clip(&show_bytes(&code), 400));
    if let Err(m) = sane(&got) {
        return fail(m, d());
    }
    Ok(Rep { nontrivial: depth > 60 || steps > 300, labels: vec!["nested or long"], desc: if c.want_desc { format!("{}\n-> {}", d(), clip(&format!("{:?}", got), 300)) } else { String::new() }, digest: String::new() })
}

pub fn c17(t: &mut Tape, c: &Ctx) -> CaseResult {
    match t.weighted(&[12, 3, 2, 4]) {
        1 => return nest_case(t, c),
        2 => return p_json::fuzz(t, c),
        3 => {
            // tokenizing alone
            let states = t.chance(1, 2);
            let mut spec = gen_spec(t, &LCfg { states: if states { 3 } else { 1 }, state_actions: states, ..LCfg::default() });
            if t.chance(1, 2) {
                // every byte starts a token in every state
                for s in &mut spec.states {
                    s.1.push(LexS::Pat(8, Re::Cls(vec![(0, 0x7f)])));
                    s.1.push(LexS::Pat(3, Re::High));
                }
            }
            let tok = match guard(|| build_tok::<Tk>(&spec, LStyle::default())) {
                Ok(Ok(x)) => x,
                Ok(Err(_)) => return Ok(Rep { labels: vec!["discarded"], ..Rep::default() }),
                Err(p) => return fail(format!("building a tokenizer panicked: {}", p), spec.show()),
            };
            let mut nt = false;
            for _ in 0..6 {
                let code = if t.chance(1, 2) { arb_bytes(t, 60) } else { gen_input(t, &spec, 30) };
                lex_budget(400 * (code.len() + 2));
                let cd = Code::new(&code);
                let r = guard(|| tok.tokenize(&cd).map(|v| v.len()).map_err(|e| (e.message.clone(), format!("{} {:?}", e, e))));
                match &r {
                    Err(p) => return fail(format!("tokenizing panicked: {}", p), format!("{}input {}", spec.show(), show_bytes(&code))),
                    Ok(Err((m, d))) => {
                        if let Err(m) = utf8(m).and(utf8(d)) {
                            return fail(m, format!("{}input {}", spec.show(), show_bytes(&code)));
                        }
                    }
                    Ok(Ok(_)) => {}
                }
                nt |= code.len() > 8 && std::str::from_utf8(&code).is_err();
            }
            return Ok(Rep { nontrivial: nt, labels: vec!["tokenizing only"], desc: if c.want_desc { spec.show() } else { String::new() }, digest: String::new() });
        }
        _ => {}
    }
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.w[K_CACHE] = 4;
    cfg.w[K_VALID] = 4;
    if cfg.tokenized && t.chance(1, 2) {
        cfg.w[K_NONSTR] = 5;
        cfg.w[K_STRUCT] = 3;
        cfg.mixed_raw = t.chance(1, 2);
        if cfg.mixed_raw {
            // caching inside skipped-token constructs is refused by an assertion
            cfg.w[K_CACHE] = 0;
        }
    }
    let mut sys = Sys::new(t, cfg, true)?;
    if sys.src == Src::Lib && t.chance(1, 2) {
        let mut spec = sys.spec.clone().unwrap();
        for s in &mut spec.states {
            s.1.push(LexS::Pat(8, Re::Cls(vec![(0, 0x7f)])));
            s.1.push(LexS::Pat(3, Re::High));
        }
        if let Ok(Ok(x)) = guard(|| build_tok(&spec, LStyle::default())) {
            sys.tok = Some(x);
            sys.spec = Some(spec);
        }
    }
    let p = sys.par(&Style::default())?;
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..6 {
        let mut code = if t.chance(1, 2) { arb_bytes(t, 60) } else { sys.input(t) };
        if t.chance(1, 3) && !code.is_empty() {
            let i = t.below(code.len());
            code[i] = t.below(256) as u8;
        }
        let (steps, depth) = match sys.expect(&code) {
            None => (100_000, 2000),
            Some((w, _)) => {
                label(&w, &mut labels);
                if w.out == Out::Budget {
                    continue;
                }
                (w.steps, w.depth)
            }
        };
        lex_budget(400 * (code.len() + 2));
        mk::budget(50 * steps + 200_000, depth * 4 + 2000);
        let got = p.parse(&code);
        if let Err(m) = sane(&got) {
            return fail(m, sys.desc(&code));
        }
        if let Some(tk) = &sys.tok {
            lex_budget(400 * (code.len() + 2));
            if let Err(p) = lib_tok(tk, &code) {
                return fail(format!("tokenizing panicked: {}", p), sys.desc(&code));
            }
        }
        if steps > 3 && std::str::from_utf8(&code).is_err() {
            nt = true;
            if c.want_desc && desc.is_empty() {
                desc = format!("{}\n-> {:?}", sys.desc(&code), got);
            }
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}

// ------------------------------------------------------------------ C28

enum Piece {
    /// has to occur as a word
    Word(String),
    /// has to occur as text, in one of these forms
    Text(Vec<String>),
    /// all have to occur, in any order
    Set(Vec<String>),
}
fn esc(s: &str) -> String {
    let d = format!("{:?}", s);
    d[1..d.len() - 1].to_string()
}
fn re_forms(r: &Re) -> Vec<String> {
    let s = r.anchored();
    vec![s.replace('/', "\\/"), s]
}
fn pieces(g: &G, names: bool, out: &mut Vec<Piece>, top: bool) {
    if !top {
        if let Some(n) = mk::name_of(g, names) {
            out.push(Piece::Word(n.to_string()));
            return;
        }
    }
    let node = |v: &Option<u8>, out: &mut Vec<Piece>| {
        if let Some(n) = v {
            out.push(Piece::Word(format!("N{}", n)))
        }
    };
    match g {
        G::Tok(t, v) => {
            out.push(Piece::Word(format!("T{}", t)));
            node(v, out)
        }
        G::TokSet(v, _) => out.push(Piece::Set(v.iter().map(|(t, _)| format!("T{}", t)).collect())),
        G::Str(s, v) => {
            out.push(Piece::Text(vec![esc(s)]));
            node(v, out)
        }
        G::StrSet(v) | G::Punct(v) => out.push(Piece::Set(v.iter().map(|(s, _)| esc(s)).collect())),
        G::Regex(r, _) => out.push(Piece::Text(re_forms(r))),
        G::Null | G::NullHidden => {}
        G::Eof(_) => out.push(Piece::Word("EOF".into())),
        G::Ref(i) => out.push(Piece::Word(format!("R{}", i))),
        G::Node(x, n) => {
            pieces(x, names, out, false);
            out.push(Piece::Word(format!("N{}", n)))
        }
        _ => g.kids().iter().for_each(|k| pieces(k, names, out, false)),
    }
}
fn word_at(hay: &str, from: usize, w: &str) -> Option<usize> {
    let b = hay.as_bytes();
    let ok = |c: u8| !(c.is_ascii_alphanumeric() || c == b'_');
    let mut at = from;
    while let Some(i) = hay[at..].find(w).map(|i| i + at) {
        let e = i + w.len();
        if (i == 0 || ok(b[i - 1])) && (e == b.len() || ok(b[e])) {
            return Some(e);
        }
        at = i + 1;
        while !hay.is_char_boundary(at) {
            at += 1;
        }
    }
    None
}
/// Do the pieces occur in `body` in order?
fn in_order(body: &str, p: &[Piece]) -> Result<(), String> {
    let mut at = 0;
    for x in p {
        match x {
            Piece::Word(w) => match word_at(body, at, w) {
                Some(e) => at = e,
                None => return Err(format!("{} is missing or out of order", w)),
            },
            Piece::Text(v) => match v.iter().filter_map(|s| body[at..].find(s.as_str()).map(|i| at + i + s.len())).min() {
                Some(e) => at = e,
                None => return Err(format!("{:?} is missing or out of order", v[0])),
            },
            Piece::Set(v) => {
                for w in v {
                    if !body[at..].contains(w.as_str()) {
                        return Err(format!("{:?} of a set is missing or out of order", w));
                    }
                }
            }
        }
    }
    Ok(())
}
fn named<'a>(g: &'a G, out: &mut Vec<&'a G>) {
    if mk::name_of(g, true).is_some() {
        out.push(g);
    }
    g.kids().iter().for_each(|k| named(k, out));
}
/// Checks the printed definitions of all rules in `reach`.
pub fn printed(text: &str, gr: &Gram, reach: &BTreeSet<usize>, names: bool) -> Result<usize, String> {
    let end = text.find("fragment").unwrap_or(text.len());
    let text = &text[..end];
    let mut want: Vec<(String, Vec<Vec<Piece>>)> = vec![];
    for i in reach {
        let alts = match &gr.rules[*i] {
            Rule::Concat(v) => {
                let mut o = vec![];
                v.iter().for_each(|g| pieces(g, names, &mut o, false));
                vec![o]
            }
            Rule::Union(v) => v
                .iter()
                .map(|g| {
                    let mut o = vec![];
                    pieces(g, names, &mut o, false);
                    o
                })
                .collect(),
            Rule::Suffixes(l, st, v) => {
                let mut a: Vec<Vec<Piece>> = v
                    .iter()
                    .map(|(g, n)| {
                        let mut o = vec![];
                        pieces(l, names, &mut o, false);
                        pieces(g, names, &mut o, false);
                        o.push(Piece::Word(format!("N{}", n)));
                        o
                    })
                    .collect();
                if *st {
                    let mut o = vec![];
                    pieces(l, names, &mut o, false);
                    a.push(o);
                }
                a
            }
        };
        want.push((format!("R{}", i), alts));
    }
    if names {
        let mut seen = BTreeSet::new();
        for i in reach {
            let mut v = vec![];
            gr.rules[*i].parts().iter().for_each(|p| named(p, &mut v));
            for g in v {
                let n = mk::name_of(g, true).unwrap();
                if seen.insert(n) {
                    let mut o = vec![];
                    pieces(g, names, &mut o, true);
                    want.push((n.to_string(), vec![o]));
                }
            }
        }
    }
    // headers: a line that is just the name, before the line where the definition starts
    // (the text begins with the start symbol, which is no definition)
    let mut heads: Vec<(usize, usize, usize)> = vec![];
    let mut at = 0;
    for l in text.split_inclusive('\n') {
        if !text[at + l.len()..].trim_start().starts_with(':') {
        } else if let Some(k) = want.iter().position(|w| w.0 == l.trim_end()) {
            heads.push((at, at + l.len(), k));
        }
        at += l.len();
    }
    for (k, w) in want.iter().enumerate() {
        let n = heads.iter().filter(|h| h.2 == k).count();
        if n != 1 {
            return Err(format!("{} has {} definitions", w.0, n));
        }
    }
    for (j, h) in heads.iter().enumerate() {
        let e = heads.get(j + 1).map_or(text.len(), |n| n.0);
        let body = &text[h.1..e];
        let (name, alts) = &want[h.2];
        if !body.lines().any(|l| l.trim_end().ends_with(';')) {
            return Err(format!("the definition of {} is not ended", name));
        }
        let mut flat = vec![];
        for a in alts {
            for p in a {
                flat.push(match p {
                    Piece::Word(w) => Piece::Word(w.clone()),
                    Piece::Text(v) => Piece::Text(v.clone()),
                    Piece::Set(v) => Piece::Set(v.clone()),
                });
            }
        }
        in_order(body, &flat).map_err(|m| format!("in the definition of {}: {}", name, m))?;
    }
    Ok(want.len())
}
fn lex_fields(l: &LexS, out: &mut Vec<(u8, Vec<String>)>) {
    match l {
        LexS::Pat(t, r) => out.push((*t, re_forms(r))),
        LexS::Punct(v) | LexS::Consts(v) => v.iter().for_each(|(s, t)| out.push((*t, vec![esc(s)]))),
        LexS::Map(x, v) => {
            v.iter().for_each(|(s, t)| out.push((*t, vec![esc(s)])));
            lex_fields(x, out)
        }
        LexS::Thunk(x, _) | LexS::Mid(x, _) | LexS::State(x, _) | LexS::ThState(x, _, _) => lex_fields(x, out),
    }
}
fn printed_lexemes(text: &str, spec: &LexSpec) -> Result<(), String> {
    // sections
    let mut at = vec![];
    let mut i = 0;
    while let Some(k) = text[i..].find("fragment") {
        at.push(i + k);
        i += k + 8;
    }
    if at.len() != spec.states.len() {
        return Err(format!("{} lexeme sections for {} states", at.len(), spec.states.len()));
    }
    for (st, ls) in &spec.states {
        let mut fields = vec![];
        ls.iter().for_each(|l| lex_fields(l, &mut fields));
        let sec: Vec<&str> = at
            .iter()
            .enumerate()
            .map(|(j, a)| &text[*a..at.get(j + 1).copied().unwrap_or(text.len())])
            .filter(|s| {
                let head = s.split('\n').next().unwrap_or("");
                spec.plain || word_at(head, 0, &format!("{}", st)).is_some()
            })
            .collect();
        if sec.len() != 1 {
            return Err(format!("state {} has {} sections", st, sec.len()));
        }
        let body = sec[0];
        for (k, forms) in &fields {
            let w = format!("T{}", k);
            let found = forms.iter().any(|f| {
                body.match_indices(f.as_str()).any(|(i, _)| {
                    let ls = body[..i].rfind('\n').map_or(0, |x| x + 1);
                    word_at(&body[ls..i], 0, &w).is_some()
                })
            });
            if !found {
                return Err(format!("state {}: {} with {:?} is not listed", st, w, forms[0]));
            }
        }
    }
    Ok(())
}
pub fn c28(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut cfg = Cfg::new(t.chance(1, 2));
    cfg.w[K_CACHE] = 3;
    cfg.w[K_VALID] = 3;
    cfg.w[K_REF] = 24;
    cfg.max_rules = 8;
    cfg.rw = [5, 4, 3];
    if cfg.tokenized && t.chance(1, 2) {
        cfg.w[K_NONSTR] = 3;
        cfg.w[K_STRUCT] = 2;
    }
    let mut sys = Sys::new(t, cfg, false)?;
    if sys.src != Src::None {
        // the harness's own tokenizer prints nothing
        let states = t.chance(1, 2);
        let spec = gen_spec(t, &LCfg { states: if states { 4 } else { 1 }, state_actions: states, ..LCfg::default() });
        sys.tok = match guard(|| build_tok(&spec, LStyle::default())) {
            Ok(Ok(x)) => Some(x),
            _ => return Ok(Rep { labels: vec!["discarded"], ..Rep::default() }),
        };
        sys.spec = Some(spec);
        sys.fixed_tokens = false;
    }
    let names = t.chance(1, 2);
    let p = sys.par(&Style { names, ..Style::default() })?;
    let print = || {
        mk::budget(500_000, 5000);
        guard(|| match &p {
            Par::B(p, _) => p.grammar(),
            Par::T(p, _) => p.grammar(),
        })
    };
    let d = |x: &str| format!("{}{}printed:\n{}", sys.g.show(), sys.spec.as_ref().map_or(String::new(), |s| s.show()), x);
    let text = match print() {
        Err(p) => return fail(format!("printing the grammar panicked: {}", p), d("")),
        Ok(Err(e)) => return fail(format!("printing the grammar failed: {}", e), d("")),
        Ok(Ok(s)) => s,
    };
    if utf8(&text).is_err() {
        return fail("the printed grammar is not valid UTF-8", d(&String::from_utf8_lossy(text.as_bytes())));
    }
    let reach = sys.g.reachable();
    let n = match printed(&text, &sys.g, &reach, names) {
        Ok(n) => n,
        Err(m) => return fail(m, d(&text)),
    };
    // the tokenizer's part, also on its own
    if let (Some(tok), Some(spec)) = (&sys.tok, &sys.spec) {
        let alone = match guard(|| tok.build_grammar()) {
            Err(p) => return fail(format!("printing the tokenizer panicked: {}", p), d("")),
            Ok(Err(e)) => return fail(format!("printing the tokenizer failed: {}", e), d("")),
            Ok(Ok(s)) => s,
        };
        let k = text.find("fragment").unwrap_or(text.len());
        if let Err(m) = printed_lexemes(&alone, spec).and_then(|_| printed_lexemes(&text[k..], spec)) {
            return fail(m, d(&text));
        }
    }
    // every registered rule can be printed on its own
    let from = t.below(sys.g.rules.len());
    mk::budget(500_000, 5000);
    let one = guard(|| match &p {
        Par::B(_, b) => b.rule(from).build_grammar(),
        Par::T(_, b) => b.rule(from).build_grammar(),
    });
    match one {
        Ok(Ok(s)) => {
            if let Err(m) = printed(&s, &sys.g, &sys.g.reachable_from(from), names) {
                return fail(format!("printing rule R{}: {}", from, m), d(&s));
            }
        }
        o => return fail(format!("printing rule R{} gave {:?}", from, o), d("")),
    }
    let mut labels = vec![if sys.src == Src::None { "lexerless" } else { "tokenized" }];
    if sys.g.left_closure().len() > 0 && reach.iter().any(|i| {
        let mut o = BTreeSet::new();
        sys.g.rules[*i].parts().iter().for_each(|g| g.refs(&mut o));
        o.iter().any(|j| sys.g.reachable_from(*j).contains(i))
    }) {
        labels.push("recursive");
    }
    Ok(Rep { nontrivial: n >= 3, labels, desc: if c.want_desc { d(&text) } else { String::new() }, digest: String::new() })
}

// ------------------------------------------------------------------ C29

type A = ASTNode<Nd>;

fn gen_tree(t: &mut Tape, depth: usize, at: &mut usize, left: &mut usize) -> A {
    let n = Nd(t.below(6) as u8);
    let s = *at;
    let mut c = vec![];
    if depth > 0 {
        for _ in 0..t.below(5) {
            if *left == 0 {
                break;
            }
            *left -= 1;
            c.push(gen_tree(t, depth - 1, at, left));
        }
    }
    *at += t.below(3);
    match (c.is_empty(), t.chance(1, 8)) {
        (true, true) => A::null(s, None),
        (true, false) => A::leaf(n, s, *at, None),
        _ => A::new(n, s, *at, None, c),
    }
}
/// Nodes in pre-order.
fn walk(a: &A) -> Vec<&A> {
    let mut out = vec![];
    let mut st = vec![a];
    while let Some(x) = st.pop() {
        out.push(x);
        st.extend(x.children.iter().rev());
    }
    out
}
fn same(a: Option<&A>, b: Option<&A>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => std::ptr::eq(x, y),
        _ => false,
    }
}
fn show_q(a: Option<&A>) -> String {
    a.map_or("nothing".into(), |x| format!("{:?} ({:p})", from_ast(x), x))
}
fn same_list(a: &[&A], b: &[&A]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| std::ptr::eq(*x, *y))
}
fn queries(t: &mut Tape, root: &A) -> Result<bool, String> {
    let all = walk(root);
    let mut nt = false;
    for _ in 0..6 {
        // mostly the root, sometimes a node inside
        let x: &A = if t.chance(1, 3) { all[t.below(all.len())] } else { root };
        let w = walk(x);
        let v = Nd(t.below(7) as u8);
        let k = t.below(4);
        let pred = |a: &A| match k {
            0 => a.start % 2 == 1,
            1 => a.children.len() == 2,
            2 => a.node.0 % 2 == 0 && !a.children.is_empty(),
            _ => a.end > a.start + 1,
        };
        let err = |q: String, want: String, got: String| Err(format!("{} on {:?}\nexpected {}\ngot      {}", q, from_ast(x), want, got));
        let want = w.iter().find(|a| a.node == v).copied();
        let got = x.find_tree_with_node(&v);
        if !same(want, got) {
            return err(format!("find_tree_with_node({:?})", v), show_q(want), show_q(got));
        }
        let has = x.contains(&v);
        if has != want.is_some() {
            return err(format!("contains({:?})", v), format!("{}", want.is_some()), format!("{}", has));
        }
        let want: Vec<&A> = w.iter().filter(|a| a.node == v).copied().collect();
        let got = x.list_tree_with_token(&v);
        if !same_list(&want, &got) {
            return err(format!("list_tree_with_token({:?})", v), format!("{:?}", want), format!("{:?}", got));
        }
        nt |= want.len() >= 2;
        let want = w.iter().find(|a| pred(a)).copied();
        let got = x.find_tree(&pred);
        if !same(want, got) {
            return err(format!("find_tree(predicate {})", k), show_q(want), show_q(got));
        }
        let want: Vec<&A> = w.iter().filter(|a| pred(a)).copied().collect();
        let got = x.list_tree(&pred);
        if !same_list(&want, &got) {
            return err(format!("list_tree(predicate {})", k), format!("{:?}", want), format!("{:?}", got));
        }
        let want = x.children.iter().find(|a| a.node == v);
        let got = x.get_child(&v);
        if !same(want, got) {
            return err(format!("get_child({:?})", v), show_q(want), show_q(got));
        }
        let path: Vec<Nd> = (0..t.below(5)).map(|_| Nd(t.below(6) as u8)).collect();
        let mut want = Some(x);
        for p in &path {
            want = want.and_then(|y| walk(y).into_iter().find(|a| a.node == *p));
        }
        let got = x.find_nested_tree_with_node(&path);
        if !same(want, got) {
            return err(format!("find_nested_tree_with_node({:?})", path), show_q(want), show_q(got));
        }
    }
    Ok(nt)
}
pub fn c29(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut roots: Vec<A> = vec![];
    let mut labels = vec![];
    if t.chance(1, 4) {
        // trees as the parsers return them
        labels.push("parsed tree");
        let mut cfg = Cfg::new(t.chance(1, 2));
        cfg.w[K_NODE] = 12;
        let sys = Sys::new(t, cfg, false)?;
        let p = sys.par(&Style::default())?;
        for _ in 0..3 {
            let code = sys.input(t);
            if let Some((w, _)) = sys.expect(&code) {
                if w.out == Out::Budget {
                    continue;
                }
                sys.allow(&w, &code);
                let r = guard(|| match &p {
                    Par::B(p, _) => p.parse(&code),
                    Par::T(p, _) => p.parse(&code),
                });
                if let Ok(Ok(v)) = r {
                    roots.extend(v);
                }
            }
        }
    } else {
        labels.push("constructed tree");
        let mut at = 0;
        if t.chance(1, 300) {
            labels.push("large tree");
            let mut left = *t.pick(&[400usize, 1500]);
            let d = t.range(5, 40);
            let mut x = gen_tree(t, d, &mut at, &mut left);
            // wide and deep around it
            for _ in 0..t.below(3) {
                if t.chance(1, 2) {
                    for _ in 0..t.below(300) {
                        let (s, n) = (x.start, Nd(t.below(6) as u8));
                        x = A::new(n, s, at, None, vec![x]);
                    }
                } else {
                    let mut c = vec![x];
                    for _ in 0..t.below(300) {
                        c.push(gen_tree(t, 1, &mut at, &mut 3));
                    }
                    let by = t.below(c.len());
                    c.rotate_left(by);
                    x = A::new(Nd(6), 0, at, None, c);
                }
            }
            roots.push(x);
        } else {
            let mut left = t.pick(&[6usize, 20, 60]).clone();
            let d = t.range(1, 9);
            roots.push(gen_tree(t, d, &mut at, &mut left));
        }
    }
    let mut nt = false;
    for r in &roots {
        // what is printed for a reader, and copies
        fn numbers(r: &A, out: &mut Vec<usize>) {
            out.extend([r.node.0 as usize, r.start, r.end]);
            r.children.iter().for_each(|c| numbers(c, out));
        }
        let mut want = vec![];
        numbers(r, &mut want);
        if want.len() < 600 && t.chance(1, 12) {
            for (how, text) in [("debug text", format!("{:?}", r)), ("indented debug text", format!("{:#?}", r)), ("display text", format!("{}", r))] {
                if crate::p_gram::ints(&text) != want {
                    return fail(format!("the {} does not name kind and extent of every node in pre-order: {}", how, text), format!("tree {:?}", from_ast(r)));
                }
            }
            if from_ast(&r.clone()) != from_ast(r) {
                return fail("a cloned tree is different", format!("tree {:?}", from_ast(r)));
            }
        }
        match guard(|| queries(t, r)) {
            Ok(Ok(b)) => nt |= b,
            Ok(Err(m)) => return fail(m, format!("tree {:?}", from_ast(r))),
            Err(p) => return fail(format!("a query panicked: {}", p), format!("tree {:?}", from_ast(r))),
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc: if c.want_desc { roots.first().map_or(String::new(), |r| format!("tree {:?}", from_ast(r))) } else { String::new() }, digest: String::new() })
}

//! The shipped JSON grammars against a hand-written recogniser of their documented rules.
use crate::engine::*;
use crate::p_lex::{fail, show_bytes};
use crate::tape::Tape;
use lang_pt::examples::json::{lexerless as jl, tokenized as jt};
use lang_pt::*;

thread_local! {
    static L: LexerlessParser<jl::JSONNode> = jl::json_lexerless_grammar();
    static D: DefaultParser<jt::JSONNode, jt::JSONToken> = jt::json_grammar();
}

/// Kind, byte extent, children.
#[derive(Clone, PartialEq, Debug)]
pub struct J {
    pub k: &'static str,
    pub s: usize,
    pub e: usize,
    pub c: Vec<J>,
}

fn jl_kind(n: &jl::JSONNode) -> &'static str {
    match n {
        jl::JSONNode::String => "String",
        jl::JSONNode::Number => "Number",
        jl::JSONNode::Constant => "Constant",
        jl::JSONNode::Array => "Array",
        jl::JSONNode::Object => "Object",
        jl::JSONNode::Item => "Item",
        jl::JSONNode::Main => "Main",
        jl::JSONNode::NULL => "NULL",
    }
}
fn jt_kind(n: &jt::JSONNode) -> &'static str {
    match n {
        jt::JSONNode::Key => "Key",
        jt::JSONNode::String => "String",
        jt::JSONNode::Number => "Number",
        jt::JSONNode::Constant => "Constant",
        jt::JSONNode::Array => "Array",
        jt::JSONNode::Object => "Object",
        jt::JSONNode::Item => "Item",
        jt::JSONNode::Main => "Main",
        jt::JSONNode::NULL => "NULL",
    }
}
fn conv<N>(a: &ASTNode<N>, k: &dyn Fn(&N) -> &'static str) -> J {
    J { k: k(&a.node), s: a.start, e: a.end, c: a.children.iter().map(|c| conv(c, k)).collect() }
}

// ------------------------------------------------------------------ reference

struct P<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
}
/// One character of well-formed UTF-8 at `i`.
fn ch(b: &[u8], i: usize) -> Option<char> {
    let r = &b[i.min(b.len())..];
    (1..=r.len().min(4)).find_map(|n| std::str::from_utf8(&r[..n]).ok()).and_then(|s| s.chars().next())
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while let Some(c) = ch(self.b, self.i) {
            if !c.is_whitespace() {
                break;
            }
            self.i += c.len_utf8();
        }
    }
    fn string(&mut self) -> Option<(usize, usize)> {
        let s = self.i;
        if self.peek() != Some(b'"') {
            return None;
        }
        let mut i = s + 1;
        loop {
            let c = ch(self.b, i)?;
            match c {
                '"' => {
                    self.i = i + 1;
                    return Some((s, i + 1));
                }
                '\r' | '\n' => return None,
                '\\' => {
                    // a line continuation, or any one character but a newline
                    let mut j = i + 1;
                    while let Some(w) = ch(self.b, j) {
                        if !w.is_whitespace() || w == '\r' || w == '\n' {
                            break;
                        }
                        j += w.len_utf8();
                    }
                    match ch(self.b, j) {
                        Some('\r') | Some('\n') => i = j + 1,
                        _ => {
                            let n = ch(self.b, i + 1)?;
                            i = i + 1 + n.len_utf8()
                        }
                    }
                }
                c => i += c.len_utf8(),
            }
        }
    }
    fn digits(&self, mut i: usize) -> usize {
        while self.b.get(i).map_or(false, |c| c.is_ascii_digit()) {
            i += 1;
        }
        i
    }
    fn number(&mut self) -> Option<(usize, usize)> {
        let s = self.i;
        let mut i = self.digits(s);
        if i == s {
            return None;
        }
        if self.b.get(i) == Some(&b'.') && self.digits(i + 1) > i + 1 {
            i = self.digits(i + 1);
        }
        if matches!(self.b.get(i), Some(b'e') | Some(b'E')) {
            let mut j = i + 1;
            if matches!(self.b.get(j), Some(b'+') | Some(b'-')) {
                j += 1;
            }
            if self.digits(j) > j {
                i = self.digits(j);
            }
        }
        self.i = i;
        Some((s, i))
    }
    fn value(&mut self) -> Option<J> {
        let s = self.i;
        match self.peek()? {
            b'"' => self.string().map(|(s, e)| J { k: "String", s, e, c: vec![] }),
            b'0'..=b'9' => self.number().map(|(s, e)| J { k: "Number", s, e, c: vec![] }),
            b'{' | b'[' => {
                self.depth += 1;
                let obj = self.peek() == Some(b'{');
                let close = if obj { b'}' } else { b']' };
                self.i += 1;
                self.ws();
                let mut c = vec![];
                if self.peek() == Some(close) {
                    c.push(J { k: "NULL", s: self.i, e: self.i, c: vec![] });
                } else {
                    loop {
                        if obj {
                            let (ks, ke) = self.string()?;
                            self.ws();
                            if self.peek() != Some(b':') {
                                return None;
                            }
                            self.i += 1;
                            self.ws();
                            let v = self.value()?;
                            let e = v.e;
                            c.push(J { k: "Item", s: ks, e, c: vec![J { k: "Key", s: ks, e: ke, c: vec![] }, v] });
                        } else {
                            c.push(self.value()?);
                        }
                        self.ws();
                        if self.peek() == Some(b',') {
                            // a comma may follow the last member
                            self.i += 1;
                            self.ws();
                            if self.peek() == Some(close) {
                                break;
                            }
                        } else {
                            break;
                        }
                    }
                }
                if self.peek() != Some(close) {
                    return None;
                }
                self.i += 1;
                self.depth -= 1;
                Some(J { k: if obj { "Object" } else { "Array" }, s, e: self.i, c })
            }
            _ => {
                for w in ["true", "false", "null"] {
                    if self.b[s..].starts_with(w.as_bytes()) {
                        self.i = s + w.len();
                        return Some(J { k: "Constant", s, e: self.i, c: vec![] });
                    }
                }
                None
            }
        }
    }
}
pub fn reference(b: &[u8]) -> Option<J> {
    let mut p = P { b, i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i == b.len() {
        Some(v)
    } else {
        None
    }
}

// ------------------------------------------------------------------ generation

fn space(t: &mut Tape, o: &mut Vec<u8>) {
    if t.chance(1, 3) {
        for _ in 0..t.range(1, 3) {
            o.extend_from_slice(t.pick(&[" ", "\n", "\t", "\r\n", "\u{a0}", "\u{2028}", "\x0b", "\u{3000}", "\u{85}"]).as_bytes());
        }
    }
}
fn string(t: &mut Tape, o: &mut Vec<u8>) {
    o.push(b'"');
    let big = if t.chance(1, 400) { *t.pick(&[40usize, 300, 3000]) } else { 6 };
    if big > 6 && t.chance(1, 2) {
        let k = t.range(200, 9000);
        o.extend(std::iter::repeat(*t.pick(b"a1 {\\/")).take(k & !1));
    }
    for _ in 0..t.below(big) {
        o.extend_from_slice(
            t.pick(&["a", "\\\"", "\\\\", "é", "\\n", "\\u00e9", "/", "{", "]", ",", ":", "\\\n", "\\ \t\r", "\\ x", "\t", "\u{1F600}", "1", "true", "'", " ", "\u{2028}", "\\é", "\x7f", "\\/"]).as_bytes(),
        );
    }
    o.push(b'"');
}
fn number(t: &mut Tape, o: &mut Vec<u8>) {
    if t.chance(1, 300) {
        // many digits in one of the parts
        let k = t.below(3);
        for i in 0..3 {
            let n = if i == k { t.range(20, 6000) } else { t.range(1, 3) };
            let d = b'0' + t.below(10) as u8;
            if i == 1 {
                o.push(b'.');
            }
            if i == 2 {
                o.push(b'e');
            }
            o.extend(std::iter::repeat(d).take(n));
            if t.chance(1, 3) {
                break;
            }
        }
        return;
    }
    o.extend_from_slice(t.pick(&["0", "7", "12", "00", "123456789012345678901234567890", "1.5", "0.0", "3e8", "3E+8", "1.25e-10", "9E0", "42.0e00"]).as_bytes());
}
fn value(t: &mut Tape, o: &mut Vec<u8>, depth: usize) {
    let k = if depth == 0 { t.weighted(&[3, 3, 3]) } else { t.weighted(&[3, 3, 3, 6, 6]) };
    match k {
        0 => number(t, o),
        1 => o.extend_from_slice(t.pick(&["true", "false", "null"]).as_bytes()),
        2 => string(t, o),
        k => {
            let obj = k == 3;
            o.push(if obj { b'{' } else { b'[' });
            space(t, o);
            let many = depth <= 4 && t.chance(1, 300);
            let n = if many { t.range(20, 600) } else { t.below(4) };
            for i in 0..n {
                if i > 0 {
                    o.push(b',');
                    space(t, o);
                }
                if obj {
                    string(t, o);
                    space(t, o);
                    o.push(b':');
                    space(t, o);
                }
                value(t, o, if many { 0 } else { depth - 1 });
                space(t, o);
            }
            if n > 0 && t.chance(1, 6) {
                o.push(b',');
                space(t, o);
            }
            o.push(if obj { b'}' } else { b']' });
        }
    }
}
const SOUP: &[&str] = &["{", "}", "[", "]", ",", ":", "\"", "\\", "1", "0", ".", "e", "E", "+", "-", "true", "false", "null", "tru", " ", "\n", "\"a\"", "\"a\":", "1.", "1e", "é", "\u{a0}", "x"];
pub fn input(t: &mut Tape, mutate: bool) -> Vec<u8> {
    let mut o = vec![];
    if t.chance(1, 8) {
        for _ in 0..t.below(12) {
            o.extend_from_slice(t.pick(SOUP).as_bytes());
        }
    } else {
        // a few texts are nested deeply
        let deep = if t.chance(1, 100) { t.range(10, 150) } else { 0 };
        let mut close = vec![];
        for _ in 0..deep {
            space(t, &mut o);
            if t.chance(1, 3) {
                o.extend_from_slice(b"{\"k\":");
                close.push(b'}');
            } else {
                o.push(b'[');
                close.push(b']');
            }
        }
        let d = t.below(5);
        space(t, &mut o);
        value(t, &mut o, d);
        while let Some(b) = close.pop() {
            o.push(b);
            space(t, &mut o);
        }
        space(t, &mut o);
    }
    if mutate {
        for _ in 0..t.weighted(&[5, 4, 2, 1]) {
            let i = t.below(o.len() + 1);
            match t.below(5) {
                0 if i < o.len() => {
                    o.remove(i);
                }
                1 => {
                    let s = t.pick(SOUP).as_bytes().to_vec();
                    o.splice(i..i, s);
                }
                2 if i < o.len() => o[i] = *t.pick(b"{}[],:\"\\1.eE+-tn \n\rx\xff\xc3\x80\0"),
                3 => {
                    let j = t.range(i, (i + 6).min(o.len()));
                    let s = o[i..j].to_vec();
                    o.splice(i..i, s);
                }
                _ => {
                    if t.chance(1, 3) {
                        o.truncate(i)
                    }
                }
            }
        }
    }
    o
}
type JRes = Result<Result<Vec<J>, (usize, String)>, String>;
fn lexerless(code: &[u8]) -> JRes {
    guard(|| L.with(|p| p.parse(code).map(|v| v.iter().map(|a| conv(a, &jl_kind)).collect()).map_err(|e| (e.pointer, e.message))))
}
fn tokenized(code: &[u8]) -> JRes {
    guard(|| D.with(|p| p.parse(code).map(|v| v.iter().map(|a| conv(a, &jt_kind)).collect()).map_err(|e| (e.pointer, e.message))))
}
fn count(j: &J) -> usize {
    1 + j.c.iter().map(count).sum::<usize>()
}
/// Without the null nodes; keys as strings where the grammar has no own kind for them.
fn plain(j: &J, key: &'static str) -> J {
    J { k: if j.k == "Key" { key } else { j.k }, s: j.s, e: j.e, c: j.c.iter().filter(|c| c.k != "NULL").map(|c| plain(c, key)).collect() }
}
fn tighten(j: &mut J, code: &[u8]) {
    if j.k == "Object" || j.k == "Array" || j.k == "Item" {
        let s = String::from_utf8_lossy(&code[j.s..j.e]);
        if let std::borrow::Cow::Borrowed(s) = s {
            j.e = j.s + s.trim_end_matches(char::is_whitespace).len();
        }
    }
    j.c.iter_mut().for_each(|c| tighten(c, code));
}
fn kinds(j: &J) -> String {
    format!("{}({})", if j.k == "Key" { "String" } else { j.k }, j.c.iter().map(kinds).collect::<Vec<_>>().join(" "))
}
fn check(code: &[u8]) -> Result<Option<usize>, String> {
    let want = reference(code);
    let a = lexerless(code);
    let b = tokenized(code);
    for (name, key, r) in [("lexerless", "String", &a), ("tokenized", "Key", &b)] {
        match (&want, r) {
            (_, Err(p)) => return Err(format!("the {} parser panicked: {}", name, p)),
            (Some(w), Ok(Ok(v))) => {
                if v.len() != 1 || v[0].k != "Main" {
                    return Err(format!("the {} parser did not return one Main tree: {:?}", name, v));
                }
                let mut body: Vec<J> = v[0].c.iter().map(|c| plain(c, key)).collect();
                if key == "Key" {
                    // with a tokenizer, containers extend to the next structural token
                    body.iter_mut().for_each(|j| tighten(j, code));
                }
                if body != vec![plain(w, key)] {
                    return Err(format!("the {} parser returned another tree\nexpected {:?}\ngot      {:?}", name, plain(w, key), body));
                }
            }
            (None, Ok(Err(_))) => {}
            (Some(w), Ok(Err(e))) => return Err(format!("the {} parser rejected a text of its language: {:?}\nexpected {:?}", name, e, w)),
            (None, Ok(Ok(v))) => return Err(format!("the {} parser accepted a text outside its language: {:?}", name, v)),
        }
    }
    if let (Ok(Ok(x)), Ok(Ok(y))) = (&a, &b) {
        let (x, y) = (x.iter().map(kinds).collect::<Vec<_>>(), y.iter().map(kinds).collect::<Vec<_>>());
        if x != y {
            return Err(format!("the two trees differ in shape\nlexerless {:?}\ntokenized {:?}", x, y));
        }
    }
    // well-formed JSON with non-negative numbers has to be accepted: second opinion
    if want.is_none() {
        if let Ok(v) = serde_json::from_slice::<serde_json::Value>(code) {
            fn neg(v: &serde_json::Value) -> bool {
                match v {
                    serde_json::Value::Number(n) => n.to_string().starts_with('-'),
                    serde_json::Value::Array(a) => a.iter().any(neg),
                    serde_json::Value::Object(o) => o.values().any(neg),
                    _ => false,
                }
            }
            // repeated keys may hide a negative number
            if !neg(&v) && !code.windows(2).any(|w| w[0] == b'-' && !matches!(w[1], b' ')) {
                return Err("well-formed JSON is rejected".into());
            }
        }
    }
    Ok(want.map(|w| count(&w)))
}
/// What both shipped parsers say, in short.
pub fn outcome(code: &[u8]) -> String {
    let one = |r: JRes| match r {
        Ok(Ok(v)) => format!("ok {:?};", v),
        Ok(Err((p, m))) => format!("error at {} {:?};", p, m.trim_end().lines().last()),
        Err(_) => "panic;".to_string(),
    };
    one(lexerless(code)) + &one(tokenized(code))
}
pub fn c25(t: &mut Tape, c: &Ctx) -> CaseResult {
    let mut labels = vec![];
    let mut nt = false;
    let mut desc = String::new();
    for _ in 0..4 {
        let m = t.chance(1, 2);
        let code = input(t, m);
        match check(&code) {
            Err(m) => return fail(m, format!("input {}", show_bytes(&code))),
            Ok(Some(n)) => {
                labels.push("accepted");
                if n >= 4 {
                    nt = true;
                    if c.want_desc && desc.is_empty() {
                        desc = format!("input {}", show_bytes(&code));
                    }
                }
            }
            Ok(None) => labels.push("rejected"),
        }
    }
    Ok(Rep { nontrivial: nt, labels, desc, digest: String::new() })
}
/// Robustness of the shipped parsers: arbitrary bytes, deep nesting.
pub fn fuzz(t: &mut Tape, c: &Ctx) -> CaseResult {
    let code = match t.below(3) {
        0 => crate::p_more::arb_bytes(t, 80),
        1 => input(t, true),
        _ => {
            let n = if t.chance(1, 20) { t.below(3000) } else { t.below(200) };
            let mut o = vec![];
            let mut close = vec![];
            for i in 0..n {
                if i % 3 == 1 {
                    o.extend_from_slice(b"{\"k\":");
                    close.push(b'}')
                } else {
                    o.extend_from_slice(b"[");
                    close.push(b']')
                }
            }
            o.push(b'1');
            close.reverse();
            let cut = t.below(close.len() + 1);
            close.truncate(if t.chance(1, 2) { close.len() } else { cut });
            o.extend(close);
            o
        }
    };
    for r in [lexerless(&code), tokenized(&code)] {
        match r {
            Err(p) => return fail(format!("a shipped JSON parser panicked: {}", p), format!("input {}", show_bytes(&code))),
            Ok(Err((_, m))) => {
                if std::str::from_utf8(m.as_bytes()).is_err() {
                    return fail("the error message is not valid UTF-8", format!("input {}", show_bytes(&code)));
                }
            }
            _ => {}
        }
    }
    Ok(Rep { nontrivial: code.len() > 20, labels: vec!["shipped parsers"], desc: if c.want_desc { format!("input {}", clip(&show_bytes(&code), 300)) } else { String::new() }, digest: String::new() })
}

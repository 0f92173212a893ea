//! Own small regular-expression type: prints to the syntax the library's engine takes and
//! matches with leftmost-first (ordered) semantics.
use crate::tape::Tape;

#[derive(Clone, Debug)]
pub enum Re {
    Lit(String),
    /// ASCII ranges, maybe negated is not needed.
    Cls(Vec<(u8, u8)>),
    /// any single byte >= 0x80
    High,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    /// min (0 or 1), unbounded?, greedy
    Rep(Box<Re>, u8, bool, bool),
    /// ASCII word boundary of the remaining text; only used at top level of lexemes
    Wb,
    /// end of the text; two spellings
    End(bool),
}

impl Re {
    pub fn nullable(&self) -> bool {
        match self {
            Re::Lit(s) => s.is_empty(),
            Re::Cls(_) | Re::High => false,
            Re::Wb => false, // not on the empty text
            Re::End(_) => true,
            Re::Cat(v) => v.iter().all(|r| r.nullable()),
            Re::Alt(v) => v.iter().any(|r| r.nullable()),
            Re::Rep(r, min, _, _) => *min == 0 || r.nullable(),
        }
    }
    pub fn src(&self) -> String {
        match self {
            Re::Lit(s) => {
                let mut o = String::new();
                for c in s.chars() {
                    match c {
                        '\n' => o.push_str("\\n"),
                        c if c.is_ascii_alphanumeric() || !c.is_ascii() || c == ' ' || c == '=' || c == '"' || c == '<' || c == '>' || c == '_' || c == '\'' || c == ',' || c == ';' || c == ':' || c == '!' || c == '%' || c == '@' || c == '/' => o.push(c),
                        c => {
                            o.push('\\');
                            o.push(c)
                        }
                    }
                }
                o
            }
            Re::Cls(v) => {
                let mut o = String::from("[");
                for (a, b) in v {
                    o.push_str(&format!("\\x{:02x}", a));
                    if a != b {
                        o.push_str(&format!("-\\x{:02x}", b));
                    }
                }
                o.push(']');
                o
            }
            Re::High => "(?-u:[\\x80-\\xff])".into(),
            Re::Wb => "(?-u:\\b)".into(),
            Re::End(true) => "$".into(),
            Re::End(false) => "\\z".into(),
            Re::Cat(v) => v
                .iter()
                .map(|r| match r {
                    Re::Alt(_) => format!("(?:{})", r.src()),
                    _ => r.src(),
                })
                .collect(),
            Re::Alt(v) => v.iter().map(|r| r.src()).collect::<Vec<_>>().join("|"),
            Re::Rep(r, min, unb, greedy) => {
                let q = match (min, unb) {
                    (0, false) => "?",
                    (0, true) => "*",
                    (_, true) => "+",
                    (_, false) => "{1}",
                };
                format!("(?:{}){}{}", r.src(), q, if *greedy { "" } else { "?" })
            }
        }
    }
    /// As one unit.
    pub fn group(&self) -> String {
        match self {
            Re::Alt(_) => format!("(?:{})", self.src()),
            _ => self.src(),
        }
    }
    pub fn anchored(&self) -> String {
        format!("^(?:{})", self.src())
    }
    /// End of the leftmost-first match starting exactly at `p` (breadth-first simulation of a
    /// prioritized automaton, so the cost is linear in the text).
    pub fn find(&self, s: &[u8], p: usize) -> Option<usize> {
        let mut prog = vec![];
        self.compile(&mut prog);
        prog.push(Op::Match);
        run(&prog, &s[p..]).map(|e| e + p)
    }
    fn compile<'a>(&'a self, o: &mut Vec<Op<'a>>) {
        match self {
            Re::Lit(l) => l.bytes().for_each(|b| o.push(Op::One(b))),
            Re::Cls(v) => o.push(Op::Set(v)),
            Re::High => o.push(Op::High),
            Re::Wb => o.push(Op::Wb),
            Re::End(_) => o.push(Op::End),
            Re::Cat(v) => v.iter().for_each(|r| r.compile(o)),
            Re::Alt(v) => {
                let mut ends = vec![];
                for (i, r) in v.iter().enumerate() {
                    if i + 1 < v.len() {
                        let at = o.len();
                        o.push(Op::Split(0, 0));
                        r.compile(o);
                        ends.push(o.len());
                        o.push(Op::Jmp(0));
                        o[at] = Op::Split(at + 1, o.len());
                    } else {
                        r.compile(o);
                    }
                }
                let end = o.len();
                ends.into_iter().for_each(|e| o[e] = Op::Jmp(end));
            }
            Re::Rep(r, min, unb, greedy) => {
                let split = |a, b| if *greedy { Op::Split(a, b) } else { Op::Split(b, a) };
                match (*min, *unb) {
                    (1, false) => r.compile(o),
                    (0, false) => {
                        let at = o.len();
                        o.push(Op::Match);
                        r.compile(o);
                        o[at] = split(at + 1, o.len());
                    }
                    (1, true) => {
                        let at = o.len();
                        r.compile(o);
                        let here = o.len();
                        o.push(split(at, here + 1));
                    }
                    _ => {
                        let at = o.len();
                        o.push(Op::Match);
                        r.compile(o);
                        o.push(Op::Jmp(at));
                        o[at] = split(at + 1, o.len());
                    }
                }
            }
        }
    }
    /// Some text matched by the expression.
    pub fn spell(&self, t: &mut Tape, out: &mut Vec<u8>) {
        match self {
            Re::Lit(s) => out.extend_from_slice(s.as_bytes()),
            Re::Cls(v) => {
                let (a, b) = *t.pick(v);
                out.push(a + t.below((b - a) as usize + 1) as u8)
            }
            Re::High => out.push(0x80 + t.below(128) as u8),
            Re::Wb | Re::End(_) => {}
            Re::Cat(v) => v.iter().for_each(|r| r.spell(t, out)),
            Re::Alt(v) => t.pick(v).spell(t, out),
            Re::Rep(r, min, unb, _) => {
                let n = *min as usize + if *unb { t.below(3) } else { t.below(2) * (1 - *min as usize) };
                // long matches
                let n = if *unb && t.chance(1, 200) { if t.chance(1, 150) { 65_536 - t.below(4) } else { *t.pick(&[20usize, 32, 64, 130, 260]) } } else { n };
                for _ in 0..n {
                    r.spell(t, out)
                }
            }
        }
    }
}

enum Op<'a> {
    One(u8),
    Set(&'a [(u8, u8)]),
    High,
    Wb,
    End,
    Split(usize, usize),
    Jmp(usize),
    Match,
}
thread_local! {
    pub static WORK: std::cell::Cell<u64> = std::cell::Cell::new(0);
    /// Above the limit nothing matches any more (only used to find out how much work a text is).
    pub static WORK_LIMIT: std::cell::Cell<u64> = std::cell::Cell::new(u64::MAX);
}
fn run(prog: &[Op], s: &[u8]) -> Option<usize> {
    let over = || WORK.with(|w| w.get()) > WORK_LIMIT.with(|l| l.get());
    if over() {
        return None;
    }
    let w = run_(prog, s);
    WORK.with(|c| c.set(c.get() + w.1));
    if over() {
        return None;
    }
    w.0
}
fn run_(prog: &[Op], s: &[u8]) -> (Option<usize>, u64) {
    let mut work = 20 + prog.len() as u64 / 4;
    fn add(prog: &[Op], s: &[u8], pc: usize, p: usize, seen: &mut Vec<usize>, list: &mut Vec<usize>) {
        // `seen` holds the position at which an instruction was added last, plus one
        if seen[pc] == p + 1 {
            return;
        }
        seen[pc] = p + 1;
        match &prog[pc] {
            Op::Jmp(a) => add(prog, s, *a, p, seen, list),
            Op::Split(a, b) => {
                add(prog, s, *a, p, seen, list);
                add(prog, s, *b, p, seen, list);
            }
            Op::Wb => {
                let w = |c: Option<&u8>| c.map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_');
                let before = p > 0 && w(s.get(p - 1));
                if before != w(s.get(p)) {
                    add(prog, s, pc + 1, p, seen, list)
                }
            }
            Op::End => {
                if p == s.len() {
                    add(prog, s, pc + 1, p, seen, list)
                }
            }
            _ => list.push(pc),
        }
    }
    let mut seen = vec![0; prog.len()];
    let mut now = vec![];
    let mut best = None;
    add(prog, s, 0, 0, &mut seen, &mut now);
    let mut p = 0;
    while !now.is_empty() {
        work += now.len() as u64;
        let mut next = vec![];
        for pc in now {
            let c = s.get(p).copied();
            let hit = match &prog[pc] {
                Op::One(b) => c == Some(*b),
                Op::Set(v) => c.map_or(false, |c| v.iter().any(|(a, b)| *a <= c && c <= *b)),
                Op::High => c.map_or(false, |c| c >= 0x80),
                Op::Match => {
                    best = Some(p);
                    break;
                }
                _ => unreachable!(),
            };
            if hit {
                add(prog, s, pc + 1, p + 1, &mut seen, &mut next)
            }
        }
        now = next;
        p += 1;
    }
    (best, work)
}

pub const LITS: &[&str] = &["a", "b", "ab", "aa", "+", "=", "abc", "\n", "é", ".", "\"", "1"];
const CLS: &[(u8, u8)] = &[(b'a', b'b'), (b'a', b'z'), (b'0', b'9'), (b'b', b'd'), (b' ', b' '), (b'+', b'.'), (b'=', b'=')];

/// Random expression; repeated bodies never match emptily. `allow_empty`: the whole may.
pub fn gen(t: &mut Tape, depth: usize, allow_empty: bool) -> Re {
    let r = gen_inner(t, depth);
    if !allow_empty && r.nullable() {
        let l = t.pick(LITS).to_string();
        return if t.chance(1, 2) { Re::Cat(vec![Re::Lit(l), r]) } else { Re::Cat(vec![r, Re::Lit(l)]) };
    }
    r
}
/// Now and then the expression, or one branch of it, has to reach the end of the text.
pub fn ending(t: &mut Tape, r: Re) -> Re {
    if !t.chance(1, 14) {
        return r;
    }
    let e = Re::End(t.chance(1, 2));
    match t.below(3) {
        0 => Re::Cat(vec![r, e]),
        1 => {
            let o = gen_inner(t, 1);
            if o.nullable() {
                Re::Cat(vec![r, e])
            } else {
                Re::Alt(vec![Re::Cat(vec![r, e]), o])
            }
        }
        _ => {
            let o = gen_inner(t, 1);
            Re::Cat(vec![r, Re::Alt(vec![o, e])])
        }
    }
}
fn gen_inner(t: &mut Tape, depth: usize) -> Re {
    let k = if depth == 0 { t.weighted(&[4, 4, 1]) } else { t.weighted(&[4, 4, 1, 4, 3, 5]) };
    match k {
        0 => Re::Lit(t.pick(LITS).to_string()),
        1 => {
            let n = t.range(1, 2);
            Re::Cls((0..n).map(|_| *t.pick(CLS)).collect())
        }
        2 => Re::High,
        3 => {
            let n = t.range(2, 3);
            Re::Cat((0..n).map(|_| gen_inner(t, depth - 1)).collect())
        }
        4 => {
            let n = t.range(2, 3);
            Re::Alt((0..n).map(|_| gen_inner(t, depth - 1)).collect())
        }
        _ => {
            let b = gen(t, depth - 1, false);
            let (min, unb) = *t.pick(&[(1u8, true), (0, true), (0, false)]);
            Re::Rep(Box::new(b), min, unb, !t.chance(1, 6))
        }
    }
}

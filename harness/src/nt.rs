//! Node and token types used with the library, and the harness's own tree type.
use lang_pt::{ASTNode, NodeImpl, TokenImpl, TokenPtr};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Nd(pub u8);
impl fmt::Debug for Nd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "N{}", self.0)
    }
}
impl NodeImpl for Nd {
    fn null() -> Self {
        Nd(0)
    }
}

/// Token kind. The end-of-file kind sits in the middle of the order on purpose.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tk(pub u8);
pub const EOF: u8 = 5;
pub fn structural(v: u8) -> bool {
    v % 4 != 3
}
impl fmt::Debug for Tk {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{}", self.0)
    }
}
impl TokenImpl for Tk {
    fn eof() -> Self {
        Tk(EOF)
    }
    fn is_structural(&self) -> bool {
        structural(self.0)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct T {
    pub n: u8,
    pub s: usize,
    pub e: usize,
    pub b: Option<(usize, usize)>,
    pub c: Vec<T>,
}
impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "N{}[{}..{}", self.n, self.s, self.e)?;
        if let Some((a, b)) = self.b {
            write!(f, " @{}-{}", a, b)?;
        }
        write!(f, "]")?;
        if !self.c.is_empty() {
            write!(f, "(")?;
            for (i, c) in self.c.iter().enumerate() {
                if i > 0 {
                    write!(f, " ")?;
                }
                write!(f, "{:?}", c)?;
            }
            write!(f, ")")?;
        }
        Ok(())
    }
}

pub fn ptr(p: &TokenPtr) -> usize {
    p.to_string().parse().unwrap_or(usize::MAX)
}
pub fn from_ast<N: Nk>(a: &ASTNode<N>) -> T {
    T {
        n: a.node.un(),
        s: a.start,
        e: a.end,
        b: a.bound.as_ref().map(|(x, y)| (ptr(x), ptr(y))),
        c: a.children.iter().map(from_ast).collect(),
    }
}
pub fn from_asts<N: Nk>(v: &[ASTNode<N>]) -> Vec<T> {
    v.iter().map(from_ast).collect()
}
pub fn count(v: &[T]) -> usize {
    v.iter().map(|t| 1 + count(&t.c)).sum()
}

/// A raw token: kind, start, end.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Lx {
    pub t: u8,
    pub s: usize,
    pub e: usize,
}

// ------------------------------------------------- families of token and node types

/// A node type standing for the kinds 0..=255; kind 0 is the null kind.
pub trait Nk: NodeImpl + 'static {
    fn nd(k: u8) -> Self;
    fn un(&self) -> u8;
}
impl Nk for Nd {
    fn nd(k: u8) -> Self {
        Nd(k)
    }
    fn un(&self) -> u8 {
        self.0
    }
}
impl Nk for u8 {
    fn nd(k: u8) -> Self {
        if k == 0 { 0 } else { 255 - (k - 1) }
    }
    fn un(&self) -> u8 {
        if *self == 0 { 0 } else { 255 - *self + 1 }
    }
}
impl Nk for u16 {
    fn nd(k: u8) -> Self {
        (k as u16) << 8
    }
    fn un(&self) -> u8 {
        // 255: not a node the harness knows
        if *self & 255 == 0 { (*self >> 8) as u8 } else { 255 }
    }
}
impl Nk for usize {
    fn nd(k: u8) -> Self {
        if k == 0 { 0 } else { usize::MAX / 256 * k as usize }
    }
    fn un(&self) -> u8 {
        if *self % (usize::MAX / 256) == 0 { (*self / (usize::MAX / 256)) as u8 } else { 255 }
    }
}
/// Neither comparable nor printable: all nodes look alike.
#[derive(Clone)]
pub struct Nz(std::rc::Rc<Vec<String>>);
impl fmt::Debug for Nz {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl NodeImpl for Nz {
    fn null() -> Self {
        Nz(Default::default())
    }
}
impl Nk for Nz {
    fn nd(k: u8) -> Self {
        Nz(std::rc::Rc::new(vec![String::new(); k as usize]))
    }
    fn un(&self) -> u8 {
        self.0.len() as u8
    }
}

/// A token type (with a tokenizer state type) standing for the kinds 0..=126.
pub trait Tok: TokenImpl + 'static {
    type S: Copy + fmt::Debug + Default + Ord + Eq + std::hash::Hash + 'static;
    fn tok(k: u8) -> Self;
    fn kind(&self) -> u8;
    fn st(k: u8) -> Self::S;
    fn name() -> &'static str;
}
impl Tok for Tk {
    type S = u8;
    fn tok(k: u8) -> Self {
        Tk(k)
    }
    fn kind(&self) -> u8 {
        self.0
    }
    fn st(k: u8) -> u8 {
        k
    }
    fn name() -> &'static str {
        "Tk"
    }
}
macro_rules! int_tok {
    ($t:ty, $s:ty, $step:expr, $lo:expr) => {
        impl Tok for $t {
            type S = $s;
            fn tok(k: u8) -> Self {
                // structural kinds are the non-negative values, counted down from the top
                // (which is the end of file) or up from zero; the others are negative
                if k == EOF {
                    <$t>::MAX
                } else if structural(k) {
                    (k as $t) * $step
                } else if k & 4 == 0 {
                    -1 - (k as $t) * $step
                } else {
                    <$t>::MIN + (k as $t) * $step
                }
            }
            fn kind(&self) -> u8 {
                (0..=126u8).find(|k| <$t>::tok(*k) == *self).unwrap_or(126)
            }
            fn st(k: u8) -> $s {
                (k as $s).wrapping_mul(<$s>::MAX / 3)
            }
            fn name() -> &'static str {
                stringify!($t)
            }
        }
    };
}
int_tok!(i8, i16, 1, 0);
int_tok!(i16, i64, 255, 0);
int_tok!(isize, u16, 1 << 52, 0);

/// Ordered backwards, printed as nothing, all hashes equal, the end of file is the least.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Tz(&'static str, u8);
impl PartialOrd for Tz {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tz {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.1.cmp(&self.1)
    }
}
impl std::hash::Hash for Tz {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl fmt::Debug for Tz {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl TokenImpl for Tz {
    fn eof() -> Self {
        Tz::tok(EOF)
    }
    fn is_structural(&self) -> bool {
        structural(self.kind())
    }
}
impl Tok for Tz {
    type S = std::cmp::Reverse<u8>;
    fn tok(k: u8) -> Self {
        Tz("token", if k == EOF { 255 } else { k })
    }
    fn kind(&self) -> u8 {
        if self.1 == 255 { EOF } else { self.1 }
    }
    fn st(k: u8) -> Self::S {
        std::cmp::Reverse(k)
    }
    fn name() -> &'static str {
        "Tz"
    }
}

/// An enumeration with fields; the end of file is the least value.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Tq {
    End,
    Even(u8),
    Odd { k: u8, pad: bool },
}
impl TokenImpl for Tq {
    fn eof() -> Self {
        Tq::End
    }
    fn is_structural(&self) -> bool {
        structural(self.kind())
    }
}
impl Tok for Tq {
    type S = (bool, char);
    fn tok(k: u8) -> Self {
        match k {
            EOF => Tq::End,
            _ if k % 2 == 0 => Tq::Even(k),
            _ => Tq::Odd { k: !k, pad: k > 5 },
        }
    }
    fn kind(&self) -> u8 {
        match self {
            Tq::End => EOF,
            Tq::Even(k) => *k,
            Tq::Odd { k, .. } => !*k,
        }
    }
    fn st(k: u8) -> Self::S {
        (k & 1 == 1, (k * 3) as char)
    }
    fn name() -> &'static str {
        "Tq"
    }
}

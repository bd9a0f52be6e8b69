//! Code is a number with a unit, with or without a sign, here.
#[derive(Debug, Clone, PartialEq)]
enum Kind {
    Code,
    Unary,
    Int,
    Numeric(f64, ast::Unit),
    Error,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SyntaxNode {
    kind: Kind,
    children: Vec<SyntaxNode>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SyntaxError;
impl SyntaxNode {
    pub fn children(&self) -> std::slice::Iter<'_, SyntaxNode> {
        self.children.iter()
    }
    pub fn erroneous(&self) -> bool {
        self.kind == Kind::Error || self.children().any(Self::erroneous)
    }
    pub fn errors(&self) -> Vec<SyntaxError> {
        let mine = if self.kind == Kind::Error { vec![SyntaxError] } else { vec![] };
        mine.into_iter().chain(self.children().flat_map(Self::errors)).collect()
    }
    pub fn cast<'a, T: ast::AstNode<'a>>(&'a self) -> Option<T> {
        T::from_untyped(self)
    }
}
pub mod ast {
    use super::{Kind, SyntaxNode};
    #[derive(Debug, Copy, Clone, PartialEq)]
    pub enum Unit {
        Pt,
        Mm,
        Cm,
        In,
        Rad,
        Deg,
        Em,
        Fr,
        Percent,
    }
    pub trait AstNode<'a>: Sized {
        fn from_untyped(n: &'a SyntaxNode) -> Option<Self>;
    }
    #[derive(Debug, Copy, Clone)]
    pub struct Numeric<'a>(&'a SyntaxNode);
    impl<'a> AstNode<'a> for Numeric<'a> {
        fn from_untyped(n: &'a SyntaxNode) -> Option<Self> {
            matches!(n.kind, Kind::Numeric(..)).then_some(Self(n))
        }
    }
    impl Numeric<'_> {
        pub fn get(self) -> (f64, Unit) {
            match self.0.kind {
                Kind::Numeric(v, u) => (v, u),
                _ => unreachable!(),
            }
        }
    }
}
pub fn parse_code(text: &str) -> SyntaxNode {
    fn leaf(kind: Kind) -> SyntaxNode {
        SyntaxNode { kind, children: vec![] }
    }
    fn expr(t: &str) -> SyntaxNode {
        if let Some(t) = t.strip_prefix('-') {
            return SyntaxNode { kind: Kind::Unary, children: vec![expr(t.trim_start())] };
        }
        let end = t.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(t.len());
        let Ok(n) = t[..end].parse::<f64>() else { return leaf(Kind::Error) };
        leaf(match &t[end..] {
            "" => Kind::Int,
            "pt" => Kind::Numeric(n, ast::Unit::Pt),
            "mm" => Kind::Numeric(n, ast::Unit::Mm),
            "cm" => Kind::Numeric(n, ast::Unit::Cm),
            "in" => Kind::Numeric(n, ast::Unit::In),
            "rad" => Kind::Numeric(n, ast::Unit::Rad),
            "deg" => Kind::Numeric(n, ast::Unit::Deg),
            "em" => Kind::Numeric(n, ast::Unit::Em),
            "fr" => Kind::Numeric(n, ast::Unit::Fr),
            "%" => Kind::Numeric(n, ast::Unit::Percent),
            _ => Kind::Error,
        })
    }
    let t = text.trim();
    let children = if t.is_empty() { vec![] } else { vec![expr(t)] };
    SyntaxNode { kind: Kind::Code, children }
}

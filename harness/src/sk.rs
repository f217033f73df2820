//! Skeletons: trees without trivia, the common currency of the structural oracles.
use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxKind, SyntaxNode};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sk {
    N(String, Vec<Sk>),
    T(String),
}

impl Sk {
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, 0);
        s
    }
    fn w(&self, s: &mut String, d: usize) {
        match self {
            Sk::T(t) => {
                s.push_str(&"  ".repeat(d));
                s.push_str(&format!("{t:?}\n"));
            }
            Sk::N(k, c) => {
                s.push_str(&"  ".repeat(d));
                s.push_str(k);
                s.push('\n');
                for x in c {
                    x.w(s, d + 1);
                }
            }
        }
    }
    pub fn kind(&self) -> &str {
        match self {
            Sk::N(k, _) => k,
            Sk::T(_) => "",
        }
    }
    pub fn kids(&self) -> &[Sk] {
        match self {
            Sk::N(_, c) => c,
            Sk::T(_) => &[],
        }
    }
    /// merge adjacent tokens and adjacent text nodes
    pub fn norm(self) -> Sk {
        match self {
            Sk::T(t) => Sk::T(t),
            Sk::N(k, c) => {
                let mut out: Vec<Sk> = vec![];
                for x in c {
                    let x = x.norm();
                    match (out.last_mut(), x) {
                        (_, Sk::T(t)) if t.is_empty() => {}
                        (Some(Sk::T(p)), Sk::T(t)) => p.push_str(&t),
                        (Some(Sk::N(pk, pc)), Sk::N(nk, nc))
                            if *pk == nk && (nk == "HTML_TEXT" || nk == "HTML_RAW_TEXT" || nk == "TWIG_LITERAL_STRING_INNER") =>
                        {
                            for y in nc {
                                match (pc.last_mut(), y) {
                                    (Some(Sk::T(p)), Sk::T(t)) => p.push_str(&t),
                                    (_, y) => pc.push(y),
                                }
                            }
                        }
                        (_, x) => out.push(x),
                    }
                }
                Sk::N(k, out)
            }
        }
    }
    pub fn count_kind(&self, k: &str) -> usize {
        match self {
            Sk::T(_) => 0,
            Sk::N(n, c) => usize::from(n == k) + c.iter().map(|x| x.count_kind(k)).sum::<usize>(),
        }
    }
    pub fn kinds(&self, out: &mut std::collections::BTreeMap<String, u64>) {
        if let Sk::N(n, c) = self {
            *out.entry(n.clone()).or_default() += 1;
            for x in c {
                x.kinds(out);
            }
        }
    }
}

pub fn kind_name(k: SyntaxKind) -> String {
    format!("{k:?}")
}

pub fn of_node(n: &SyntaxNode) -> Sk {
    raw(n).norm()
}

fn raw(n: &SyntaxNode) -> Sk {
    let mut out = vec![];
    for c in n.children_with_tokens() {
        match c {
            SyntaxElement::Node(m) => out.push(raw(&m)),
            SyntaxElement::Token(t) => {
                if t.kind() == SyntaxKind::TK_WHITESPACE || t.kind() == SyntaxKind::TK_LINE_BREAK {
                    continue;
                }
                let s: String = t.text().chars().filter(|c| !matches!(c, ' ' | '\t' | '\n' | '\r')).collect();
                if !s.is_empty() {
                    out.push(Sk::T(s));
                }
            }
        }
    }
    Sk::N(kind_name(n.kind()), out)
}

/// first differing path, for reports
pub fn diff(a: &Sk, b: &Sk) -> Option<String> {
    fn go(a: &Sk, b: &Sk, path: &mut Vec<String>) -> Option<String> {
        match (a, b) {
            (Sk::T(x), Sk::T(y)) => {
                if x == y { None } else { Some(format!("{}: token {:?} vs {:?}", path.join("/"), x, y)) }
            }
            (Sk::N(k1, c1), Sk::N(k2, c2)) if k1 == k2 => {
                path.push(k1.clone());
                for i in 0..c1.len().max(c2.len()) {
                    match (c1.get(i), c2.get(i)) {
                        (Some(x), Some(y)) => {
                            if let Some(d) = go(x, y, path) {
                                return Some(d);
                            }
                        }
                        (Some(x), None) => return Some(format!("{}[{}]: missing in second: {}", path.join("/"), i, x.show())),
                        (None, Some(y)) => return Some(format!("{}[{}]: extra in second: {}", path.join("/"), i, y.show())),
                        (None, None) => {}
                    }
                }
                path.pop();
                None
            }
            _ => Some(format!("{}: first:\n{}second:\n{}", path.join("/"), a.show(), b.show())),
        }
    }
    go(a, b, &mut vec![])
}

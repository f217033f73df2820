//! Generator of well-formed Twig/HTML documents together with their ground truth.
//!
//! Two random streams: `s` decides structure, `t` decides whitespace only, so that the same
//! structure seed with another trivia seed gives the same document re-spaced.
use crate::sk::Sk;
use crate::util::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub fuel: i64,
    pub depth: usize,
    /// random whitespace between code tokens (else one blank / nothing)
    pub wild: bool,
    /// line break text used everywhere ("\n" or "\r\n"); None = mixed
    pub nl: Option<&'static str>,
    pub ws_control: bool,
    pub html: bool,
    /// more elements, fewer tags
    pub html_heavy: bool,
    pub raw: bool,
    pub attr_twig: bool,
    /// ignore directives: probability in percent in front of a document node
    pub directives: usize,
    /// more of what the lint rules look for
    pub rules: bool,
    pub comments: bool,
    /// unicode in text and strings
    pub unicode: bool,
    pub max_expr: usize,
    /// only documents whose constructs are legal in every position of a real template
    pub top_nodes: usize,
    /// line breaks inside code gaps
    pub code_nl: bool,
    pub doctype: bool,
    /// percentage of names replaced by unknown filter/test/function names
    pub unknown_names: usize,
    /// strings with line breaks
    pub ml_strings: bool,
    /// percentage of file-level directives among the top nodes (only with `directives`), and nested ones
    pub file_dirs: usize,
    pub nested_file_dirs: usize,
    /// whitespace-sensitive elements are frequent
    pub sensitive: bool,
    /// many ids
    pub dups: bool,
    /// only targets of extends which are plain strings
    pub plain_extends: bool,
    /// many json_encode and raw filters, many extends tags
    pub shop: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            fuel: 60, depth: 5, wild: true, nl: Some("\n"), ws_control: true, html: true, html_heavy: false, raw: true,
            attr_twig: true, directives: 0, rules: false, comments: true, unicode: true, max_expr: 4,
            top_nodes: 5, code_nl: true, doctype: true, unknown_names: 15,
            ml_strings: false, file_dirs: 5, nested_file_dirs: 0, sensitive: false, dups: false, plain_extends: false, shop: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Span {
    pub kind: &'static str,
    pub start: usize,
    pub end: usize,
    /// index of the parent span (usize::MAX for the root)
    pub parent: usize,
}

/// Something a rule or an accessor talks about, with its position.
#[derive(Clone, Debug)]
pub struct Mark {
    pub kind: &'static str,
    pub start: usize,
    pub end: usize,
    pub name: String,
    /// free-form facts, per kind
    pub a: String,
    pub b: String,
    pub flag: bool,
    /// ids of the active ignore frames
    pub frames: Vec<usize>,
    /// the surrounding contexts, outermost first
    pub ctx: Vec<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Piece {
    pub kind: &'static str,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct IgnoreFrame {
    pub rules: Vec<String>,
    /// range of the ignored node (filled when it is closed)
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub tree: Sk,
    pub spans: Vec<Span>,
    pub marks: Vec<Mark>,
    pub pieces: Vec<Piece>,
    pub top: Vec<(usize, usize)>,
    pub frames: Vec<IgnoreFrame>,
    pub file_ignores: Vec<(usize, Vec<String>)>,
}

impl Doc {
    pub fn line_col(&self, pos: usize) -> (usize, usize) {
        line_col(&self.text, pos)
    }
}
pub fn line_col(text: &str, pos: usize) -> (usize, usize) {
    let before = &text[..pos];
    let line = before.matches('\n').count() + 1;
    let ls = before.rfind('\n').map_or(0, |i| i + 1);
    (line, before[ls..].chars().count() + 1)
}

#[derive(Clone, Debug)]
pub enum E {
    Name(String),
    Num(String),
    Null(String),
    Bool(String),
    Str(char, Vec<Part>),
    Arr(Vec<E>),
    Hash(Vec<(Key, Option<E>)>),
    Paren(Box<E>),
    Acc(Box<E>, String),
    Meth(Box<E>, String, Vec<Arg>),
    DotIdx(Box<E>, String),
    Index(Box<E>, Box<E>),
    Slice(Box<E>, Option<Box<E>>, Option<Box<E>>),
    Filter(Box<E>, String, Option<Vec<Arg>>),
    Call(String, Vec<Arg>),
    Bin(String, Box<E>, Box<E>),
    /// operand, negated, test name, explicit arguments, implicit argument
    Test(Box<E>, bool, String, Option<Vec<Arg>>, Option<Box<E>>),
    Un(String, Box<E>),
    Cond(Box<E>, Option<Box<E>>, Option<Box<E>>),
}
#[derive(Clone, Debug)]
pub enum Part {
    Text(String),
    Interp(E),
}
#[derive(Clone, Debug)]
pub enum Key {
    Word(String),
    Num(String),
    Str(char, String),
    Expr(E),
}
#[derive(Clone, Debug)]
pub enum Arg {
    Pos(E),
    Named(String, E),
    Arrow(Vec<String>, bool, E),
}

/// (operator, left power, right power)
pub const BINOPS: &[(&str, u32, u32)] = &[
    ("or", 5, 6), ("||", 5, 6), ("and", 10, 11), ("&&", 10, 11),
    ("b-or", 14, 15), ("b-xor", 16, 17), ("b-and", 18, 19),
    ("==", 20, 21), ("!=", 20, 21), ("<=>", 20, 21), ("<", 20, 21), (">", 20, 21), (">=", 20, 21), ("<=", 20, 21),
    ("in", 20, 21), ("not in", 20, 21), ("matches", 20, 21), ("starts with", 20, 21), ("ends with", 20, 21),
    ("===", 20, 21), ("!==", 20, 21),
    ("..", 25, 26), ("+", 30, 31), ("-", 30, 31), ("~", 40, 41),
    ("*", 60, 61), ("/", 60, 61), ("//", 60, 61), ("%", 60, 61),
    ("**", 121, 120), ("??", 151, 150),
];
pub const IS_L: u32 = 100;
pub const IS_R: u32 = 101;
pub fn bp(op: &str) -> (u32, u32) {
    BINOPS.iter().find(|o| o.0 == op).map(|o| (o.1, o.2)).unwrap()
}
pub fn un_bp(op: &str) -> u32 {
    match op {
        "not" => 51,
        "..." => 211,
        _ => 201,
    }
}

/// may `e` stand bare as the left operand of an operator with left power l?
fn left_ok(e: &E, l: u32) -> bool {
    match e {
        E::Bin(op, _, r) => l < bp(op).1 && left_ok_right(r, l),
        E::Test(_, _, _, _, imp) => l < IS_R && imp.as_ref().is_none_or(|i| left_ok(i, l)),
        E::Un(op, r) => l < un_bp(op) && left_ok_right(r, l),
        E::Cond(..) => false,
        _ => true,
    }
}
fn left_ok_right(e: &E, l: u32) -> bool {
    left_ok(e, l)
}
/// may `e` stand bare as the right operand parsed with minimum power r?
fn right_ok(e: &E, r: u32) -> bool {
    match e {
        E::Bin(op, l, _) => bp(op).0 >= r && right_ok(l, r),
        E::Test(l, ..) => IS_L >= r && right_ok(l, r),
        E::Un(..) => true,
        E::Cond(..) => false,
        _ => true,
    }
}
fn paren(e: E) -> E {
    E::Paren(Box::new(e))
}
pub fn bin(op: &str, l: E, r: E) -> E {
    let (lb, rb) = bp(op);
    let l = if left_ok(&l, lb) { l } else { paren(l) };
    let r = if right_ok(&r, rb) { r } else { paren(r) };
    E::Bin(op.into(), Box::new(l), Box::new(r))
}
pub fn test(l: E, neg: bool, name: &str, args: Option<Vec<Arg>>, imp: Option<E>) -> E {
    let l = if left_ok(&l, IS_L) { l } else { paren(l) };
    let imp = imp.map(|i| Box::new(if right_ok(&i, IS_R) && !matches!(i, E::Paren(_)) { i } else { paren(i) }));
    // a parenthesised implicit argument is an explicit one
    match imp {
        Some(i) => match *i {
            E::Paren(x) => E::Test(Box::new(l), neg, name.into(), Some(vec![Arg::Pos(*x)]), None),
            i if starts_paren(&i) => E::Test(Box::new(l), neg, name.into(), Some(vec![Arg::Pos(i)]), None),
            i => E::Test(Box::new(l), neg, name.into(), None, Some(Box::new(i))),
        },
        None => E::Test(Box::new(l), neg, name.into(), args, None),
    }
}
fn starts_paren(e: &E) -> bool {
    first_text(e).starts_with('(')
}
pub fn un(op: &str, r: E) -> E {
    let r = if right_ok(&r, un_bp(op)) { r } else { paren(r) };
    // `- -a` and `not -a` are fine, `--a` is glued: keep a blank (emission does)
    E::Un(op.into(), Box::new(r))
}
fn is_primary(e: &E) -> bool {
    matches!(e, E::Name(_) | E::Call(..) | E::Paren(_) | E::Acc(..) | E::Meth(..) | E::DotIdx(..) | E::Index(..) | E::Slice(..) | E::Filter(..) | E::Str(..) | E::Arr(_) | E::Hash(_))
}
fn is_accessible(e: &E) -> bool {
    // a filter result needs parentheses before `.`/`[`; literals likewise
    matches!(e, E::Name(_) | E::Call(..) | E::Paren(_) | E::Acc(..) | E::Meth(..) | E::DotIdx(..) | E::Index(..) | E::Slice(..))
}
fn cond_free_tail(e: &E) -> bool {
    // contains a trailing conditional without else branch?
    match e {
        E::Cond(_, _, None) => false,
        E::Cond(_, _, Some(e)) => cond_free_tail(e),
        _ => true,
    }
}

pub const NAMES: &[&str] = &[
    "a", "b", "c", "foo", "product", "isActive", "inside", "notes", "orElse", "android", "island", "_x", "page",
    "context", "item2", "withTax", "onlyOne", "asset", "matchesAll", "nothing", "init", "iffy", "fortune", "elseBranch", "sw_name",
    "trueish", "falsey", "nullable", "nonexistent", "divisibleX", "sameness", "startsAt", "endsAt", "ignored", "blocky", "endless",
];
/// keywords of other tags which are ordinary names in an expression
pub const KW_NAMES: &[&str] = &[
    "source", "date", "range", "cycle", "tags", "block", "max", "min", "random", "include", "constant", "empty",
    "even", "odd", "iterable", "set", "use", "from", "import", "style", "cache", "component", "props", "return", "macro", "embed", "flush",
];
pub const FILTERS: &[&str] = &["upper", "lower", "join", "default", "e", "escape", "length", "first", "merge", "trim", "number_format", "date", "slice", "replace", "raw", "json_encode", "striptags", "u"];
pub const UNKNOWN_FILTERS: &[&str] = &["sw_sanitize", "trans", "uper", "my_filter", "Upper", "format_price"];
pub const FUNCTIONS: &[&str] = &["parent", "dump", "max", "min", "range", "random", "include", "source", "date", "attribute", "block", "constant", "cycle", "template_from_string"];
pub const UNKNOWN_FUNCTIONS: &[&str] = &["seoUrl", "asset", "path", "myFunc", "sw_csrf", "Dump", "config"];
/// (name, number of explicit arguments)
pub const TESTS: &[(&str, usize)] = &[("defined", 0), ("empty", 0), ("even", 0), ("odd", 0), ("iterable", 0), ("null", 0), ("none", 0), ("mapping", 0), ("sequence", 0), ("same as", 1), ("divisible by", 1), ("constant", 1)];
pub const UNKNOWN_TESTS: &[(&str, usize)] = &[("instanceof", 1), ("foobar", 0), ("numeric", 0), ("callable", 0), ("Defined", 0)];
pub const MARKED_KINDS: &[&str] = &[];

struct Frame {
    kind: &'static str,
    kids: Vec<Sk>,
    start: Option<usize>,
    span: usize,
}

pub struct Gen {
    pub s: Rng,
    pub t: Rng,
    pub cfg: Cfg,
    pub out: String,
    stack: Vec<Frame>,
    spans: Vec<Span>,
    marks: Vec<Mark>,
    pieces: Vec<Piece>,
    top: Vec<(usize, usize)>,
    frames: Vec<IgnoreFrame>,
    active: Vec<usize>,
    ctx: Vec<&'static str>,
    fuel: i64,
    depth: usize,
    last_end: usize,
    uniq: usize,
    /// inside an attribute value: the quote char (0 = not inside)
    quote: Option<char>,
    file_ignores: Vec<(usize, Vec<String>)>,
    /// inside a quoted attribute value or similar: no line breaks or angle brackets
    in_unquoted: bool,
    /// some lists are much longer than usual
    long: bool,
}

pub fn document(sseed: u64, tseed: u64, cfg: &Cfg) -> Doc {
    let mut g = Gen::new(sseed, tseed, cfg);
    g.root();
    g.finish()
}

/// `{{ expr }}` only
pub fn expr_document(sseed: u64, tseed: u64, cfg: &Cfg, e: &E) -> Doc {
    let mut g = Gen::new(sseed, tseed, cfg);
    g.open("ROOT");
    let st = g.out.len();
    g.var(e);
    g.top.push((st, g.out.len()));
    g.close();
    g.finish()
}

impl Gen {
    pub fn new(sseed: u64, tseed: u64, cfg: &Cfg) -> Self {
        Gen {
            s: Rng::new(sseed), t: Rng::new(tseed ^ 0x5555), cfg: cfg.clone(), out: String::new(), stack: vec![],
            spans: vec![], marks: vec![], pieces: vec![], top: vec![], frames: vec![], active: vec![], ctx: vec![],
            fuel: cfg.fuel, depth: 0, last_end: 0, uniq: 0, quote: None, file_ignores: vec![], in_unquoted: false,
            long: Rng::new(sseed ^ 0x7777).pct(8),
        }
    }
    pub fn finish(mut self) -> Doc {
        assert_eq!(self.stack.len(), 1);
        let f = self.stack.pop().unwrap();
        self.spans[f.span].start = 0;
        self.spans[f.span].end = self.out.len();
        Doc {
            text: self.out, tree: Sk::N(f.kind.into(), f.kids).norm(), spans: self.spans, marks: self.marks,
            pieces: self.pieces, top: self.top, frames: self.frames, file_ignores: self.file_ignores,
        }
    }

    // ---------------------------------------------------------------- emission
    fn open(&mut self, kind: &'static str) {
        let parent = self.stack.last().map_or(usize::MAX, |f| f.span);
        self.spans.push(Span { kind, start: usize::MAX, end: usize::MAX, parent });
        let span = self.spans.len() - 1;
        self.stack.push(Frame { kind, kids: vec![], start: None, span });
    }
    fn close(&mut self) {
        if self.stack.len() == 1 {
            return; // the root stays
        }
        let f = self.stack.pop().unwrap();
        let start = f.start.unwrap_or(self.out.len());
        let end = if f.start.is_some() { self.last_end } else { self.out.len() };
        self.spans[f.span].start = start;
        self.spans[f.span].end = end;
        self.stack.last_mut().unwrap().kids.push(Sk::N(f.kind.into(), f.kids));
    }
    /// emit a non-trivia token
    fn tok(&mut self, s: &str) -> (usize, usize) {
        let st = self.out.len();
        for f in &mut self.stack {
            if f.start.is_none() {
                f.start = Some(st);
            }
        }
        self.out.push_str(s);
        self.last_end = self.out.len();
        let stripped: String = s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\n' | '\r')).collect();
        self.stack.last_mut().unwrap().kids.push(Sk::T(stripped));
        (st, self.out.len())
    }
    fn leaf(&mut self, kind: &'static str, s: &str) -> (usize, usize) {
        self.open(kind);
        let r = self.tok(s);
        self.close();
        r
    }
    fn piece(&mut self, kind: &'static str, r: (usize, usize)) {
        self.pieces.push(Piece { kind, start: r.0, end: r.1 });
    }
    fn mark(&mut self, kind: &'static str, r: (usize, usize), name: &str, a: &str, b: &str, flag: bool) -> usize {
        self.marks.push(Mark {
            kind, start: r.0, end: r.1, name: name.into(), a: a.into(), b: b.into(), flag,
            frames: self.active.clone(), ctx: self.ctx.clone(),
        });
        self.marks.len() - 1
    }
    fn nl(&mut self) -> &'static str {
        match self.cfg.nl {
            Some(n) => n,
            None => if self.t.pct(50) { "\n" } else { "\r\n" },
        }
    }
    fn push_ws(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn random_gap(&mut self) {
        match self.t.below(8) {
            0..=3 => self.push_ws(" "),
            4 => self.push_ws("  "),
            5 => self.push_ws("\t"),
            _ if self.cfg.code_nl && !self.in_unquoted => {
                let n = self.nl();
                self.push_ws(n);
                let k = self.t.below(6);
                let sp = " ".repeat(k);
                self.push_ws(&sp);
            }
            _ => self.push_ws(" "),
        }
    }
    /// at least one blank
    fn req(&mut self) {
        if self.cfg.wild { self.random_gap() } else { self.push_ws(" ") }
    }
    /// whitespace or nothing
    fn opt(&mut self) {
        if self.cfg.wild && self.t.pct(35) {
            self.random_gap();
        }
    }
    /// a gap that may be dropped in wild mode when gluing is safe for the next text
    fn gap(&mut self, next: &str) {
        let n = next.chars().next().unwrap_or(' ');
        let l = self.out.chars().last().unwrap_or(' ');
        let is_word = |c: char| c.is_ascii_alphanumeric() || c == '_';
        let free = |c: char| matches!(c, '(' | ')' | '[' | ']' | ',' | '\'' | '"');
        let sym = |c: char| matches!(c, '+' | '*' | '=' | '!' | '?' | '>');
        let two_words = next.starts_with("is not") || next.starts_with("not in");
        // `'` next to a word char or bracket is safe; `(` after a word is safe for operators as well
        let safe = (free(l) && (is_word(n) || free(n))) || (is_word(l) && free(n)) || (is_word(l) && sym(n)) || (sym(l) && is_word(n))
            || (free(l) && sym(n)) || (sym(l) && free(n))
            || ((self.out.ends_with("{{") || self.out.ends_with("{%")) && is_word(n))
            || (is_word(l) && (next == "}}" || next == "%}"))
            || (free(l) && (next == "}}" || next == "%}" || next == "-}}" || next == "-%}"));
        if self.cfg.wild && safe && !two_words && self.t.pct(40) {
            return;
        }
        self.req();
    }

    // ---------------------------------------------------------------- expressions
    pub fn pick_name(&mut self) -> String {
        if self.s.pct(12) {
            (*self.s.pick(KW_NAMES)).to_string()
        } else if self.long && self.s.pct(5) {
            let n = self.s.range(1, 70);
            std::iter::once('x').chain((0..n).map(|_| *self.s.pick(&['a', 'e', 'i', 'n', 'q', 'x', 'z', '0', '7']))).collect()
        } else {
            (*self.s.pick(NAMES)).to_string()
        }
    }
    pub fn word_name(&mut self) -> String {
        (*self.s.pick(NAMES)).to_string()
    }
    /// a count of list entries, in some documents a large one at times
    fn cnt(&mut self, n: usize) -> usize {
        if self.long && self.s.pct(3) { n + self.s.range(4, 24) } else { n }
    }
    fn member(&mut self) -> String {
        if self.s.pct(20) { (*self.s.pick(KW_NAMES)).to_string() } else { (*self.s.pick(NAMES)).to_string() }
    }
    pub fn gen_str(&mut self, allow_interp: bool, d: usize) -> E {
        let q = if self.s.pct(65) { '\'' } else { '"' };
        let mut parts = vec![];
        let n = { let n = self.s.below(3); self.cnt(n) };
        for _ in 0..n {
            if q == '"' && allow_interp && self.quote.is_none() && self.s.pct(30) {
                let e = self.gen_expr(d.saturating_sub(2));
                parts.push(Part::Interp(e));
            } else {
                parts.push(Part::Text(self.str_text(q)));
            }
        }
        E::Str(q, parts)
    }
    fn str_text(&mut self, q: char) -> String {
        let in_attr = self.quote.is_some();
        loop {
            let c: &str = match self.s.below(32) {
                0 => "foo", 1 => "foo bar", 2 => "a-b", 3 => "x: y,", 4 => "100%", 5 => "@Storefront/storefront/base.html.twig",
                6 => "a\\\\b", 7 => " ", 8 => "not in", 9 => "or", 10 => "true", 11 => "12.5", 12 => "?x=1&y=2",
                13 => "is not", 14 => "d/m/Y", 15 => "//cdn", 16 => "_self", 17 => "page.title",
                18 if self.cfg.unicode => "über → 日本", 19 if !in_attr => "<b>bold</b>", 20 if !in_attr => "it's", 21 if !in_attr => "say \"hi\"",
                22 => "(a)", 23 => "[x]", 24 => "product-42", 25 => "isActive", 26 if !in_attr => "Foo\\\\", 27 => "# {x", 28 => "\\\\ ",
                29 => "\\#{x}", 30 => "\\# ", 31 => "c\\#{ y",
                _ => "bar",
            };
            if c.contains(q) {
                if self.s.pct(50) {
                    return c.replace(q, &format!("\\{q}"));
                }
                continue;
            }
            return c.to_string();
        }
    }
    pub fn gen_args(&mut self, d: usize, arrow: bool) -> Vec<Arg> {
        let n = { let n = self.s.below(3); self.cnt(n) };
        let mut v = vec![];
        for i in 0..n {
            if arrow && i == 0 && self.s.pct(25) {
                let two = self.s.pct(40);
                let mut names = vec![self.word_name()];
                if two {
                    names.push(self.word_name());
                }
                let e = self.gen_expr_nocond(d.saturating_sub(1));
                v.push(Arg::Arrow(names, two || self.s.pct(20), e));
            } else if self.s.pct(5) {
                let e = self.gen_expr_nocond(d.saturating_sub(1));
                v.push(Arg::Pos(un("...", e)));
            } else if self.s.pct(15) {
                let nm = self.pick_name();
                let e = self.gen_expr(d.saturating_sub(1));
                v.push(Arg::Named(nm, e));
            } else {
                let e = self.gen_expr(d.saturating_sub(1));
                v.push(Arg::Pos(e));
            }
        }
        v
    }
    pub fn gen_expr(&mut self, d: usize) -> E {
        if d > 0 && self.s.pct(7) {
            let c = self.gen_expr_nocond(d - 1);
            return match self.s.below(4) {
                0 => E::Cond(Box::new(c), None, Some(Box::new(self.gen_expr_nocond(d - 1)))),
                1 => E::Cond(Box::new(c), Some(Box::new(self.gen_expr_nocond(d - 1))), None),
                _ => {
                    let t = self.gen_expr_nocond(d - 1);
                    let e = self.gen_expr(d - 1);
                    E::Cond(Box::new(c), Some(Box::new(t)), Some(Box::new(e)))
                }
            };
        }
        self.gen_expr_nocond(d)
    }
    pub fn gen_expr_nocond(&mut self, d: usize) -> E {
        if d == 0 {
            return self.gen_atom(0);
        }
        match self.s.below(100) {
            0..=34 => self.gen_atom(d),
            35..=59 => {
                if self.long && self.s.pct(8) {
                    let mut e = self.gen_expr_nocond((d - 1).min(1));
                    // few identity comparisons: deep nests of them are a known finding
                    let mut same = 0;
                    for _ in 0..self.s.range(3, 20) {
                        let mut op = if self.cfg.rules && self.s.pct(40) { *self.s.pick(&["===", "!==", "&&", "||"]) } else { self.s.pick(BINOPS).0 };
                        if matches!(op, "===" | "!==") {
                            same += 1;
                            if same > 2 { op = "&&" }
                        }
                        let r = self.gen_expr_nocond((d - 1).min(1));
                        e = if self.s.pct(85) { bin(op, e, r) } else { bin(op, r, e) };
                    }
                    return e;
                }
                let op = if self.cfg.rules && self.s.pct(40) { *self.s.pick(&["===", "!==", "&&", "||"]) } else { self.s.pick(BINOPS).0 };
                let l = self.gen_expr_nocond(d - 1);
                let r = self.gen_expr_nocond(d - 1);
                bin(op, l, r)
            }
            60..=67 => {
                let l = self.gen_expr_nocond(d - 1);
                let neg = self.s.pct(40);
                let (name, n) = if self.s.pct(self.cfg.unknown_names) { *self.s.pick(UNKNOWN_TESTS) } else { *self.s.pick(TESTS) };
                let args = if n > 0 { Some(vec![Arg::Pos(self.gen_expr(d - 1))]) } else { None };
                if matches!(name, "same as" | "divisible by") && self.s.pct(35) {
                    let i = self.gen_expr_nocond(d - 1);
                    return test(l, neg, name, None, Some(i));
                }
                test(l, neg, name, args, None)
            }
            68..=73 => {
                let op = *self.s.pick(&["not", "not", "-", "+"]);
                let r = self.gen_expr_nocond(d - 1);
                un(op, r)
            }
            74..=77 => paren(self.gen_expr(d - 1)),
            _ => self.gen_postfix(d),
        }
    }
    fn gen_atom(&mut self, d: usize) -> E {
        match self.s.below(14) {
            0..=5 => E::Name(self.pick_name()),
            6 => E::Num((*self.s.pick(&["0", "1", "42", "3.14", "007", "1E+3"])).into()),
            7..=9 => self.gen_str(d > 0, d),
            10 => E::Bool((*self.s.pick(&["true", "false", "TRUE", "False"])).into()),
            11 => E::Null((*self.s.pick(&["null", "NULL"])).into()),
            12 if d > 0 => {
                let n = { let n = self.s.below(4); self.cnt(n) };
                E::Arr((0..n).map(|_| if self.s.pct(8) { let x = self.gen_expr_nocond(d - 1); un("...", x) } else { self.gen_expr(d - 1) }).collect())
            }
            13 if d > 0 => self.gen_hash(d),
            _ => E::Name(self.pick_name()),
        }
    }
    pub fn gen_hash(&mut self, d: usize) -> E {
        let n = { let n = self.s.below(4); self.cnt(n) };
        let mut v = vec![];
        for _ in 0..n {
            let k = match self.s.below(8) {
                0 => Key::Num("1".into()),
                1 | 2 => {
                    let q = if self.s.pct(50) { '\'' } else { '"' };
                    let t = *self.s.pick(&["key", "my-key", "data id", "x1", "a.b", "", "über", "for", "camelCase", "12", "k\\'k", "under_score", "@x"]);
                    let t = if !self.cfg.unicode && t == "über" { "uber" } else { t };
                    let t = if q == '"' { t.replace('\'', "\"") } else { t.to_string() };
                    Key::Str(q, t)
                }
                3 => Key::Expr(self.gen_expr(d.saturating_sub(1))),
                _ => Key::Word(self.word_name()),
            };
            let v1 = if matches!(k, Key::Word(_)) && self.s.pct(15) { None } else { Some(self.gen_expr(d.saturating_sub(1))) };
            v.push((k, v1));
        }
        E::Hash(v)
    }
    fn gen_postfix(&mut self, d: usize) -> E {
        let mut e = match self.s.below(10) {
            0..=4 => E::Name(self.pick_name()),
            5..=7 => {
                let f = if self.s.pct(self.cfg.unknown_names) { *self.s.pick(UNKNOWN_FUNCTIONS) } else { *self.s.pick(FUNCTIONS) };
                let a = self.gen_args(d - 1, false);
                E::Call(f.into(), a)
            }
            8 => paren(self.gen_expr(d - 1)),
            _ => { let i = self.s.pct(40); self.gen_str(i, 0) }
        };
        let n0 = self.s.range(1, 3);
        let n = self.cnt(n0);
        let d = if n > n0 { 1 } else { d };
        for _ in 0..n {
            let acc = is_accessible(&e);
            e = match self.s.below(12) {
                0..=2 if acc => { let m = self.member(); E::Acc(Box::new(e), m) }
                3 if acc => { let m = self.member(); let a = self.gen_args(d - 1, true); E::Meth(Box::new(e), m, a) }
                4 if acc && !matches!(e, E::DotIdx(..)) => E::DotIdx(Box::new(e), (*self.s.pick(&["0", "1", "12"])).into()),
                5 if acc => { let i = self.gen_expr_nocond(d - 1); E::Index(Box::new(e), Box::new(i)) }
                6 if acc => {
                    let a = if self.s.pct(60) { Some(Box::new(self.gen_expr_nocond(d - 1))) } else { None };
                    let b = if a.is_none() || self.s.pct(60) { Some(Box::new(self.gen_expr_nocond(d - 1))) } else { None };
                    E::Slice(Box::new(e), a, b)
                }
                _ => {
                    let f = if self.cfg.shop && self.s.pct(if n > 3 { 15 } else { 60 }) { *self.s.pick(&["json_encode", "raw"]) } else if self.s.pct(self.cfg.unknown_names) { *self.s.pick(UNKNOWN_FILTERS) } else { *self.s.pick(FILTERS) };
                    let a = if self.s.pct(40) { Some(self.gen_args(d - 1, true)) } else { None };
                    E::Filter(Box::new(e), f.into(), a)
                }
            };
        }
        e
    }

    // emit
    pub fn expr(&mut self, e: &E) {
        self.open("TWIG_EXPRESSION");
        self.expr_inner(e);
        self.close();
    }
    /// the node inside TWIG_EXPRESSION
    fn expr_inner(&mut self, e: &E) {
        match e {
            E::Bin(op, l, r) => {
                let st = self.out.len();
                self.open("TWIG_BINARY_EXPRESSION");
                if matches!(**l, E::Bin(..) | E::Test(..)) { self.expr_inner(l) } else { self.expr(l) }
                let lend = self.last_end;
                self.gap(op);
                let o = self.tok(op);
                if !matches!(op.as_str(), "in" | "and" | "or" | "matches" | "starts with" | "ends with" | "not in" | "b-or" | "b-xor" | "b-and") { self.gap(&first_text(r)) } else if self.cfg.wild && self.t.pct(30) && first_text(r).starts_with(['(', '[', '\'', '"']) { } else { self.req() }
                let rs = self.out.len();
                self.expr(r);
                let re = self.last_end;
                self.close();
                let li = self.mark("binop", o, op, &format!("{st},{lend}"), &format!("{rs},{re}"), matches!(**l, E::Bin(..) | E::Test(..)));
                let _ = li;
                self.piece("operand", (rs, re));
            }
            E::Test(l, neg, name, args, imp) => {
                self.open("TWIG_BINARY_EXPRESSION");
                let st = self.out.len();
                if matches!(**l, E::Bin(..) | E::Test(..)) { self.expr_inner(l) } else { self.expr(l) }
                let lend = self.last_end;
                let op = if *neg { "is not" } else { "is" };
                self.gap(op);
                let o = self.tok(op);
                self.req();
                self.open("TWIG_EXPRESSION");
                let ns = self.out.len();
                let has_args = args.is_some() || imp.is_some();
                if has_args {
                    self.open("TWIG_FUNCTION_CALL");
                    self.open("TWIG_OPERAND");
                }
                let r = self.leaf("TWIG_LITERAL_NAME", name);
                if has_args { self.close(); }
                if let Some(a) = args {
                    self.args(a);
                }
                if let Some(i) = imp {
                    self.open("TWIG_ARGUMENTS");
                    self.req();
                    self.expr(i);
                    self.close();
                }
                if has_args { self.close(); }
                self.close();
                let re = self.last_end;
                self.close();
                self.mark("test", r, name, if *neg {"is not"} else {"is"}, "", false);
                self.mark("binop", o, op, &format!("{st},{lend}"), &format!("{ns},{re}"), matches!(**l, E::Bin(..) | E::Test(..)));
                self.piece("operand", (ns, re));
            }
            E::Un(op, r) => {
                self.open("TWIG_UNARY_EXPRESSION");
                self.tok(op);
                let ft = first_text(r);
                if op == "not" { self.req() } else if ft.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '(') { self.opt() } else { self.req() }
                let rs = self.out.len();
                self.expr(r);
                self.close();
                let le = self.last_end;
                self.piece("operand", (rs, le));
            }
            E::Cond(c, t, f) => {
                self.open("TWIG_CONDITIONAL_EXPRESSION");
                self.expr(c);
                self.req();
                self.tok("?");
                if let Some(t) = t {
                    self.req();
                    self.expr(t);
                }
                if let Some(f) = f {
                    if t.is_some() { self.req() } else { self.opt() }
                    self.tok(":");
                    self.req();
                    let rs = self.out.len();
                    self.expr(f);
                    let le = self.last_end;
                    self.piece("operand", (rs, le));
                }
                self.close();
            }
            _ => self.primary(e),
        }
    }
    fn primary(&mut self, e: &E) {
        match e {
            E::Name(n) => { self.leaf("TWIG_LITERAL_NAME", n); }
            E::Num(n) => { self.leaf("TWIG_LITERAL_NUMBER", n); }
            E::Null(n) => { self.leaf("TWIG_LITERAL_NULL", n); }
            E::Bool(n) => { self.leaf("TWIG_LITERAL_BOOLEAN", n); }
            E::Str(q, p) => self.string(*q, p, true),
            E::Arr(v) => {
                self.open("TWIG_LITERAL_ARRAY");
                self.tok("[");
                self.open("TWIG_LITERAL_ARRAY_INNER");
                for (i, x) in v.iter().enumerate() {
                    self.opt();
                    self.expr(x);
                    if i + 1 < v.len() || self.trailing_comma() {
                        self.opt();
                        let r = self.tok(",");
                        if i + 1 < v.len() { self.piece("comma", r); }
                        if !self.cfg.wild { self.push_ws(" ") }
                    }
                }
                self.close();
                self.opt();
                let r = self.tok("]");
                self.piece("closer", r);
                self.close();
            }
            E::Hash(v) => self.hash(v),
            E::Paren(x) => {
                self.open("TWIG_PARENTHESES_EXPRESSION");
                self.tok("(");
                self.opt();
                self.expr(x);
                self.opt();
                let r = self.tok(")");
                self.piece("closer", r);
                self.close();
            }
            E::Acc(l, m) => {
                self.open("TWIG_ACCESSOR");
                self.operand(l);
                self.dot();
                self.open("TWIG_OPERAND");
                let r = self.leaf("TWIG_LITERAL_NAME", m);
                self.close();
                self.close();
                self.mark("accessor", r, m, "", "", false);
            }
            E::Meth(l, m, a) => {
                self.open("TWIG_FUNCTION_CALL");
                self.open("TWIG_OPERAND");
                self.open("TWIG_ACCESSOR");
                self.operand(l);
                self.dot();
                self.open("TWIG_OPERAND");
                self.leaf("TWIG_LITERAL_NAME", m);
                self.close();
                self.close();
                self.close();
                self.args(a);
                self.close();
            }
            E::DotIdx(l, n) => {
                self.open("TWIG_INDEX_LOOKUP");
                self.operand(l);
                self.tok(".");
                self.open("TWIG_INDEX");
                self.open("TWIG_EXPRESSION");
                self.leaf("TWIG_LITERAL_NUMBER", n);
                self.close();
                self.close();
                self.close();
            }
            E::Index(l, i) => {
                self.open("TWIG_INDEX_LOOKUP");
                self.operand(l);
                self.opt();
                self.tok("[");
                self.opt();
                self.open("TWIG_INDEX");
                self.expr(i);
                self.close();
                self.opt();
                let r = self.tok("]");
                self.piece("closer", r);
                self.close();
            }
            E::Slice(l, a, b) => {
                self.open("TWIG_INDEX_LOOKUP");
                self.operand(l);
                self.opt();
                self.tok("[");
                self.opt();
                self.open("TWIG_INDEX_RANGE");
                if let Some(a) = a {
                    self.expr(a);
                    self.opt();
                }
                self.tok(":");
                if let Some(b) = b {
                    self.opt();
                    self.expr(b);
                }
                self.close();
                self.opt();
                let r = self.tok("]");
                self.piece("closer", r);
                self.close();
            }
            E::Filter(l, f, a) => {
                let st = self.out.len();
                self.open("TWIG_FILTER");
                self.operand(l);
                self.opt();
                self.tok("|");
                self.opt();
                self.open("TWIG_OPERAND");
                let r = self.leaf("TWIG_LITERAL_NAME", f);
                if let Some(a) = a { self.args(a); }
                self.close();
                self.close();
                let end = self.last_end;
                self.mark("filter", r, f, &format!("{st},{end}"), &filter_chain(l), false);
            }
            E::Call(f, a) => {
                self.open("TWIG_FUNCTION_CALL");
                self.open("TWIG_OPERAND");
                let r = self.leaf("TWIG_LITERAL_NAME", f);
                self.close();
                self.args(a);
                self.close();
                self.mark("function", r, f, "", "", false);
            }
            _ => self.expr_inner(e),
        }
    }
    fn trailing_comma(&mut self) -> bool {
        self.s.pct(8)
    }
    fn dot(&mut self) {
        if self.cfg.wild && self.t.pct(10) { self.random_gap() }
        self.tok(".");
        if self.cfg.wild && self.t.pct(10) { self.random_gap() }
    }
    fn operand(&mut self, e: &E) {
        self.open("TWIG_OPERAND");
        self.primary(e);
        self.close();
    }
    fn args(&mut self, a: &[Arg]) {
        self.opt();
        self.open("TWIG_ARGUMENTS");
        self.tok("(");
        for (i, x) in a.iter().enumerate() {
            self.opt();
            self.arg(x);
            if i + 1 < a.len() {
                self.opt();
                let r = self.tok(",");
                self.piece("comma", r);
                if !self.cfg.wild { self.push_ws(" ") }
            }
        }
        self.opt();
        let r = self.tok(")");
        self.piece("closer", r);
        self.close();
    }
    fn arg(&mut self, x: &Arg) {
        match x {
            Arg::Pos(e) => self.expr(e),
            Arg::Named(n, e) => {
                self.open("TWIG_NAMED_ARGUMENT");
                self.tok(n);
                self.opt();
                self.tok("=");
                self.opt_before(e);
                self.expr(e);
                self.close();
            }
            Arg::Arrow(names, par, e) => {
                self.open("TWIG_EXPRESSION");
                self.open("TWIG_ARROW_FUNCTION");
                self.open("TWIG_ARGUMENTS");
                if *par {
                    self.tok("(");
                    for (i, n) in names.iter().enumerate() {
                        self.opt();
                        self.leaf("TWIG_LITERAL_NAME", n);
                        if i + 1 < names.len() {
                            self.opt();
                            self.tok(",");
                            self.opt();
                        }
                    }
                    self.opt();
                    let r = self.tok(")");
                    self.piece("closer", r);
                } else {
                    self.leaf("TWIG_LITERAL_NAME", &names[0].clone());
                }
                self.close();
                self.req();
                self.tok("=>");
                self.req();
                self.expr(e);
                self.close();
                self.close();
            }
        }
    }
    fn opt_before(&mut self, e: &E) {
        let f = first_text(e);
        if f.starts_with(['=', '-', '+']) { self.req() } else { self.opt() }
    }
    fn hash(&mut self, v: &[(Key, Option<E>)]) {
        self.open("TWIG_LITERAL_HASH");
        self.tok("{");
        self.open("TWIG_LITERAL_HASH_ITEMS");
        for (i, (k, x)) in v.iter().enumerate() {
            self.req();
            self.open("TWIG_LITERAL_HASH_PAIR");
            self.open("TWIG_LITERAL_HASH_KEY");
            match k {
                Key::Word(w) => { self.tok(w); }
                Key::Num(w) => { self.leaf("TWIG_LITERAL_NUMBER", w); }
                Key::Str(q, s) => {
                    let st = self.out.len();
                    let p = if s.is_empty() { vec![] } else { vec![Part::Text(s.clone())] };
                    self.string(*q, &p, true);
                    let e = self.last_end;
                    let inner = self.out[st + 1..e - 1].to_string();
                    self.mark("hashkey", (st, e), &inner, &q.to_string(), "", false);
                }
                Key::Expr(e) => {
                    self.tok("(");
                    self.opt();
                    self.expr(e);
                    self.opt();
                    self.tok(")");
                }
            }
            self.close();
            if let Some(x) = x {
                self.opt();
                let r = self.tok(":");
                self.piece("colon", r);
                self.req();
                let st = self.out.len();
                self.expr(x);
                let en = self.last_end;
                self.piece("operand", (st, en));
            }
            self.close();
            if i + 1 < v.len() || self.trailing_comma() {
                self.opt();
                let r = self.tok(",");
                if i + 1 < v.len() { self.piece("comma", r); }
            }
        }
        self.close();
        self.req();
        let r = self.tok("}");
        self.piece("closer", r);
        self.close();
    }
    pub fn string(&mut self, q: char, parts: &[Part], markit: bool) {
        let st = self.out.len();
        self.open("TWIG_LITERAL_STRING");
        self.tok(&q.to_string());
        self.open("TWIG_LITERAL_STRING_INNER");
        let is = self.out.len();
        let mut interp = false;
        for p in parts {
            match p {
                Part::Text(s) => {
                    self.tok(s);
                    if self.cfg.ml_strings && self.quote.is_none() && self.t.pct(12) {
                        let l = self.nl();
                        let mut w = String::from(l);
                        if self.t.pct(30) { w.push_str("   "); w.push_str(l); }
                        w.push_str(&" ".repeat(self.t.below(6)));
                        self.tok(&w);
                    }
                }
                Part::Interp(e) => {
                    interp = true;
                    self.open("TWIG_LITERAL_STRING_INTERPOLATION");
                    self.tok("#{");
                    self.req();
                    self.ctx.push("interp");
                    self.expr(e);
                    self.ctx.pop();
                    self.req();
                    self.tok("}");
                    self.close();
                }
            }
        }
        let ie = self.out.len();
        self.close();
        let r = self.tok(&q.to_string());
        self.piece("strquote", r);
        self.close();
        let inner = self.out[is..ie].to_string();
        if markit {
            self.mark("string", (st, self.last_end), &inner, &q.to_string(), "", interp);
        }
    }
    pub fn var(&mut self, e: &E) {
        self.open("TWIG_VAR");
        let d = self.delim("{{");
        self.tok(d);
        self.gap(&first_text(e));
        let st = self.out.len();
        self.expr(e);
        let en = self.last_end;
        let c = self.cdelim("}}");
        self.gap(c);
        let r = self.tok(c);
        self.piece("closer", r);
        self.close();
        self.piece("varexpr", (st, en));
    }
    fn delim(&mut self, d: &'static str) -> &'static str {
        if !self.cfg.ws_control { return d; }
        match (d, self.s.below(8)) {
            ("{{", 0) => "{{-", ("{{", 1) => "{{~",
            ("{%", 0) => "{%-", ("{%", 1) => "{%~",
            ("{#", 0) => "{#-", ("{#", 1) => "{#~",
            _ => d,
        }
    }
    fn cdelim(&mut self, d: &'static str) -> &'static str {
        if !self.cfg.ws_control { return d; }
        match (d, self.s.below(8)) {
            ("}}", 0) => "-}}", ("}}", 1) => "~}}",
            ("%}", 0) => "-%}", ("%}", 1) => "~%}",
            ("#}", 0) => "-#}", ("#}", 1) => "~#}",
            _ => d,
        }
    }

    // ---------------------------------------------------------------- documents
    pub fn root(&mut self) {
        self.open("ROOT");
        if self.cfg.doctype && self.cfg.html && self.s.pct(6) {
            let st = self.out.len();
            self.open("HTML_DOCTYPE");
            self.tok("<!");
            let d = *self.s.pick(&["DOCTYPE", "doctype", "Doctype"]);
            self.tok(d);
            self.req();
            self.tok("html");
            self.tok(">");
            self.close();
            self.top.push((st, self.out.len()));
            self.doc_gap(false);
        }
        let n = self.s.range(1, self.cfg.top_nodes);
        self.nodes(n, true);
        if self.t.pct(30) {
            let n = self.nl();
            self.push_ws(n);
        }
        self.close();
    }
    fn doc_gap(&mut self, _must: bool) {
        if !self.cfg.wild {
            let n = self.nl();
            self.push_ws(n);
            let d = self.depth.min(8);
            let sp = "    ".repeat(d);
            self.push_ws(&sp);
            return;
        }
        match self.t.below(9) {
            0 | 1 => {}
            2 => self.push_ws(" "),
            3 => self.push_ws("\t "),
            4..=6 => {
                let n = self.nl();
                self.push_ws(n);
                let k = self.t.below(9);
                let sp = " ".repeat(k);
                self.push_ws(&sp);
            }
            7 => {
                let n = self.nl();
                self.push_ws(n);
                let m = self.nl();
                self.push_ws(m);
                let k = self.t.below(5);
                let sp = " ".repeat(k);
                self.push_ws(&sp);
            }
            _ => {
                let n = self.nl();
                self.push_ws(n);
                self.push_ws("   ");
                let m = self.nl();
                self.push_ws(m);
                self.push_ws("  ");
            }
        }
    }
    /// n sibling document nodes
    fn nodes(&mut self, n: usize, top: bool) {
        let mut last_text = false;
        for i in 0..n {
            if self.fuel <= 0 && i > 0 {
                break;
            }
            if i > 0 { self.doc_gap(false); }
            let mut framed = false;
            if top && self.cfg.directives > 0 && self.s.pct(self.cfg.file_dirs) {
                let rules = self.rule_list();
                let st = self.out.len();
                self.directive("LUDTWIG_DIRECTIVE_FILE_IGNORE", "ludtwig-ignore-file", &rules);
                self.top.push((st, self.out.len()));
                self.doc_gap(false);
                last_text = false;
            }
            if self.cfg.directives > 0 && self.s.pct(self.cfg.directives) {
                let rules = self.rule_list();
                let st = self.out.len();
                self.directive("LUDTWIG_DIRECTIVE_IGNORE", "ludtwig-ignore", &rules);
                if top { self.top.push((st, self.out.len())); }
                self.doc_gap(false);
                self.frames.push(IgnoreFrame { rules, start: self.out.len(), end: usize::MAX });
                self.active.push(self.frames.len() - 1);
                framed = true;
                last_text = false;
            }
            let st = self.out.len();
            if !top && self.cfg.nested_file_dirs > 0 && self.s.pct(self.cfg.nested_file_dirs) {
                let rules = self.rule_list();
                self.directive("LUDTWIG_DIRECTIVE_FILE_IGNORE", "ludtwig-ignore-file", &rules);
                last_text = false;
            } else {
                last_text = self.node(last_text);
            }
            if top { self.top.push((st, self.out.len())); }
            if framed {
                let f = self.active.pop().unwrap();
                self.frames[f].end = self.last_end;
            }
        }
    }
    pub fn rule_list(&mut self) -> Vec<String> {
        let n = *self.s.pick(&[0usize, 1, 1, 1, 2, 3]);
        let n = if n > 0 { self.cnt(n) } else { 0 };
        (0..n).map(|_| (*self.s.pick(crate::oracle::RULES)).to_string()).collect()
    }
    pub fn directive(&mut self, kind: &'static str, word: &str, rules: &[String]) {
        let html = self.cfg.html && self.s.pct(35);
        let pos = self.out.len();
        self.open(kind);
        self.tok(if html { "<!--" } else { "{#" });
        self.req();
        self.tok(word);
        self.open("LUDTWIG_DIRECTIVE_RULE_LIST");
        for (i, r) in rules.iter().enumerate() {
            self.req();
            self.tok(r);
            if i + 1 < rules.len() {
                self.tok(",");
            }
        }
        self.close();
        self.req();
        self.tok(if html { "-->" } else { "#}" });
        self.close();
        let e = self.last_end;
        self.mark(if kind.contains("FILE") { "fileignore" } else { "ignore" }, (pos, e), &rules.join(","), "", "", false);
        if kind.contains("FILE") && self.stack.len() == 1 {
            self.file_ignores.push((pos, rules.to_vec()));
        }
    }
    fn body_nodes(&mut self) -> usize {
        if self.fuel <= 0 || self.depth >= self.cfg.depth { return self.s.below(2); }
        let n = self.s.below(4);
        self.cnt(n)
    }
    /// BODY with document nodes
    fn body(&mut self) {
        self.open("BODY");
        let n = self.body_nodes();
        self.depth += 1;
        if n > 0 {
            self.doc_gap(false);
            self.nodes(n, false);
        }
        self.depth -= 1;
        self.close();
        self.doc_gap(false);
    }
    /// returns true when a text node was emitted
    fn node(&mut self, after_text: bool) -> bool {
        self.fuel -= 1;
        let deep = self.depth >= self.cfg.depth || self.fuel <= 0;
        loop {
            let roll = self.s.below(100);
            let roll = if self.cfg.html_heavy && roll >= 62 && self.s.pct(70) { 28 + roll % 29 } else { roll };
            match roll {
                0..=17 if !after_text && self.cfg.html => { self.text(); return true; }
                18..=27 => { let d = self.s.range(0, self.cfg.max_expr); let e = self.gen_expr(d); self.var(&e); return false; }
                28..=52 if self.cfg.html => { self.element(deep); return false; }
                53..=56 if self.cfg.html && self.cfg.comments => { self.html_comment(); return false; }
                57..=61 if self.cfg.comments => { self.twig_comment(); return false; }
                62..=99 => { self.tag(deep, Body::Doc); return false; }
                _ => {}
            }
        }
    }
    fn text(&mut self) {
        self.open("HTML_TEXT");
        let n = { let n = self.s.range(1, 4); self.cnt(n) };
        for i in 0..n {
            if i > 0 {
                if self.cfg.wild && self.t.pct(20) && self.cfg.code_nl {
                    let l = self.nl();
                    self.push_ws(l);
                    self.push_ws("  ");
                } else {
                    self.push_ws(" ");
                }
            }
            let w = if i == 0 { *self.s.pick(TEXT0) } else { *self.s.pick(TEXT) };
            let w = if !self.cfg.unicode && !w.is_ascii() { "ascii" } else { w };
            self.tok(w);
        }
        self.close();
    }
    fn comment_text(&mut self) {
        let n = { let n = self.s.below(4); self.cnt(n) };
        for _ in 0..n {
            self.req();
            let w = *self.s.pick(&["todo", "<b>", "hello", "{{ x }}", "if", "\"q\"", "über", "it's", "{% block x %}", "a > b", "ludtwig", "&amp;", "</div>", "%}"]);
            let w = if !self.cfg.unicode && !w.is_ascii() { "uber" } else { w };
            self.tok(w);
        }
        self.req();
    }
    fn html_comment(&mut self) {
        self.open("HTML_COMMENT");
        self.tok("<!--");
        self.comment_text();
        let r = self.tok("-->");
        self.piece("closer", r);
        self.close();
        let (s, e) = (self.spans[self.spans.len() - 1].start, self.last_end);
        self.mark("htmlcomment", (s, e), "", "", "", false);
    }
    fn twig_comment(&mut self) {
        let d = self.delim("{#");
        self.open("TWIG_COMMENT");
        let st = self.out.len();
        self.tok(d);
        self.comment_text();
        let c = self.cdelim("#}");
        let r = self.tok(c);
        self.piece("closer", r);
        self.close();
        let e = self.last_end;
        self.mark("twigcomment", (st, e), d, c, "", false);
    }

    // ---------------------------------------------------------------- HTML
    fn element(&mut self, deep: bool) {
        let k = self.s.below(100);
        self.open("HTML_TAG");
        let tagst = self.out.len();
        if k < 22 {
            // void or self closing
            self.open("HTML_STARTING_TAG");
            let void = self.s.pct(60);
            let name = if void { *self.s.pick(VOID) } else { *self.s.pick(&["sw-icon", "div", "path", "twig:Alert", "twig:my-comp:sub", "Foo"]) };
            self.tok("<");
            let r = self.tok(name);
            self.mark("tagname", r, name, if void { "void" } else { "self" }, "", false);
            self.attr_list(name);
            self.opt_tag_gap();
            let c = if void && self.s.pct(60) { ">" } else { "/>" };
            if c == "/>" && self.out.ends_with(|c: char| c.is_ascii_alphanumeric()) && self.last_unquoted() { self.push_ws(" "); }
            let r = self.tok(c);
            self.piece("tagclose", r);
            self.close();
            self.close();
            return;
        }
        let rawel = self.cfg.raw && k < 36;
        let name: &'static str = if self.cfg.sensitive && !rawel && k < 60 { *self.s.pick(&["pre", "PRE", "Pre"]) } else if rawel { *self.s.pick(&["script", "style", "textarea", "title"]) } else { *self.s.pick(ELEMENTS) };
        self.open("HTML_STARTING_TAG");
        self.tok("<");
        let r = self.tok(name);
        self.mark("tagname", r, name, "normal", "", false);
        self.attr_list(name);
        self.opt_tag_gap();
        let r = self.tok(">");
        self.piece("tagclose", r);
        self.close();
        self.ctx.push(name);
        if rawel {
            self.open("BODY");
            self.open("HTML_RAW_TEXT");
            let n = if deep { 1 } else { self.s.below(4) };
            self.raw_nodes(n);
            self.close();
            self.close();
            if self.cfg.wild { self.opt() }
        } else if deep {
            self.open("BODY");
            self.close();
        } else {
            self.body();
        }
        self.ctx.pop();
        self.open("HTML_ENDING_TAG");
        let st = self.out.len();
        self.tok("</");
        self.tok(name);
        if self.cfg.wild && self.t.pct(8) { self.push_ws(" ") }
        let r = self.tok(">");
        self.close();
        self.piece("endtag", (st, r.1));
        self.close();
        self.mark("element", (tagst, r.1), name, "", "", rawel);
    }
    fn last_unquoted(&self) -> bool {
        true
    }
    fn opt_tag_gap(&mut self) {
        if self.cfg.wild && self.t.pct(20) { self.random_gap() }
    }
    fn attr_list(&mut self, el: &'static str) {
        self.open("HTML_ATTRIBUTE_LIST");
        let n = if self.fuel <= 0 { 0 } else { let n = *self.s.pick(&[0usize, 0, 0, 1, 1, 2, 3, 4]); self.cnt(n) };
        self.attrs(n, el, 0);
        self.close();
    }
    fn attrs(&mut self, n: usize, el: &'static str, nest: usize) {
        for _ in 0..n {
            self.fuel -= 1;
            self.req();
            if self.cfg.attr_twig && nest < 2 && self.s.pct(12) {
                self.ctx.push("attrlist");
                self.tag(false, Body::Attrs(el, nest));
                self.ctx.pop();
            } else if self.cfg.attr_twig && self.s.pct(5) {
                self.ctx.push("attrlist");
                if self.s.pct(50) { self.twig_comment(); } else {
                    self.open("HTML_ATTRIBUTE");
                    let e = self.gen_expr(1);
                    self.var(&e);
                    self.close();
                }
                self.ctx.pop();
            } else {
                self.attr(el, nest);
            }
        }
    }
    fn attr(&mut self, el: &'static str, nest: usize) {
        self.open("HTML_ATTRIBUTE");
        let st = self.out.len();
        let dynamic = self.cfg.attr_twig && self.s.pct(4);
        let mut aname = String::new();
        if dynamic {
            let e = self.gen_expr(1);
            self.var(&e);
        } else {
            aname = if self.s.pct(if self.cfg.dups { 35 } else { 8 }) { "id".into() } else { (*self.s.pick(ATTRS)).to_string() };
            let r = self.tok(&aname);
            self.mark("attr", r, &aname, el, "", nest > 0);
        }
        if self.s.pct(80) {
            self.opt();
            self.tok("=");
            self.opt();
            self.attr_value(&aname);
        }
        self.close();
        let _ = st;
    }
    fn attr_value(&mut self, aname: &str) {
        self.open("HTML_STRING");
        let st = self.out.len();
        let k = self.s.below(100);
        if k < 10 {
            // unquoted
            self.open("HTML_STRING_INNER");
            let st = self.out.len();
            if self.cfg.attr_twig && self.s.pct(30) {
                let e = self.gen_expr(1);
                self.var(&e);
            } else {
                let w = *self.s.pick(&["foo", "primary", "a1", "my-id"]);
                self.tok(w);
                self.mark("attrvalue", (st, self.last_end), w, "", aname, false);
            }
            self.close();
            self.close();
            return;
        }
        let q = if self.s.pct(70) { '"' } else { '\'' };
        let saved = self.quote;
        self.quote = Some(q);
        let oq = self.tok(&q.to_string());
        let _ = oq;
        self.open("HTML_STRING_INNER");
        let is = self.out.len();
        self.ctx.push("attrvalue");
        let n = if aname == "id" { *self.s.pick(&[0usize, 1, 1, 1, 1]) } else { let n = self.s.below(4); self.cnt(n) };
        let stat = self.attr_parts(n, q, aname, 0);
        self.ctx.pop();
        let ie = self.out.len();
        self.close();
        let r = self.tok(&q.to_string());
        self.piece("attrquote", r);
        self.close();
        self.quote = saved;
        let inner = self.out[is..ie].to_string();
        self.mark("attrvalue", (st, r.1), &inner, &q.to_string(), aname, !stat);
    }
    /// returns true when everything was static
    fn attr_parts(&mut self, n: usize, q: char, aname: &str, nest: usize) -> bool {
        let mut stat = true;
        for i in 0..n {
            self.fuel -= 1;
            if i > 0 { self.push_ws(" "); }
            let k = self.s.below(100);
            if self.cfg.attr_twig && k < 22 {
                let e = self.gen_expr(2);
                let e = no_angle(&e);
                let e = requote(&e, q);
                self.var(&e);
                stat = false;
            } else if self.cfg.attr_twig && nest < 2 && k < 30 {
                self.tag(false, Body::Value(q, nest));
                stat = false;
            } else {
                let w = if aname == "id" {
                    (*self.s.pick(&["main", "header", "a1", "content-2", "b", "main"])).to_string()
                } else {
                    let w = *self.s.pick(&["btn", "btn-primary", "col-12", "color: red;", "https://x.y/z?a=1&b=2", "#top", "it", "100%", "a,b", "(x)", "Ünï", "{ a: 1 }", "foo.bar", "!important", "/path", "if", "or", "is not", "&amp;", "x || y", "QUOTE"]);
                    let w = if w == "QUOTE" { if q == '"' { "it's" } else { "say \"x\"" } } else { w };
                    if !self.cfg.unicode && !w.is_ascii() { "uni".into() } else { w.to_string() }
                };
                self.tok(&w);
            }
        }
        stat
    }
    /// raw text element content
    fn raw_nodes(&mut self, n: usize) {
        for i in 0..n {
            self.fuel -= 1;
            if i > 0 { self.push_ws(" "); }
            let k = self.s.below(100);
            if k < 20 {
                let d = self.s.below(3);
                let e = self.gen_expr(d);
                self.var(&e);
            } else if k < 42 {
                self.tag(self.fuel <= 0, Body::Raw);
            } else if k < 46 && self.cfg.comments {
                self.twig_comment();
            } else {
                let m = self.s.range(1, 4);
                for j in 0..m {
                    if j > 0 {
                        if self.t.pct(30) { let l = self.nl(); self.push_ws(l); let sp = " ".repeat(self.t.below(6)); self.push_ws(&sp); } else { self.push_ws(" ") }
                    }
                    let w = *self.s.pick(&["var", "x", "=", "1;", "if", "(a", "<", "b)", "{", "}", "</div>", "<p>", "'str'", "\"s\"", "&&", ".cls", "color:", "red;", "//", "!==", "<!--x-->", "über", "for", "100%"]);
                    let w = if !self.cfg.unicode && !w.is_ascii() { "uber" } else { w };
                    let w = if j == 0 && (w == "über" || w == "=") { "x" } else { w };
                    self.tok(w);
                }
            }
        }
    }
    fn tag_body(&mut self, b: Body) {
        match b {
            Body::Doc => self.body(),
            Body::Attrs(el, nest) => {
                self.open("BODY");
                let n = self.s.below(3);
                self.attrs(n, el, nest + 1);
                self.close();
                self.req();
            }
            Body::Value(q, nest) => {
                self.open("BODY");
                let n = self.s.below(3);
                if n > 0 {
                    if self.cfg.wild && self.t.pct(50) { self.push_ws(" ") }
                    self.attr_parts(n, q, "", nest + 1);
                }
                self.close();
                if self.cfg.wild && self.t.pct(50) { self.push_ws(" ") }
            }
            Body::Raw => {
                self.open("BODY");
                let n = if self.fuel <= 0 { 0 } else { let n = self.s.below(3); self.cnt(n) };
                if n > 0 {
                    self.push_ws(" ");
                    self.open("HTML_RAW_TEXT");
                    self.raw_nodes(n);
                    self.close();
                }
                self.close();
                self.push_ws(" ");
            }
        }
    }

    // ---------------------------------------------------------------- tags
    fn o(&mut self, kw: &str) -> (usize, usize) {
        let d = self.delim("{%");
        let st = self.out.len();
        self.tok(d);
        self.gap(kw);
        self.tok(kw);
        (st, self.out.len())
    }
    fn c(&mut self) {
        let c = self.cdelim("%}");
        self.gap(c);
        let r = self.tok(c);
        self.piece("closer", r);
    }
    fn end_simple(&mut self, kind: &'static str, kw: &str) {
        self.open(kind);
        let st = self.out.len();
        self.o(kw);
        let c = self.cdelim("%}");
        self.gap(c);
        self.tok(c);
        let e = self.last_end;
        self.piece("twigend", (st, e));
        self.close();
    }
    /// a required expression of a tag
    fn rexpr(&mut self, d: usize) {
        let mut e = self.gen_expr(d);
        if self.quote.is_some() || !self.cfg.html {
            e = no_angle(&e);
        }
        if let Some(q) = self.quote { e = requote(&e, q); }
        self.req();
        let st = self.out.len();
        self.expr(&e);
        let en = self.last_end;
        self.piece("tagexpr", (st, en));
    }
    fn rstr(&mut self) {
        self.req();
        let st = self.out.len();
        let mut q = if self.s.pct(60) { '\'' } else { '"' };
        if let Some(o) = self.quote { q = if o == '"' { '\'' } else { '"' }; }
        let t = *self.s.pick(&["@Storefront/storefront/base.html.twig", "html", "FEATURE_NEXT_1", "a/b.twig", "some text"]);
        self.string(q, &[Part::Text(t.into())], true);
        let en = self.last_end;
        self.piece("tagexpr", (st, en));
    }
    fn rname(&mut self) -> String {
        let n = self.word_name();
        self.req();
        let r = self.leaf("TWIG_LITERAL_NAME", &n);
        self.piece("tagname", r);
        n
    }
    pub fn block_name(&mut self) -> String {
        self.uniq += 1;
        let base = *self.s.pick(&["page", "base_content", "myBlock", "a", "page_product", "My_Block", "block-x", "x_1", "inner__double", "page_", "content"]);
        if self.s.pct(6) { return (*self.s.pick(KW_NAMES)).to_string(); }
        if self.s.pct(80) { format!("{base}{}", self.uniq) } else { base.to_string() }
    }
    pub fn tag(&mut self, deep: bool, b: Body) {
        self.fuel -= 1;
        let limited = !matches!(b, Body::Doc);
        let k = if limited { *self.s.pick(&[0usize, 3, 3, 3, 7, 9, 12, 13, 14]) } else if self.cfg.shop && self.s.pct(15) { 12 } else { self.s.below(46) };
        match k {
            0..=2 => self.t_block(deep, b),
            3..=6 => self.t_if(b),
            7 | 8 => self.t_set(b),
            9..=11 => self.t_for(b),
            12 => {
                if limited { return self.t_if(b); }
                let st = self.out.len();
                self.open("TWIG_EXTENDS");
                self.o("extends");
                if self.cfg.plain_extends { self.rstr() } else { self.rexpr(1) }
                self.c();
                self.close();
                let r = (st, self.last_end);
                self.mark("extends", r, "", "", "", false);
            }
            13 => self.t_include("TWIG_INCLUDE", "include"),
            14 => self.t_include("SHOPWARE_TWIG_SW_INCLUDE", "sw_include"),
            15 => {
                self.open("TWIG_EMBED");
                self.open("TWIG_EMBED_STARTING_BLOCK");
                let sw = self.s.pct(40);
                self.o(if sw { "sw_embed" } else { "embed" });
                self.include_args();
                self.c();
                self.close();
                self.tag_body(b);
                self.end_simple("TWIG_EMBED_ENDING_BLOCK", if sw { "sw_end_embed" } else { "endembed" });
                self.close();
            }
            16 => {
                self.open("TWIG_USE");
                let kw = if self.s.pct(40) { "sw_use" } else { "use" };
                self.o(kw);
                self.rstr();
                if self.s.pct(50) {
                    self.req();
                    self.tok("with");
                    self.overrides();
                }
                self.c();
                self.close();
            }
            17 => {
                self.open("TWIG_FROM");
                let sw = self.s.pct(40);
                self.o(if sw { "sw_from" } else { "from" });
                self.rexpr(1);
                self.req();
                let sw = self.s.pct(40);
                let r = self.tok(if sw { "sw_import" } else { "import" });
                self.piece("tagkw", r);
                self.overrides();
                self.c();
                self.close();
            }
            18 => {
                self.open("TWIG_IMPORT");
                let kw = if self.s.pct(40) { "sw_import" } else { "import" };
                self.o(kw);
                self.rexpr(1);
                self.req();
                let r = self.tok("as");
                self.piece("tagkw", r);
                self.rname();
                self.c();
                self.close();
            }
            19 | 20 => {
                self.open("TWIG_APPLY");
                self.open("TWIG_APPLY_STARTING_BLOCK");
                self.o("apply");
                self.req();
                self.apply_filters();
                self.c();
                self.close();
                self.tag_body(b);
                self.end_simple("TWIG_APPLY_ENDING_BLOCK", "endapply");
                self.close();
            }
            21 => {
                self.open("TWIG_AUTOESCAPE");
                self.open("TWIG_AUTOESCAPE_STARTING_BLOCK");
                self.o("autoescape");
                match self.s.below(3) {
                    0 => self.rstr(),
                    1 => { self.req(); self.tok("false"); }
                    _ => {}
                }
                self.c();
                self.close();
                self.tag_body(b);
                self.end_simple("TWIG_AUTOESCAPE_ENDING_BLOCK", "endautoescape");
                self.close();
            }
            22 => { self.open("TWIG_DEPRECATED"); self.o("deprecated"); self.rstr(); self.c(); self.close(); }
            23 => { self.open("TWIG_DO"); self.o("do"); self.rexpr(2); self.c(); self.close(); }
            24 => { self.open("TWIG_FLUSH"); self.o("flush"); self.c(); self.close(); }
            25 => self.simple_tag("TWIG_SANDBOX", "TWIG_SANDBOX_STARTING_BLOCK", "sandbox", "TWIG_SANDBOX_ENDING_BLOCK", "endsandbox", b),
            26 => self.simple_tag("TWIG_VERBATIM", "TWIG_VERBATIM_STARTING_BLOCK", "verbatim", "TWIG_VERBATIM_ENDING_BLOCK", "endverbatim", b),
            27 => self.simple_tag("TWIG_TRANS", "TWIG_TRANS_STARTING_BLOCK", "trans", "TWIG_TRANS_ENDING_BLOCK", "endtrans", b),
            28 | 29 => {
                self.open("TWIG_MACRO");
                self.open("TWIG_MACRO_STARTING_BLOCK");
                self.o("macro");
                self.req();
                let name = self.pick_name();
                self.tok(&name);
                let n = { let n = self.s.below(3); self.cnt(n) };
                let a: Vec<Arg> = (0..n).map(|_| {
                    if self.s.pct(50) { Arg::Pos(E::Name(self.pick_name())) } else { let w = self.pick_name(); let e = self.gen_atom(1); Arg::Named(w, e) }
                }).collect();
                self.args(&a);
                self.c();
                self.close();
                self.tag_body(b);
                self.end_named("TWIG_MACRO_ENDING_BLOCK", "endmacro", &name);
                self.close();
            }
            30 | 31 => {
                self.open("TWIG_WITH");
                self.open("TWIG_WITH_STARTING_BLOCK");
                self.o("with");
                if self.s.pct(70) {
                    self.req();
                    let e = if self.s.pct(60) { self.gen_hash(2) } else { E::Name(self.word_name()) };
                    self.expr(&e);
                    if self.s.pct(40) { self.req(); self.tok("only"); }
                }
                self.c();
                self.close();
                self.tag_body(b);
                self.end_simple("TWIG_WITH_ENDING_BLOCK", "endwith");
                self.close();
            }
            32 => {
                self.open("TWIG_CACHE");
                self.open("TWIG_CACHE_STARTING_BLOCK");
                self.o("cache");
                self.rexpr(1);
                if self.s.pct(50) { self.cache_arg("TWIG_CACHE_TTL", "ttl"); }
                if self.s.pct(50) { self.cache_arg("TWIG_CACHE_TAGS", "tags"); }
                self.c();
                self.close();
                self.tag_body(b);
                self.end_simple("TWIG_CACHE_ENDING_BLOCK", "endcache");
                self.close();
            }
            33 => {
                self.open("TWIG_PROPS");
                self.o("props");
                let n = { let n = self.s.range(1, 3); self.cnt(n) };
                for i in 0..n {
                    self.req();
                    self.open("TWIG_PROP_DECLARATION");
                    let w = self.word_name();
                    self.leaf("TWIG_LITERAL_NAME", &w);
                    if self.s.pct(50) {
                        self.opt();
                        self.tok("=");
                        self.req();
                        let e = self.gen_expr(1);
                        self.expr(&e);
                    }
                    self.close();
                    if i + 1 < n { self.opt(); let r = self.tok(","); self.piece("comma", r); }
                }
                self.c();
                self.close();
            }
            34 | 35 => {
                self.open("TWIG_COMPONENT");
                self.open("TWIG_COMPONENT_STARTING_BLOCK");
                self.o("component");
                self.rname();
                if self.s.pct(50) {
                    self.req();
                    self.tok("with");
                    self.req();
                    if let E::Hash(v) = self.gen_hash(2) { self.hash(&v); }
                }
                self.c();
                self.close();
                self.tag_body(b);
                self.end_simple("TWIG_COMPONENT_ENDING_BLOCK", "endcomponent");
                self.close();
            }
            36 => { self.open("SHOPWARE_TWIG_SW_EXTENDS"); self.o("sw_extends"); self.rstr(); self.c(); self.close(); }
            37 => {
                self.open("SHOPWARE_SILENT_FEATURE_CALL");
                self.open("SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK");
                self.o("sw_silent_feature_call");
                self.rstr();
                self.c();
                self.close();
                self.tag_body(b);
                self.end_simple("SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK", "endsw_silent_feature_call");
                self.close();
            }
            38 => {
                self.open("SHOPWARE_RETURN");
                self.o("return");
                if self.s.pct(70) { self.req(); let e = self.gen_expr(1); self.expr(&e); }
                self.c();
                self.close();
            }
            39 => {
                self.open("SHOPWARE_ICON");
                self.o("sw_icon");
                self.rexpr(1);
                if self.s.pct(50) {
                    self.req();
                    self.open("SHOPWARE_ICON_STYLE");
                    self.tok("style");
                    self.req();
                    let e = self.gen_hash(2);
                    self.expr(&e);
                    self.close();
                }
                self.c();
                self.close();
            }
            40 => {
                self.open("SHOPWARE_THUMBNAILS");
                self.o("sw_thumbnails");
                self.rexpr(1);
                if self.s.pct(50) {
                    self.req();
                    self.open("SHOPWARE_THUMBNAILS_WITH");
                    self.tok("with");
                    self.req();
                    let e = self.gen_hash(2);
                    self.expr(&e);
                    self.close();
                }
                self.c();
                self.close();
            }
            _ => self.t_block(deep, b),
        }
    }
    fn simple_tag(&mut self, k: &'static str, sk: &'static str, kw: &str, ek: &'static str, ekw: &str, b: Body) {
        self.open(k);
        self.open(sk);
        self.o(kw);
        self.c();
        self.close();
        self.tag_body(b);
        self.end_simple(ek, ekw);
        self.close();
    }
    fn end_named(&mut self, k: &'static str, kw: &str, name: &str) {
        self.open(k);
        let st = self.out.len();
        self.o(kw);
        if self.s.pct(30) {
            self.req();
            self.tok(name);
        }
        let c = self.cdelim("%}");
        self.gap(c);
        self.tok(c);
        let e = self.last_end;
        self.piece("twigend", (st, e));
        self.close();
    }
    fn t_block(&mut self, deep: bool, b: Body) {
        let st = self.out.len();
        self.open("TWIG_BLOCK");
        self.open("TWIG_STARTING_BLOCK");
        self.o("block");
        self.req();
        let name = self.block_name();
        let r = self.tok(&name);
        self.piece("tagname", r);
        self.mark("blockname", r, &name, "", "", false);
        if matches!(b, Body::Doc) && self.s.pct(12) {
            self.rexpr(2);
            self.pieces.pop();
            self.c();
            self.close();
            self.close();
            let e = self.last_end;
            self.mark("block", (st, e), &name, "", "", true);
            return;
        }
        self.c();
        self.close();
        if deep && matches!(b, Body::Doc) {
            self.open("BODY");
            self.close();
        } else {
            self.tag_body(b);
        }
        self.end_named("TWIG_ENDING_BLOCK", "endblock", &name);
        self.close();
        let e = self.last_end;
        self.mark("block", (st, e), &name, "", "", false);
    }
    fn t_if(&mut self, b: Body) {
        self.open("TWIG_IF");
        self.open("TWIG_IF_BLOCK");
        self.o("if");
        let d = self.s.range(0, self.cfg.max_expr.min(3));
        self.rexpr(d);
        self.c();
        self.close();
        self.tag_body(b);
        let n = *self.s.pick(&[0usize, 0, 0, 1, 2]);
        let n = self.cnt(n);
        for _ in 0..n {
            self.open("TWIG_ELSE_IF_BLOCK");
            self.o("elseif");
            self.rexpr(1);
            self.c();
            self.close();
            self.tag_body(b);
        }
        if self.s.pct(35) {
            self.open("TWIG_ELSE_BLOCK");
            self.o("else");
            self.c();
            self.close();
            self.tag_body(b);
        }
        self.end_simple("TWIG_ENDIF_BLOCK", "endif");
        self.close();
    }
    fn t_set(&mut self, b: Body) {
        self.open("TWIG_SET");
        self.open("TWIG_SET_BLOCK");
        self.o("set");
        self.req();
        self.open("TWIG_ASSIGNMENT");
        let capture = matches!(b, Body::Doc) && self.s.pct(35);
        let n = if capture || self.s.pct(70) { 1 } else { 2 };
        let mut ids = vec![];
        for i in 0..n {
            let w = (*self.s.pick(VARS)).to_string();
            let r = self.leaf("TWIG_LITERAL_NAME", &w);
            self.piece("tagname", r);
            ids.push(self.mark("setvar", r, &w, "", "", false));
            if i + 1 < n {
                self.opt();
                self.tok(",");
                self.req();
            }
        }
        if !capture {
            self.req();
            self.tok("=");
            self.req();
            for i in 0..n {
                let mut e = if self.s.pct(8) { E::Call("constant".into(), vec![Arg::Pos(E::Str(if self.quote == Some('\'') { '"' } else { '\'' }, vec![Part::Text("A".into())]))]) } else { self.gen_expr(2) };
                if n > 1 || self.quote.is_some() { e = no_angle(&e); }
                if let Some(q) = self.quote { e = requote(&e, q); }
                let cst = matches!(e, E::Call(ref f, _) if f == "constant");
                let id = ids[i];
                self.marks[id].a = if cst { "constant".into() } else { "expr".into() };
                let st = self.out.len();
                self.expr(&e);
                let en = self.last_end;
                self.piece("tagexpr", (st, en));
                if i + 1 < n {
                    self.opt();
                    self.tok(",");
                    self.req();
                }
            }
        }
        self.close();
        self.c();
        self.close();
        if capture {
            self.tag_body(b);
            self.end_simple("TWIG_ENDSET_BLOCK", "endset");
        }
        self.close();
    }
    fn t_for(&mut self, b: Body) {
        self.open("TWIG_FOR");
        self.open("TWIG_FOR_BLOCK");
        self.o("for");
        self.for_var();
        if self.s.pct(35) {
            self.opt();
            self.tok(",");
            self.for_var();
        }
        self.req();
        let r = self.tok("in");
        self.piece("tagkw", r);
        self.rexpr(1);
        self.c();
        self.close();
        self.tag_body(b);
        if self.s.pct(25) {
            self.open("TWIG_FOR_ELSE_BLOCK");
            self.o("else");
            self.c();
            self.close();
            self.tag_body(b);
        }
        self.end_simple("TWIG_ENDFOR_BLOCK", "endfor");
        self.close();
    }
    fn for_var(&mut self) {
        let n = if self.cfg.rules && self.s.pct(50) { (*self.s.pick(VARS)).to_string() } else { self.word_name() };
        self.req();
        let r = self.leaf("TWIG_LITERAL_NAME", &n);
        self.piece("tagname", r);
        self.mark("forvar", r, &n, "", "", false);
    }
    fn include_args(&mut self) {
        self.rexpr(1);
        if self.s.pct(25) { self.req(); self.tok("ignore missing"); }
        if self.s.pct(40) {
            self.req();
            self.open("TWIG_INCLUDE_WITH");
            self.tok("with");
            self.req();
            let e = if self.s.pct(70) { self.gen_hash(2) } else { E::Name(self.word_name()) };
            let mut e = e;
            if let Some(q) = self.quote { e = requote(&no_angle(&e), q); }
            let st = self.out.len();
            self.expr(&e);
            let en = self.last_end;
            self.piece("tagexpr", (st, en));
            self.close();
        }
        if self.s.pct(25) { self.req(); self.tok("only"); }
    }
    fn t_include(&mut self, k: &'static str, kw: &str) {
        self.open(k);
        self.o(kw);
        self.include_args();
        self.c();
        self.close();
    }
    fn overrides(&mut self) {
        let n = { let n = self.s.range(1, 3); self.cnt(n) };
        for i in 0..n {
            self.req();
            self.open("TWIG_OVERRIDE");
            let w = self.word_name();
            self.leaf("TWIG_LITERAL_NAME", &w);
            if self.s.pct(50) {
                self.req();
                self.tok("as");
                self.rname();
            }
            self.close();
            if i + 1 < n { self.opt(); self.tok(","); }
        }
    }
    fn apply_filters(&mut self) {
        let n = *self.s.pick(&[1usize, 1, 2, 3]);
        let n = self.cnt(n);
        let fs: Vec<(String, Option<Vec<Arg>>)> = (0..n).map(|_| {
            let f = if self.cfg.shop && self.s.pct(if n > 3 { 15 } else { 60 }) { *self.s.pick(&["json_encode", "raw"]) } else if self.s.pct(self.cfg.unknown_names) { *self.s.pick(UNKNOWN_FILTERS) } else { *self.s.pick(FILTERS) };
            let a = if self.s.pct(30) { Some(self.gen_args(1, false)) } else { None };
            (f.to_string(), a)
        }).collect();
        // left-nested
        fn go(g: &mut Gen, fs: &[(String, Option<Vec<Arg>>)]) {
            let n = fs.len();
            if n == 1 {
                let r = g.leaf("TWIG_LITERAL_NAME", &fs[0].0);
                g.mark("applyfilter", r, &fs[0].0, "", "", false);
                if let Some(a) = &fs[0].1 { g.args(a); }
                return;
            }
            g.open("TWIG_FILTER");
            g.open("TWIG_OPERAND");
            go(g, &fs[..n - 1]);
            g.close();
            g.opt();
            g.tok("|");
            g.opt();
            g.open("TWIG_OPERAND");
            let r = g.leaf("TWIG_LITERAL_NAME", &fs[n - 1].0);
            g.mark("filter", r, &fs[n - 1].0, "apply", &fs[..n - 1].iter().map(|f| f.0.clone()).collect::<Vec<_>>().join("|"), false);
            if let Some(a) = &fs[n - 1].1 { g.args(a); }
            g.close();
            g.close();
        }
        go(self, &fs);
    }
    fn cache_arg(&mut self, k: &'static str, kw: &str) {
        self.req();
        self.open(k);
        self.tok(kw);
        self.opt();
        self.tok("(");
        self.opt();
        let e = self.gen_expr(1);
        let st = self.out.len();
        self.expr(&e);
        let en = self.last_end;
        self.piece("tagexpr", (st, en));
        self.opt();
        let r = self.tok(")");
        self.piece("closer", r);
        self.close();
    }
}

#[derive(Clone, Copy)]
pub enum Body {
    Doc,
    Attrs(&'static str, usize),
    Value(char, usize),
    Raw,
}

pub const VARS: &[&str] = &["foo", "camelCase", "snake_case", "UPPER_CASE", "Pascal", "x1", "a", "withTax", "MY", "fooBar2", "_priv", "endless", "_", "__x", "_A", "trailing_", "X_", "A__B", "A1_B2", "mixedUP_case", "i"];
pub const TEXT0: &[&str] = &["Hello", "world,", "for", "if", "is", "not", "block", "a", "100", "42.5%", "It's", "\"quoted\"", "(x)", "&nbsp;", "foo-bar", "-", "*", "true", "in", "x=y", "[y]", "endif", "ludtwig-ignore", "set"];
pub const TEXT: &[&str] = &["Hello", "wörld", "→", "日本語", "for", "if", "is not", "and", "block", "100", "%", "it's", "\"q\"", "'", "&amp;", "&", "foo_bar", "a:b", ";", "!", "?", "/", "//", "|", "~", "@me", "#tag", "$x", "ludtwig-ignore-file", "==", ".", "...", "`x`", "\\", "€", "[a]", "(b)", "*", "=>", "with", "only"];
pub const VOID: &[&str] = &["br", "hr", "img", "input", "link", "meta", "source", "col", "area", "base", "embed", "param", "track", "wbr", "BR", "Img"];
pub const ELEMENTS: &[&str] = &["div", "span", "p", "a", "ul", "li", "section", "h1", "table", "button", "sw-button", "my-element", "svg", "pre", "form", "label", "DIV", "twig:Card", "template", "x1", "date", "block", "option", "select", "body", "head", "html", "main", "tags", "breadcrumb", "inputs"];
pub const ATTRS: &[&str] = &["class", "href", "data-id", "dataId", "aria-label", "style", "title", "src", "disabled", "for", "value", ":class", "@click", "#default", "v-if", "name", "type", "data_x", "viewBox", "_x", "$ref", "Data-X", "onclick", "is", "with", "set", "x", "data--y", "include", "role"];

fn filter_chain(e: &E) -> String {
    match e {
        E::Filter(l, f, a) => {
            let p = filter_chain(l);
            let arg = a.as_ref().map_or(String::new(), |a| a.first().map_or(String::new(), |x| match x {
                Arg::Pos(E::Str(_, p)) => match p.as_slice() { [Part::Text(t)] => format!("('{t}')"), _ => "(?)".into() },
                _ => "(?)".into(),
            }));
            if p.is_empty() { format!("{f}{arg}") } else { format!("{p}|{f}{arg}") }
        }
        _ => String::new(),
    }
}

pub fn first_text(e: &E) -> String {
    match e {
        E::Name(n) | E::Num(n) | E::Null(n) | E::Bool(n) => n.clone(),
        E::Str(q, _) => q.to_string(),
        E::Arr(_) => "[".into(),
        E::Hash(_) => "{".into(),
        E::Paren(_) => "(".into(),
        E::Acc(l, _) | E::Meth(l, _, _) | E::DotIdx(l, _) | E::Index(l, _) | E::Slice(l, _, _) | E::Filter(l, _, _) => first_text(l),
        E::Call(f, _) => f.clone(),
        E::Bin(_, l, _) | E::Test(l, ..) | E::Cond(l, _, _) => first_text(l),
        E::Un(op, _) => op.clone(),
    }
}

pub fn map_expr(e: &E, f: &dyn Fn(E) -> E) -> E {
    let b = |x: &Box<E>| Box::new(map_expr(x, f));
    let args = |v: &Vec<Arg>| -> Vec<Arg> {
        v.iter().map(|a| match a {
            Arg::Pos(e) => Arg::Pos(map_expr(e, f)),
            Arg::Named(n, e) => Arg::Named(n.clone(), map_expr(e, f)),
            Arg::Arrow(n, p, e) => Arg::Arrow(n.clone(), *p, map_expr(e, f)),
        }).collect()
    };
    let r = match e {
        E::Name(_) | E::Num(_) | E::Null(_) | E::Bool(_) => e.clone(),
        E::Str(q, p) => E::Str(*q, p.iter().map(|p| match p { Part::Text(t) => Part::Text(t.clone()), Part::Interp(e) => Part::Interp(map_expr(e, f)) }).collect()),
        E::Arr(v) => E::Arr(v.iter().map(|x| map_expr(x, f)).collect()),
        E::Hash(v) => E::Hash(v.iter().map(|(k, x)| (match k { Key::Expr(e) => Key::Expr(map_expr(e, f)), k => k.clone() }, x.as_ref().map(|x| map_expr(x, f)))).collect()),
        E::Paren(x) => E::Paren(b(x)),
        E::Acc(l, m) => E::Acc(b(l), m.clone()),
        E::Meth(l, m, a) => E::Meth(b(l), m.clone(), args(a)),
        E::DotIdx(l, n) => E::DotIdx(b(l), n.clone()),
        E::Index(l, i) => E::Index(b(l), b(i)),
        E::Slice(l, x, y) => E::Slice(b(l), x.as_ref().map(b), y.as_ref().map(b)),
        E::Filter(l, n, a) => E::Filter(b(l), n.clone(), a.as_ref().map(args)),
        E::Call(n, a) => E::Call(n.clone(), args(a)),
        E::Bin(op, l, r) => E::Bin(op.clone(), b(l), b(r)),
        E::Test(l, n, t, a, i) => E::Test(b(l), *n, t.clone(), a.as_ref().map(args), i.as_ref().map(b)),
        E::Un(op, r) => E::Un(op.clone(), b(r)),
        E::Cond(c, t, e2) => E::Cond(b(c), t.as_ref().map(b), e2.as_ref().map(b)),
    };
    f(r)
}
/// replace `<`-like operators (used inside attribute values)
pub fn no_angle(e: &E) -> E {
    map_expr(e, &|e| match e {
        E::Bin(op, l, r) if matches!(op.as_str(), "<" | ">" | "<=" | ">=" | "<=>") => E::Bin("==".into(), l, r),
        x => x,
    })
}
/// strings inside an attribute value use the other quote and are plain
pub fn requote(e: &E, attr_quote: char) -> E {
    let q = if attr_quote == '"' { '\'' } else { '"' };
    map_expr(e, &|e| match e {
        E::Str(_, p) => E::Str(q, p.into_iter().map(|p| match p {
            Part::Text(t) => Part::Text(if t.contains('"') || t.contains('\'') || t.contains('<') || t.contains('\\') { "plain".into() } else { t }),
            Part::Interp(_) => Part::Text("plain".into()),
        }).collect()),
        E::Hash(v) => E::Hash(v.into_iter().map(|(k, x)| (match k {
            Key::Str(_, s) => Key::Str(q, if s.contains('\'') || s.contains('"') { "key".into() } else { s }),
            k => k,
        }, x)).collect()),
        x => x,
    })
}
#[allow(dead_code)]
fn unused() { let _ = (is_primary as fn(&E) -> bool, cond_free_tail as fn(&E) -> bool); }

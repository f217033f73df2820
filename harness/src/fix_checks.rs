//! What `--fix` does to files.
use crate::cli::*;
use crate::gen_::{Cfg, Doc};
use crate::lint_checks::*;
use crate::sk::{self, Sk};
use crate::util::*;
use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxKind, SyntaxNode};
use serde_json::{json, Value};

pub struct Fixed {
    pub conf: Conf,
    pub docs: Vec<Doc>,
    pub run: Run,
    pub after: Vec<String>,
    pub per: Vec<Vec<Diag>>,
}
impl Fixed {
    pub fn case(&self, i: usize, x: Value) -> Value {
        json!({"config": self.conf.toml(), "text": self.docs[i].text, "fixed": self.after[i], "what": x})
    }
}
pub fn fix(name: &str, conf: Conf, docs: Vec<Doc>) -> Fixed {
    let texts: Vec<&str> = docs.iter().map(|d| d.text.as_str()).collect();
    let dir = batch_dir(name, &conf, &texts);
    let run = Cmd::new(&dir).args(&["--fix", "."]).run();
    let after = fix_files(&dir, docs.len());
    rm(&dir);
    let mut by = run.by_path();
    let per = (0..docs.len()).map(|i| by.remove(&fname(i)).unwrap_or_default()).collect();
    Fixed { conf, docs, run, after, per }
}
/// fix documents in batches; `f` judges each one
pub fn fixes(ctx: &mut Ctx, nb: usize, conf: impl Fn(&mut Rng) -> Conf + Sync, tweak: impl Fn(&mut Rng, &mut Cfg) + Sync, f: impl Fn(&Fixed, usize, &mut Obs) -> bool + Sync) {
    let prop = ctx.prop.clone();
    batches(ctx, nb, |r, b, o| {
        let c = conf(r);
        let ds = docs(r, 16, |r, c| { c.plain_extends = true; tweak(r, c) });
        let x = fix(&format!("{prop}-f{b}"), c, ds);
        let all = || json!({"config": x.conf.toml(), "texts": x.docs.iter().map(|d| &d.text).collect::<Vec<_>>(), "errors": x.run.errors});
        if let Some(e) = x.run.bad() {
            return o.bad(e, all());
        }
        if !x.run.errors.is_empty() {
            return o.bad(format!("fixing failed: {:?}", x.run.errors), all());
        }
        for i in 0..x.docs.len() {
            let changed = x.docs[i].text != x.after[i];
            o.add(if changed { "files_changed_by_fixing" } else { "files_left_alone_by_fixing" }, 1);
            let told = x.run.fixed.iter().any(|p| p.trim_start_matches("./") == fname(i));
            if changed != told {
                o.bad(format!("{} was {}, but the program says otherwise: {:?}", fname(i), if changed { "changed" } else { "not changed" }, x.run.fixed), x.case(i, json!(null)));
            }
            let ok = f(&x, i, o);
            o.evals.push((x.docs[i].text.clone(), ok));
            if b == 0 && i < 2 {
                o.samples.push(json!({"text": cut(&x.docs[i].text, 300), "fixed": cut(&x.after[i], 300), "rules": x.conf.rules}));
            }
        }
    });
}
pub fn any_conf(r: &mut Rng) -> Conf {
    let mut c = Conf::random(r);
    match r.below(4) {
        0 | 1 => {}
        2 => {
            let k = r.range(1, 6);
            c.rules = (0..k).map(|_| (*r.pick(crate::oracle::RULES)).to_string()).collect();
            c.rules.sort();
            c.rules.dedup();
        }
        _ => c.rules.retain(|_| r.pct(70)),
    }
    r.shuffle(&mut c.rules);
    c
}

/// text which is mostly a template, with something wrong
/// many documents in a row
pub fn joined(r: &mut Rng, n: usize) -> String {
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(&if r.pct(10) { damaged(r) } else { docs(r, 1, |r, c| { c.plain_extends = true; c.rules = true; c.dups = r.pct(40); c.fuel = 25; if r.pct(10) { c.directives = 12; c.nested_file_dirs = 5 } }).remove(0).text });
        t.push('\n');
    }
    t
}
pub fn damaged(r: &mut Rng) -> String {
    if r.pct(25) {
        return crate::corpus::hostile(r.next()).1;
    }
    let mut t = docs(r, 1, |_, c| { c.plain_extends = true; c.fuel = 25; c.rules = true }).remove(0).text;
    for _ in 0..r.range(1, 3) {
        let mut at = |r: &mut Rng| { let mut p = r.below(t.len() + 1); while !t.is_char_boundary(p) { p -= 1 } p };
        let (p, q) = (at(r), at(r));
        match r.below(4) {
            0 => { let e = (p.min(q) + r.below(12)).min(p.max(q)); let mut e = e; while !t.is_char_boundary(e) { e -= 1 } let s = p.min(q); if s < e { t.replace_range(s..e, "") } }
            1 => t.insert_str(p, *r.pick(&["{%", "%}", "{{", "}}", "<", ">", "\"", "'", "</div>", "{% endif %}", "{#", "#}", "(", ")", "===", "=", "|"])),
            2 => t.truncate(p.max(q)),
            _ => { let c = t[p.min(q)..p.max(q)].to_string(); if c.len() < 60 { t.insert_str(p.min(q), &c) } }
        }
    }
    t
}

// ------------------------------------------------------------------ C24
pub fn c24(ctx: &mut Ctx) {
    ctx.rule = "a document is fixed under random settings and rule sets; the findings of that run are compared with those of a fresh run over the written text, and a second fixing run must leave every byte alone; documents changed by fixing count".into();
    let prop = ctx.prop.clone();
    let nb = ctx.n(500, 10000);
    batches(ctx, nb, |r, b, o| {
        let conf = any_conf(r);
        let dirs = r.pct(30);
        let ds = docs(r, 16, |r, c| { c.plain_extends = true; c.rules = r.pct(80); if dirs { c.directives = 12; c.file_dirs = 10; } });
        let texts: Vec<&str> = ds.iter().map(|d| d.text.as_str()).collect();
        let dir = batch_dir(&format!("{prop}-{b}"), &conf, &texts);
        let one = Cmd::new(&dir).args(&["--fix", "."]).run();
        let after = fix_files(&dir, ds.len());
        let fresh = Cmd::new(&dir).arg(".").run();
        let two = Cmd::new(&dir).args(&["--fix", "."]).run();
        let again = fix_files(&dir, ds.len());
        rm(&dir);
        let all = || json!({"config": conf.toml(), "texts": texts, "errors": one.errors});
        for run in [&one, &fresh, &two] {
            if let Some(e) = run.bad() {
                return o.bad(e, all());
            }
            if !run.errors.is_empty() {
                return o.bad(format!("fixing failed: {:?}", run.errors), all());
            }
        }
        let (a, f, t) = (one.by_path(), fresh.by_path(), two.by_path());
        for i in 0..ds.len() {
            let n = fname(i);
            let case = |x: Value| json!({"config": conf.toml(), "text": ds[i].text, "fixed": after[i], "what": x});
            if a.get(&n) != f.get(&n) {
                o.bad("findings after fixing differ from those of a fresh run", case(json!({"fix": format!("{:?}", a.get(&n)), "fresh": format!("{:?}", f.get(&n))})));
            }
            if after[i] != again[i] {
                o.bad("fixing again changed the file", case(json!(again[i])));
            }
            if t.get(&n) != f.get(&n) {
                o.bad("findings after fixing again differ", case(json!({"fix": format!("{:?}", t.get(&n)), "fresh": format!("{:?}", f.get(&n))})));
            }
            o.add("findings_left_after_fixing", f.get(&n).map_or(0, Vec::len));
            o.evals.push((texts[i].to_string(), texts[i] != after[i]));
        }
        if one.summary != fresh.summary || one.code != fresh.code || two.summary != one.summary || two.code != one.code {
            o.bad(format!("summary and exit status after fixing {:?} {:?}, of a fresh run {:?} {:?}, when fixing again {:?} {:?}", one.summary, one.code, fresh.summary, fresh.code, two.summary, two.code), all());
        }
        if !two.fixed.is_empty() {
            o.bad(format!("fixing again reports fixed files: {:?}", two.fixed), all());
        }
        o.add("files_fixed", one.fixed.len());
        if b == 0 {
            o.samples.push(json!({"text": cut(texts[0], 300), "fixed": cut(&after[0], 300), "rules": conf.rules}));
        }
    });
    // the same for files with syntax errors
    let nb = ctx.n(300, 6000);
    let sd = ctx.seed;
    batches(ctx, nb, |r, b, o| {
        let conf = any_conf(r);
        let texts: Vec<String> = (0..24).map(|_| damaged(r)).collect();
        let dir = batch_dir(&format!("{prop}-m{b}"), &conf, &texts.iter().map(String::as_str).collect::<Vec<_>>());
        let one = Cmd::new(&dir).args(&["--fix", "."]).run();
        let after = fix_files(&dir, texts.len());
        let fresh = Cmd::new(&dir).arg(".").run();
        let two = Cmd::new(&dir).args(&["--fix", "."]).run();
        let again = fix_files(&dir, texts.len());
        rm(&dir);
        let all = || json!({"config": conf.toml(), "texts": texts, "errors": one.errors, "seed": sd});
        for run in [&one, &fresh, &two] {
            if let Some(e) = run.bad() {
                return o.bad(e, all());
            }
        }
        if !one.errors.is_empty() {
            o.bad(format!("fixing failed: {:?}", one.errors), all());
        }
        let (a, f) = (one.by_path(), fresh.by_path());
        for i in 0..texts.len() {
            let n = fname(i);
            let case = |x: Value| json!({"config": conf.toml(), "text": texts[i], "fixed": after[i], "what": x});
            if a.get(&n) != f.get(&n) {
                o.bad("findings after fixing differ from those of a fresh run", case(json!({"fix": format!("{:?}", a.get(&n)), "fresh": format!("{:?}", f.get(&n))})));
            }
            if after[i] != again[i] {
                o.bad("fixing again changed the file", case(json!(again[i])));
            }
            o.add("malformed_files_fixed", usize::from(texts[i] != after[i]));
            o.evals.push((texts[i].clone(), texts[i] != after[i]));
        }
    });
    // a known defect: a chain of identity comparisons deeper than the fixing loop
    let mut e = "a0".to_string();
    for i in 1..13 {
        e = format!("a{i} === ({e})");
    }
    let conf = Conf::defaults().with_rules(&["twig-use-is-same-as"]);
    let text = format!("{{{{ {e} }}}}\n");
    let dir = batch_dir("C24-known", &conf, &[&text]);
    let run = Cmd::new(&dir).args(&["--fix", "."]).run();
    rm(&dir);
    if run.errors.iter().any(|e| e.contains("max suggestion apply iteration")) {
        if !ctx.known("deep-identity-nesting") {
            ctx.violation("a chain of === could not be fixed", json!({"text": text, "errors": run.errors}));
        }
    } else if let Some(e) = run.bad() {
        ctx.violation(&e, json!({"text": text}));
    }
    ctx.eval(&text);
}

// ------------------------------------------------------------------ C25
fn is_trivia(k: SyntaxKind) -> bool {
    matches!(k, SyntaxKind::TK_WHITESPACE | SyntaxKind::TK_LINE_BREAK)
}
fn letters(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, '-' | '_')).flat_map(char::to_lowercase).collect()
}
pub struct Allow {
    pub tq: bool,
    pub hq: bool,
    pub key: bool,
    pub same: bool,
    pub not_same: bool,
    pub and: bool,
    pub or: bool,
    pub block: bool,
    pub attr: bool,
    pub ext: bool,
    pub esc: bool,
    pub line_ending: bool,
    pub block_breaks: bool,
}
impl Allow {
    pub fn of(c: &Conf) -> Self {
        Allow {
            tq: c.has("twig-string-quotation"), hq: c.has("html-string-quotation"), key: c.has("twig-hash-key-no-quotes"), same: c.has("twig-use-is-same-as"),
            not_same: c.has("twig-use-is-not-same-as"), and: c.has("twig-logic-and"), or: c.has("twig-logic-or"), block: c.has("twig-block-name-snake-case"),
            attr: c.has("html-attribute-name-kebab-case"), ext: c.has("twig-prefer-shopware-extends"), esc: c.has("twig-json-encode-escape-js"), line_ending: c.has("line-ending"), block_breaks: c.has("twig-block-line-breaks"),
        }
    }
}
/// the tree with everything erased which active rules may change
pub fn canon(n: &SyntaxNode, a: &Allow) -> Sk {
    let kind = sk::kind_name(n.kind());
    let mut out: Vec<Sk> = vec![];
    let mut prev = String::new();
    if kind == "TWIG_LITERAL_STRING_INNER" && !n.children().any(|_| true) {
        let t = n.text().to_string();
        return Sk::N(kind, vec![Sk::T(if a.line_ending { t.replace("\r\n", "\n") } else { t })]);
    }
    for c in n.children_with_tokens() {
        match c {
            SyntaxElement::Node(m) => {
                let c = canon(&m, a);
                // parentheses and their wrappers carry no meaning beyond the structure
                if (a.same || a.not_same) && matches!(c.kind(), "TWIG_EXPRESSION" | "TWIG_PARENTHESES_EXPRESSION") {
                    out.extend(c.kids().iter().cloned());
                } else {
                    out.push(c);
                }
                prev = String::new();
            }
            SyntaxElement::Token(t) => {
                let k = t.kind();
                if is_trivia(k) {
                    continue;
                }
                let mut x = t.text().to_string();
                match kind.as_str() {
                    "TWIG_STARTING_BLOCK" | "TWIG_ENDING_BLOCK" if a.block && matches!(prev.as_str(), "block" | "endblock") && x != "%}" && x != "-%}" && x != "~%}" => x = letters(&x),
                    "HTML_ATTRIBUTE" if a.attr && out.is_empty() => x = letters(&x),
                    "TWIG_LITERAL_STRING" if a.tq && matches!(x.as_str(), "'" | "\"") => x = "QUOTE".into(),
                    "HTML_STRING" if a.hq && matches!(x.as_str(), "'" | "\"") => x = String::new(),
                    "TWIG_BINARY_EXPRESSION" if a.and && x == "&&" => x = "and".into(),
                    "TWIG_BINARY_EXPRESSION" if a.or && x == "||" => x = "or".into(),
                    "TWIG_EXTENDS" | "SHOPWARE_TWIG_SW_EXTENDS" if a.ext && matches!(x.as_str(), "extends" | "sw_extends") => x = "EXTENDS".into(),
                    "TWIG_PARENTHESES_EXPRESSION" if (a.same || a.not_same) && matches!(x.as_str(), "(" | ")") => x = String::new(),
                    _ => {}
                }
                prev = t.text().to_string();
                if !x.is_empty() {
                    out.push(Sk::T(x));
                }
            }
        }
    }
    // blanks between the quotes and the value belong to the value (line breaks around blocks may be added)
    if kind == "HTML_STRING" {
        let t = n.text().to_string();
        let t = t.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r');
        let v = t.strip_prefix(['"', '\'']).and_then(|v| v.strip_suffix(['"', '\'']));
        if let Some(v) = v {
            let at_block = |s: &str, b: &str| a.block_breaks && s.contains(b);
            let core = v.trim();
            if !core.is_empty() {
                if v.starts_with([' ', '\t', '\n', '\r']) && !(at_block(core, "block")) { out.push(Sk::T("BLANKS BEFORE".into())) }
                if v.ends_with([' ', '\t', '\n', '\r']) && !(at_block(core, "endblock")) { out.push(Sk::T("BLANKS AFTER".into())) }
            }
        }
    }
    match kind.as_str() {
        "TWIG_LITERAL_HASH_KEY" if a.key && out.len() == 1 && out[0].kind() == "TWIG_LITERAL_STRING" => {
            if let [Sk::T(_), Sk::N(_, inner), Sk::T(_)] = out[0].kids() {
                if let [Sk::T(t)] = &inner[..] {
                    if crate::oracle::plain_name(t) {
                        return Sk::N(kind, vec![Sk::T(t.clone())]);
                    }
                }
            }
        }
        "TWIG_EXTENDS" | "SHOPWARE_TWIG_SW_EXTENDS" if a.ext => {
            let flat = out.into_iter().flat_map(|x| if x.kind() == "TWIG_EXPRESSION" { x.kids().to_vec() } else { vec![x] }).collect();
            return Sk::N("EXTENDS".into(), flat);
        }
        "TWIG_BINARY_EXPRESSION" if out.len() == 3 => {
            if let Sk::T(op) = &out[1] {
                let neg = op == "!==" || op == "is not";
                let on = if neg { a.not_same } else { a.same };
                if on && (op == "===" || op == "!==") {
                    return Sk::N(if neg { "NOT_SAME" } else { "SAME" }.into(), vec![out[0].clone(), out[2].clone()]);
                }
                if on && (op == "is" || op == "is not") {
                    if let Some(arg) = same_as(&out[2]) {
                        return Sk::N(if neg { "NOT_SAME" } else { "SAME" }.into(), vec![out[0].clone(), arg]);
                    }
                }
            }
        }
        // f|raw and f|escape('js')
        "TWIG_FILTER" if a.esc => {
            let n = out.iter().position(|x| matches!(x, Sk::T(t) if t == "|")).map_or(out.len(), |p| p + 1);
            if let Some(Sk::N(_, name)) = out.get(n) {
                let s = name.iter().map(text_of).collect::<String>();
                if s == "escape('js')" || s == "escapeQUOTEjsQUOTE" || s == "escape(QUOTEjsQUOTE)" || s == "raw" || s.starts_with("raw(") {
                    out.truncate(n);
                    out.push(Sk::T("RAW-OR-ESCAPE-JS".into()));
                }
            }
        }
        _ => {}
    }
    Sk::N(kind, out)
}
fn text_of(s: &Sk) -> String {
    match s {
        Sk::T(t) => t.clone(),
        Sk::N(_, c) => c.iter().map(text_of).collect(),
    }
}
/// the argument of a `same as` test
fn same_as(s: &Sk) -> Option<Sk> {
    let Sk::N(k, c) = s else { return None };
    if k != "TWIG_FUNCTION_CALL" || c.len() != 2 || text_of(&c[0]) != "same as" {
        return None;
    }
    let v: Vec<Sk> = c[1].kids().iter().filter(|x| !matches!(x, Sk::T(t) if t == "(" || t == ")")).cloned().collect();
    if v.len() == 1 { Some(v[0].clone()) } else { None }
}
pub fn parsed(t: &str) -> (SyntaxNode, usize, String) {
    let p = ludtwig_parser::parse(t);
    let n = p.errors.len();
    let m = p.errors.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>().join("; ");
    (SyntaxNode::new_root(p.green_node), n, m)
}
pub fn preserved(x: &Fixed, i: usize, o: &mut Obs) {
    let (a, ea, _) = parsed(&x.docs[i].text);
    let (b, eb, m) = parsed(&x.after[i]);
    if eb > ea {
        o.bad(format!("fixing made {} syntax errors: {m}", eb - ea), x.case(i, json!(null)));
        return;
    }
    let al = Allow::of(&x.conf);
    let (ca, cb) = (canon(&a, &al), canon(&b, &al));
    if let Some(d) = sk::diff(&ca, &cb) {
        o.bad(format!("fixing changed more than the rules allow: {}", cut(&d, 1500)), x.case(i, json!(null)));
    }
    let mut k = std::collections::BTreeMap::new();
    ca.kinds(&mut k);
    o.add("nodes_compared", k.values().sum::<u64>() as usize);
}
pub fn c25(ctx: &mut Ctx) {
    ctx.rule = "a document without syntax errors is fixed under random settings and rule sets; original and fixed text are parsed and compared token for token after erasing only what the active rules may change; documents changed by fixing count".into();
    let nb = ctx.n(600, 12000);
    fixes(ctx, nb, any_conf, |r, c| { c.rules = r.pct(85); if r.pct(20) { c.directives = 10 } }, |x, i, o| {
        preserved(x, i, o);
        x.docs[i].text != x.after[i]
    });
    // a known defect: a target which is no plain string
    let conf = Conf::defaults().with_rules(&["twig-prefer-shopware-extends"]);
    let text = "{% extends foo %}\n".to_string();
    let dir = batch_dir("C25-known", &conf, &[&text]);
    let run = Cmd::new(&dir).args(&["--fix", "."]).run();
    let after = fix_files(&dir, 1);
    rm(&dir);
    if run.bad().is_some() || parsed(&after[0]).1 > 0 {
        let expected_form = run.bad().is_none() && after[0] == "{% sw_extends foo %}\n";
        if !(expected_form && ctx.known("extends-dynamic-target")) {
            ctx.violation("fixing an extends tag made a syntax error", json!({"text": text, "fixed": after[0]}));
        }
    }
    ctx.eval(&text);
}

// ------------------------------------------------------------------ C26, C28: layout
fn layout_conf(r: &mut Rng) -> Conf {
    some_of(r, LAYOUT)
}
fn some_of(r: &mut Rng, rules: &[&str]) -> Conf {
    let mut c = Conf::random(r);
    c.rules = strs(rules);
    if r.pct(45) {
        c.rules.retain(|_| r.pct(55));
        if c.rules.is_empty() {
            c.rules = vec![(*r.pick(rules)).to_string()];
        }
    }
    r.shuffle(&mut c.rules);
    c
}
/// positions of everything that is no blank or line break
fn codes(t: &str) -> Vec<usize> {
    t.char_indices().filter(|(_, c)| !matches!(c, ' ' | '\t' | '\n' | '\r')).map(|(i, _)| i).collect()
}
fn first_difference(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let at = |s: &str| { let mut p = n.min(s.len()); while !s.is_char_boundary(p) { p -= 1 } let mut q = p.saturating_sub(30); while !s.is_char_boundary(q) { q -= 1 } format!("{:?}", cut(&s[q..], 70)) };
    format!("expected {} but got {}", at(a), at(b))
}
pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "a document with whitespace-sensitive elements or Twig strings containing blanks or line breaks is fixed with the layout rules; each sensitive content is located in the fixed text by counting visible characters and compared character for character; documents changed by fixing which contain such content count".into();
    let nb = ctx.n(900, 18000);
    fixes(ctx, nb, layout_conf, |r, c| { c.sensitive = r.pct(70); c.ml_strings = r.pct(70); c.nl = *r.pick(&[Some("\n"), Some("\r\n"), None]); }, |x, i, o| {
        let d = &x.docs[i];
        let (t, a) = (&d.text, &x.after[i]);
        let (ca, cb) = (codes(t), codes(a));
        let same = ca.len() == cb.len() && t.chars().filter(|c| !c.is_ascii_whitespace()).eq(a.chars().filter(|c| !c.is_ascii_whitespace()));
        if !same {
            o.bad("layout rules changed more than blanks and line breaks", x.case(i, json!(null)));
            return true;
        }
        let f = crate::oracle::facts(d);
        let le = x.conf.has("line-ending");
        let norm = |s: &str| if le { s.replace("\r\n", "\n") } else { s.to_string() };
        let mut seen = 0;
        let mut check = |s: usize, e: usize, what: &str, o: &mut Obs| {
            if s >= e { return }
            // the visible characters directly before and after
            let (Ok(p), Ok(q)) = (ca.binary_search(&(s - 1)), ca.binary_search(&e)) else { return };
            let (b0, b1) = (cb[p] + 1, cb[q]);
            let had = &t[s..e];
            if had.contains([' ', '\t', '\n']) { seen += 1 }
            if norm(had) != norm(&a[b0..b1]) {
                o.bad(format!("the content of a {what} was changed: {}", first_difference(had, &a[b0..b1])), x.case(i, json!({"content": had})));
            }
        };
        for s in d.spans.iter().filter(|s| s.kind == "HTML_STARTING_TAG" && crate::oracle::sensitive_name(&crate::oracle::el_name(d, s))) {
            let tag = &d.spans[s.parent];
            let end = d.spans.iter().find(|e| e.kind == "HTML_ENDING_TAG" && d.spans[e.parent] == *tag).map(|e| e.start);
            if let Some(e) = end {
                check(s.end, e, "whitespace-sensitive element", o);
            }
        }
        for &(s, e) in &f.strs {
            check(s, e, "Twig string", o);
        }
        o.add("sensitive_contents_compared", seen);
        seen > 0 && t != a
    });
}
pub fn c28(ctx: &mut Ctx) {
    ctx.rule = "a document is linted under random settings and every finding of the layout rules compared by position with the generator's ground truth; another is fixed and the written text compared with the layout computed from its nesting, byte for byte; documents with findings or changes count".into();
    c28_reports(ctx);
    let nb = ctx.n(900, 18000);
    fixes(ctx, nb, layout_conf, |r, c| { c.sensitive = r.pct(25); c.nl = *r.pick(&[Some("\n"), Some("\r\n"), None]); }, |x, i, o| {
        let d = &x.docs[i];
        let want = crate::oracle::facts(d).laid_out(&x.conf);
        o.add("layouts_compared", 1);
        if want != x.after[i] {
            o.bad(format!("the fixed layout is not the configured one: {}", first_difference(&want, &x.after[i])), x.case(i, json!(want)));
        }
        d.text != want
    });
}
pub fn c29(ctx: &mut Ctx) {
    ctx.rule = "a document is linted under random settings and every finding of the quotation rules compared by position with the generator's ground truth; another is fixed and compared byte for byte with the text in which exactly the quotes that can be changed were changed; documents with findings or changes count".into();
    c29_reports(ctx);
    let nb = ctx.n(900, 18000);
    fixes(ctx, nb, |r| some_of(r, QUOTES), |_, _| {}, |x, i, o| {
        let d = &x.docs[i];
        let (want, n) = crate::oracle::facts(d).requoted(&x.conf);
        o.add("quotes_changed", n);
        if want != x.after[i] {
            o.bad(format!("fixed quotes: {}", first_difference(&want, &x.after[i])), x.case(i, json!(want)));
        }
        d.text != want
    });
}
pub fn c33(ctx: &mut Ctx) {
    ctx.rule = "a document is linted under random settings and every finding of the three rules compared by position with the generator's ground truth; another is fixed and compared byte for byte with the text in which exactly the tags and filters were replaced; documents with findings or changes count".into();
    c33_reports(ctx);
    let nb = ctx.n(900, 18000);
    fixes(ctx, nb, |r| some_of(r, SHOP), |r, c| { c.rules = true; c.shop = r.pct(75) }, |x, i, o| {
        let d = &x.docs[i];
        let (want, n) = crate::oracle::facts(d).shopware(&x.conf);
        o.add("replacements_compared", n);
        if want != x.after[i] {
            o.bad(format!("fixed text: {}", first_difference(&want, &x.after[i])), x.case(i, json!(want)));
        }
        d.text != want
    });
}
pub fn c30(ctx: &mut Ctx) {
    ctx.rule = "a document is linted under random settings and every finding of the operator rules compared by position with the generator's ground truth; another is fixed, and in the tree of the fixed text every such operator must have become the equivalent test or keyword over the same operands, with everything else unchanged; documents with findings or changes count".into();
    c30_reports(ctx);
    let nb = ctx.n(900, 18000);
    fixes(ctx, nb, |r| some_of(r, OPS), |_, c| { c.rules = true }, |x, i, o| {
        let d = &x.docs[i];
        preserved(x, i, o);
        let (n, _, _) = parsed(&x.after[i]);
        let mut had = 0;
        for (op, rule) in [("===", "twig-use-is-same-as"), ("!==", "twig-use-is-not-same-as"), ("&&", "twig-logic-and"), ("||", "twig-logic-or")] {
            let before = d.marks.iter().filter(|m| m.kind == "binop" && m.name == op).count();
            let after = n.descendants_with_tokens().filter_map(|e| e.into_token()).filter(|t| t.text() == op && t.parent().is_some_and(|p| p.kind() == SyntaxKind::TWIG_BINARY_EXPRESSION)).count();
            let want = if x.conf.has(rule) { 0 } else { before };
            if after != want {
                o.bad(format!("{before} uses of {op}, {after} after fixing, {want} expected"), x.case(i, json!(null)));
            }
            if x.conf.has(rule) { had += before }
        }
        if !x.conf.has("twig-use-is-same-as") && !x.conf.has("twig-use-is-not-same-as") {
            // only words were exchanged
            let mut w = d.text.clone();
            let mut m: Vec<_> = d.marks.iter().filter(|m| m.kind == "binop" && ((m.name == "&&" && x.conf.has("twig-logic-and")) || (m.name == "||" && x.conf.has("twig-logic-or")))).collect();
            m.sort_by_key(|m| std::cmp::Reverse(m.start));
            for m in m {
                w.replace_range(m.start..m.start + 2, if m.name == "&&" { "and" } else { "or" });
            }
            let strip = |s: &str| s.chars().filter(|c| !c.is_ascii_whitespace()).collect::<String>();
            if strip(&w) != strip(&x.after[i]) {
                o.bad(format!("more than the operators was changed: {}", first_difference(&w, &x.after[i])), x.case(i, json!(w)));
            }
        }
        o.add("operators_replaced", had);
        had > 0
    });
}

// ------------------------------------------------------------------ C34
pub fn c34(ctx: &mut Ctx) {
    ctx.rule = "files (well-formed and malformed) are linted with a random set of rules in random order and with each of these rules alone; the printed findings of every rule must be the same in both, text for text; runs with findings of at least two rules count".into();
    let prop = ctx.prop.clone();
    let nb = ctx.n(220, 4000);
    batches(ctx, nb, |r, b, o| {
        let mut conf = Conf::random(r);
        let k = *r.pick(&[2usize, 3, 6, 12, 99, 99]);
        r.shuffle(&mut conf.rules);
        let absent = conf.rules.split_off(k.min(conf.rules.len()));
        let mut texts: Vec<String> = docs(r, 10, |r, c| { c.plain_extends = r.pct(50); c.rules = r.pct(80); c.dups = r.pct(40); if r.pct(30) { c.directives = 12; c.file_dirs = 10; c.nested_file_dirs = 5 } }).into_iter().map(|d| d.text).collect();
        for _ in 0..4 { texts.push(damaged(r)) }
        if r.pct(25) { let n = *r.pick(&[20usize, 60, 200, 500]); texts.push(joined(r, n)) }
        let dir = batch_dir(&format!("{prop}-{b}"), &conf, &texts.iter().map(String::as_str).collect::<Vec<_>>());
        let all = Cmd::new(&dir).arg(".").run();
        let detail = |x: Value| json!({"config": conf.toml(), "texts": texts, "what": x});
        if let Some(e) = all.bad() {
            rm(&dir);
            return o.bad(e, detail(json!(null)));
        }
        let mut seen = 0;
        let sorted = |run: &Run, code: &str| { let mut v: Vec<Diag> = run.diags.iter().filter(|d| d.code == code).cloned().collect(); v.sort(); v };
        let syntax = sorted(&all, "SyntaxError");
        if let Some(d) = all.diags.iter().find(|d| d.code != "SyntaxError" && !conf.has(&d.code)) {
            o.bad(format!("{} is not active, but reports something", d.code), detail(json!(format!("{d:?}"))));
        }
        for rule in &conf.rules {
            let mut one = conf.clone();
            one.rules = vec![rule.clone()];
            std::fs::write(dir.join("ludtwig-config.toml"), one.toml()).unwrap();
            let run = Cmd::new(&dir).arg(".").run();
            if let Some(e) = run.bad() {
                o.bad(e, detail(json!({"alone": rule})));
                continue;
            }
            let (a, s) = (sorted(&run, rule), sorted(&all, rule));
            if a != s {
                let d = a.iter().find(|x| !s.contains(x)).or_else(|| s.iter().find(|x| !a.contains(x))).or(a.first()).cloned();
                o.bad(format!("{rule} reports {} findings alone and {} together with {} other rules", a.len(), s.len(), conf.rules.len() - 1), detail(json!({"alone": rule, "difference": format!("{d:?}")})));
            }
            if run.diags.len() != a.len() + syntax.len() || sorted(&run, "SyntaxError") != syntax {
                o.bad(format!("more than {rule} and the syntax errors is reported"), detail(json!({"alone": rule})));
            }
            if !a.is_empty() { seen += 1 }
            o.add("findings_compared", a.len());
            o.add("single_rule_runs", 1);
        }
        // the other rules report nothing when none is active
        let mut none = conf.clone();
        none.rules = vec![];
        std::fs::write(dir.join("ludtwig-config.toml"), none.toml()).unwrap();
        let run = Cmd::new(&dir).arg(".").run();
        rm(&dir);
        if run.bad().is_some() || sorted(&run, "SyntaxError") != syntax || run.diags.len() != syntax.len() {
            o.bad("a run without rules reports more or less than the syntax errors", detail(json!({"exit": run.code})));
        }
        o.evals.push((format!("{b}{:?}{}", conf.rules, hash(&texts.concat())), seen >= 2));
        if b < 2 { o.samples.push(json!({"rules": conf.rules, "absent": absent, "rules_with_findings": seen})) }
    });
}

// ------------------------------------------------------------------ C35
pub fn c35(ctx: &mut Ctx) {
    ctx.rule = "documents with file-level and node-level directives are linted and all findings compared by position with the generator's ground truth; they are fixed and the text a directive protects from all active rules compared character for character; malformed files with directives must report every syntax error; documents with at least one suppressed finding or protected text count".into();
    let prop = ctx.prop.clone();
    let nb = ctx.n(1000, 20000);
    let every: Vec<&'static str> = crate::oracle::RULES.iter().copied().chain(["SyntaxError"]).collect();
    batches(ctx, nb, |r, b, o| {
        let conf = if r.pct(70) { Conf::random(r) } else { any_conf(r) };
        let ds = docs(r, 14, |r, c| {
            c.directives = *r.pick(&[0usize, 8, 15, 40]);
            c.file_dirs = *r.pick(&[0usize, 4, 15]);
            c.nested_file_dirs = *r.pick(&[0usize, 0, 4]);
            c.rules = r.pct(80);
            c.dups = r.pct(40);
        });
        let l = lint(&format!("{prop}-{b}"), conf, ds);
        if let Some(e) = l.run.bad() {
            return o.bad(e, json!({"config": l.conf.toml(), "texts": l.docs.iter().map(|d| &d.text).collect::<Vec<_>>()}));
        }
        for (i, d) in l.docs.iter().enumerate() {
            let exp = crate::oracle::expected(d, &l.conf);
            let mut bare = d.clone();
            bare.frames.clear();
            bare.file_ignores.clear();
            let free = crate::oracle::expected(&bare, &l.conf).len();
            o.add("findings_suppressed", free.saturating_sub(exp.len()));
            o.add("findings_compared", exp.len());
            o.evals.push((d.text.clone(), free > exp.len()));
            if let Some(m) = compare(d, &exp, &l.per[i], &every) {
                o.bad(m, case(&l.conf, &d.text, json!(l.per[i].iter().map(|d| format!("{} {}:{}", d.code, d.line, d.col)).collect::<Vec<_>>())));
            }
            if b == 0 && i < 2 {
                o.samples.push(json!({"text": cut(&d.text, 400), "findings": exp.len(), "without_directives": free}));
            }
        }
    });
    // what is protected stays as it is, and the rest is fixed
    let nb = ctx.n(600, 12000);
    let conf = |r: &mut Rng| {
        let mut c = match r.below(4) { 0 => some_of(r, QUOTES), 1 => some_of(r, SHOP), _ => any_conf(r) };
        if r.pct(40) { c.rules = vec![(*r.pick(crate::oracle::RULES)).to_string()] }
        c
    };
    fixes(ctx, nb, conf, |r, c| { c.directives = *r.pick(&[8usize, 15, 40]); c.file_dirs = *r.pick(&[0usize, 4, 15]); c.rules = true; c.shop = r.pct(40); c.sensitive = r.pct(15) }, |x, i, o| {
        let d = &x.docs[i];
        let covers = |rules: &[String]| rules.is_empty() || x.conf.rules.iter().all(|a| rules.contains(a));
        if d.file_ignores.iter().any(|f| covers(&f.1)) {
            o.add("protected_files", 1);
            if d.text != x.after[i] {
                o.bad("a file was fixed although all rules are suppressed for it", x.case(i, json!(null)));
            }
            return true;
        }
        let (tree, errs, _) = parsed(&x.after[i]);
        if errs > 0 {
            o.bad("fixing made a syntax error", x.case(i, json!(null)));
            return true;
        }
        let dirs: Vec<SyntaxNode> = tree.descendants().filter(|n| n.kind() == SyntaxKind::LUDTWIG_DIRECTIVE_IGNORE).collect();
        if dirs.len() != d.frames.len() {
            o.bad(format!("{} directives became {}", d.frames.len(), dirs.len()), x.case(i, json!(null)));
            return true;
        }
        let mut seen = 0;
        for (n, f) in dirs.iter().zip(&d.frames) {
            if !covers(&f.rules) { continue }
            let had = d.text[f.start..f.end].trim();
            let now = n.next_sibling().map(|s| s.text().to_string()).unwrap_or_default();
            seen += 1;
            if now.trim() != had {
                o.bad(format!("text protected by a directive was changed: {}", first_difference(had, now.trim())), x.case(i, json!({"protected": had})));
            }
        }
        o.add("protected_texts", seen);
        // exactly the unprotected rest was rewritten
        if x.conf.rules.iter().all(|r| QUOTES.contains(&r.as_str())) {
            let (want, n) = crate::oracle::facts(d).requoted(&x.conf);
            o.add("rewrites_next_to_protected_texts", n);
            if want != x.after[i] { o.bad(format!("fixed quotes: {}", first_difference(&want, &x.after[i])), x.case(i, json!(want))) }
        } else if x.conf.rules.iter().all(|r| SHOP.contains(&r.as_str())) {
            let (want, n) = crate::oracle::facts(d).shopware(&x.conf);
            o.add("rewrites_next_to_protected_texts", n);
            if want != x.after[i] { o.bad(format!("fixed text: {}", first_difference(&want, &x.after[i])), x.case(i, json!(want))) }
        }
        seen > 0
    });
    // syntax errors are never suppressed
    let nb = ctx.n(150, 3000);
    batches(ctx, nb, |r, b, o| {
        let conf = any_conf(r);
        let texts: Vec<String> = (0..24).map(|_| {
            let mut t = if r.pct(2) { let n = *r.pick(&[20usize, 60, 200]); joined(r, n) } else { damaged(r) };
            for _ in 0..r.range(1, 3) {
                let d = match r.below(6) { 0 => "{# ludtwig-ignore #}\n".to_string(), 1 => "<!-- ludtwig-ignore-file -->\n".into(), 2 => format!("{{# ludtwig-ignore {} #}}\n", r.pick(crate::oracle::RULES)), _ => "{# ludtwig-ignore-file #}\n".into() };
                let mut p = if r.pct(70) { 0 } else { r.below(t.len() + 1) };
                while !t.is_char_boundary(p) { p -= 1 }
                t.insert_str(p, &d);
            }
            t
        }).collect();
        let dir = batch_dir(&format!("{prop}-m{b}"), &conf, &texts.iter().map(String::as_str).collect::<Vec<_>>());
        let run = Cmd::new(&dir).arg(".").run();
        rm(&dir);
        if let Some(e) = run.bad() {
            return o.bad(e, json!({"config": conf.toml(), "texts": texts}));
        }
        let by = run.by_path();
        for (i, t) in texts.iter().enumerate() {
            let p = ludtwig_parser::parse(t);
            let mut exp: Vec<(usize, usize)> = p.errors.iter().map(|e| crate::gen_::line_col(t, crate::corpus::boundary(t, e.range.start().into()))).collect();
            let here = by.get(&fname(i)).cloned().unwrap_or_default();
            let mut act: Vec<(usize, usize)> = here.iter().filter(|d| d.code == "SyntaxError").map(|d| (d.line, d.col)).collect();
            exp.sort();
            act.sort();
            o.add("syntax_errors_compared", exp.len());
            if exp != act {
                o.bad(format!("the parser finds errors at {exp:?}, reported are {act:?}"), case(&conf, t, json!(null)));
            }
            let root = SyntaxNode::new_root(p.green_node);
            let blanket = root.children().any(|c| c.kind() == SyntaxKind::LUDTWIG_DIRECTIVE_FILE_IGNORE && {
                let x = c.text().to_string();
                let x = x.trim().trim_start_matches("{#").trim_start_matches("<!--").trim_end_matches("#}").trim_end_matches("-->").trim().to_string();
                x == "ludtwig-ignore-file"
            });
            if blanket {
                o.add("protected_malformed_files", 1);
                if let Some(d) = here.iter().find(|d| d.code != "SyntaxError") {
                    o.bad(format!("{} is reported although suppressed for the whole file", d.code), case(&conf, t, json!(null)));
                }
            }
            o.evals.push((t.clone(), !exp.is_empty()));
        }
    });
}

//! Expected diagnostics computed from the generator's ground truth.
pub const RULES: &[&str] = &[
    "ludtwig-ignore-file-not-on-top", "whitespace-between-line-breaks", "line-ending", "indentation",
    "twig-block-line-breaks", "twig-block-name-snake-case", "html-attribute-name-kebab-case", "twig-logic-and",
    "twig-logic-or", "twig-string-quotation", "html-string-quotation", "twig-hash-key-no-quotes",
    "twig-use-is-same-as", "twig-use-is-not-same-as", "twig-prefer-shopware-extends", "twig-block-duplicate",
    "twig-json-encode-escape-js", "html-duplicate-id", "twig-variable-definition-naming", "twig-valid-filter",
    "twig-valid-test", "twig-valid-function",
];
pub const DEF_FILTERS: &[&str] = &[
    "abs", "batch", "capitalize", "column", "convert_encoding", "country_name", "currency_name", "currency_symbol",
    "data_uri", "date", "date_modify", "default", "escape", "e", "filter", "find", "first", "format",
    "format_currency", "format_date", "format_datetime", "format_number", "format_time", "html_attr_merge",
    "html_attr_type", "html_to_markdown", "inline_css", "inky_to_html", "invoke", "join", "json_encode", "keys",
    "language_name", "last", "length", "locale_name", "lower", "map", "markdown_to_html", "merge", "nl2br",
    "number_format", "plural", "raw", "reduce", "replace", "reverse", "round", "shuffle", "singular", "slice", "slug",
    "sort", "spaceless", "split", "striptags", "timezone_name", "title", "trim", "u", "upper", "url_encode",
];
pub const DEF_TESTS: &[&str] = &[
    "constant", "defined", "divisible by", "empty", "even", "iterable", "mapping", "null", "none", "odd", "same as",
    "sequence",
];
pub const DEF_FUNCTIONS: &[&str] = &[
    "attribute", "block", "constant", "country_names", "country_timezones", "currency_names", "cycle", "date", "dump",
    "enum", "enum_cases", "html_attr", "html_classes", "html_cva", "include", "language_names", "locale_names", "max",
    "min", "parent", "random", "range", "script_names", "source", "template_from_string", "timezone_names",
];

use crate::cli::{Conf, Sev};
use crate::gen_::{Doc, Span};

pub fn severity(rule: &str) -> Sev {
    match rule {
        "line-ending" | "twig-prefer-shopware-extends" | "twig-json-encode-escape-js" | "html-duplicate-id" | "twig-valid-filter"
        | "twig-valid-test" | "twig-valid-function" => Sev::Warning,
        "twig-use-is-same-as" | "twig-use-is-not-same-as" | "twig-logic-and" | "twig-logic-or" | "twig-block-duplicate"
        | "ludtwig-ignore-file-not-on-top" => Sev::Error,
        _ => Sev::Help,
    }
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub rule: &'static str,
    pub pos: usize,
    /// another position that names the same place (a node with or without the blanks before it)
    pub alt: usize,
    /// the position which decides what ignore directives apply
    pub owner: usize,
    /// the earlier occurrence
    pub second: Option<(usize, usize)>,
}

pub fn snake(s: &str, screaming: bool) -> bool {
    !s.is_empty() && !s.starts_with('_') && !s.ends_with('_') && !s.contains("__")
        && s.chars().all(|c| c == '_' || c.is_ascii_digit() || if screaming { c.is_ascii_uppercase() } else { c.is_ascii_lowercase() })
}
pub fn kebab(s: &str) -> bool {
    let rest = s.strip_prefix([':', '@', '#']).unwrap_or(s);
    let lead = s.len() != rest.len();
    !s.ends_with('-') && !s.contains("--") && (lead || !s.starts_with('-'))
        && rest.chars().all(|c| c == '-' || c.is_ascii_digit() || c.is_ascii_lowercase())
}
pub fn camel(s: &str) -> bool {
    let t = s.trim_start_matches('_');
    t.is_empty() || (t.starts_with(|c: char| c.is_ascii_lowercase()) && !t.contains(['_', '-']))
}
pub fn plain_name(s: &str) -> bool {
    !s.is_empty() && !s.starts_with(|c: char| c.is_ascii_digit()) && s.chars().all(|c| c == '_' || c.is_ascii_alphanumeric())
}

pub fn is_ws(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r')
}
/// the line breaks starting exactly here
fn lb_run(t: &[u8], mut p: usize) -> usize {
    let st = p;
    loop {
        if t.get(p) == Some(&b'\n') {
            p += 1;
        } else if t.get(p) == Some(&b'\r') && t.get(p + 1) == Some(&b'\n') {
            p += 2;
        } else {
            return p - st;
        }
    }
}
fn blanks(t: &[u8], mut p: usize) -> usize {
    let st = p;
    while matches!(t.get(p), Some(b' ' | b'\t')) {
        p += 1;
    }
    p - st
}
fn next_code(t: &[u8], mut p: usize) -> usize {
    while p < t.len() && is_ws(t[p]) {
        p += 1;
    }
    p
}
fn prev_code_end(t: &[u8], mut p: usize) -> usize {
    while p > 0 && is_ws(t[p - 1]) {
        p -= 1;
    }
    p
}
pub fn sensitive_name(n: &str) -> bool {
    ["pre", "textarea", "script", "style"].iter().any(|s| n.eq_ignore_ascii_case(s))
}

pub struct Facts<'a> {
    pub doc: &'a Doc,
    pub t: &'a [u8],
    /// sensitive elements: whole range, end of the starting tag
    pub sens: Vec<(usize, usize, usize)>,
    /// insides of Twig strings
    pub strs: Vec<(usize, usize)>,
    pub kids: Vec<Vec<usize>>,
}
pub fn el_name(doc: &Doc, start_tag: &Span) -> String {
    let t = &doc.text[start_tag.start + 1..];
    t.chars().take_while(|c| !c.is_whitespace() && !matches!(c, '>' | '/')).collect()
}
pub fn facts(doc: &Doc) -> Facts<'_> {
    let mut kids = vec![vec![]; doc.spans.len()];
    for (i, s) in doc.spans.iter().enumerate() {
        if s.parent != usize::MAX {
            kids[s.parent].push(i);
        }
    }
    let mut sens = vec![];
    for s in &doc.spans {
        if s.kind == "HTML_STARTING_TAG" && sensitive_name(&el_name(doc, s)) {
            let tag = &doc.spans[s.parent];
            sens.push((tag.start, tag.end, s.end));
        }
    }
    let strs = doc.spans.iter().filter(|s| s.kind == "TWIG_LITERAL_STRING_INNER").map(|s| (s.start, s.end)).collect();
    Facts { doc, t: doc.text.as_bytes(), sens, strs, kids }
}
impl Facts<'_> {
    /// is this blank part of whitespace-sensitive content?
    pub fn sensitive(&self, pos: usize) -> bool {
        let p = next_code(self.t, pos);
        self.strs.iter().any(|&(a, b)| a <= pos && pos < b) || self.sens.iter().any(|&(_, e, st)| st <= pos && p < e)
    }
    pub fn suppressed(&self, rule: &str, owner: usize) -> bool {
        self.doc.file_ignores.iter().any(|(_, r)| r.is_empty() || r.iter().any(|x| x == rule))
            || self.doc.frames.iter().any(|f| (f.rules.is_empty() || f.rules.iter().any(|x| x == rule)) && f.start <= owner && owner < f.end)
    }
    pub fn inside(&self, kinds: &[&str], p: usize) -> bool {
        self.doc.spans.iter().any(|s| kinds.contains(&s.kind) && s.start <= p && p < s.end)
    }
    fn child<'b>(&'b self, i: usize, kind: &str) -> Option<&'b Span> {
        self.kids[i].iter().map(|&k| &self.doc.spans[k]).find(|s| s.kind == kind)
    }
    /// expected indentation in front of the code at p
    pub fn indent(&self, p: usize, c: &Conf) -> String {
        let mut lvl = 0;
        let mut sub = 0;
        if p < self.t.len() {
            for s in &self.doc.spans {
                if !(s.start <= p && p < s.end) {
                    continue;
                }
                let par = self.doc.spans.get(s.parent);
                match s.kind {
                    "BODY" => {
                        if c.indent_blocks || par.is_none_or(|q| q.kind != "TWIG_BLOCK") {
                            lvl += 1;
                        }
                    }
                    "TWIG_ARGUMENTS" | "TWIG_LITERAL_ARRAY_INNER" | "TWIG_LITERAL_HASH_ITEMS" | "TWIG_PROP_DECLARATION" => lvl += 1,
                    "HTML_ATTRIBUTE_LIST" => {
                        if let Some(q) = par.filter(|q| q.kind == "HTML_STARTING_TAG") {
                            sub += el_name(self.doc, q).chars().count() + 2;
                        }
                    }
                    _ => {}
                }
            }
        }
        c.mode.to_string().repeat(lvl * c.count) + &" ".repeat(sub)
    }
    fn indentation(&self, c: &Conf, out: &mut Vec<Finding>) {
        let t = self.t;
        let mut ls = 0;
        loop {
            // ls is the start of a line: at the start of the text or behind a line break
            if ls >= t.len() {
                return;
            }
            let w = blanks(t, ls);
            let at_lb = lb_run(t, ls) > 0;
            if !at_lb {
                let p = next_code(t, ls);
                let skip = self.sens.iter().any(|&(a, b, _)| a <= p && p < b) || self.strs.iter().any(|&(a, b)| a < ls && ls <= b);
                let want = self.indent(p, c);
                if !skip && self.doc.text[ls..ls + w] != want {
                    out.push(Finding { rule: "indentation", pos: ls, alt: ls, owner: p, second: None });
                }
            }
            match self.doc.text[ls..].find('\n') {
                Some(i) => ls += i + 1,
                None => return,
            }
        }
    }
    fn blank_lines(&self, out: &mut Vec<Finding>) {
        let t = self.t;
        let mut i = 0;
        while i < t.len() {
            let n = lb_run(t, i);
            if n == 0 {
                i += 1;
                continue;
            }
            let w = i + n;
            let b = blanks(t, w);
            if b > 0 && lb_run(t, w + b) > 0 && !self.sensitive(w) {
                out.push(Finding { rule: "whitespace-between-line-breaks", pos: w, alt: w, owner: next_code(t, w), second: None });
            }
            i = w;
        }
    }
    fn line_ending(&self, c: &Conf, out: &mut Vec<Finding>) {
        for (i, _) in self.doc.text.match_indices('\n') {
            let cr = i > 0 && self.t[i - 1] == b'\r';
            if cr != (c.line_ending == "\r\n") {
                let pos = if cr { i - 1 } else { i };
                out.push(Finding { rule: "line-ending", pos, alt: pos, owner: next_code(self.t, pos), second: None });
            }
        }
    }
    /// positions where line breaks must follow, and how many; the block they belong to
    pub fn block_needs(&self, c: &Conf) -> Vec<(usize, usize, usize)> {
        let mut all = vec![];
        let note = |k: usize| matches!(self.doc.spans[k].kind, "TWIG_COMMENT" | "HTML_COMMENT" | "LUDTWIG_DIRECTIVE_FILE_IGNORE" | "LUDTWIG_DIRECTIVE_IGNORE");
        for (i, s) in self.doc.spans.iter().enumerate() {
            if s.kind != "TWIG_BLOCK" || self.child(i, "TWIG_ENDING_BLOCK").is_none() {
                continue;
            }
            if self.inside(&["HTML_STRING_INNER", "TWIG_LITERAL_STRING_INNER"], s.start) || self.sens.iter().any(|&(a, b, _)| a <= s.start && s.start < b) {
                continue;
            }
            let sib = &self.kids[s.parent];
            let at = sib.iter().position(|&k| k == i).unwrap();
            let prev = at.checked_sub(1).map(|k| sib[k]);
            let next = sib.get(at + 1).copied();
            let real_prev = match prev { Some(k) if note(k) => at.checked_sub(2).map(|k| sib[k]), x => x };
            let real_next = match next { Some(k) if note(k) => sib.get(at + 2).copied(), x => x };
            if self.doc.spans[s.parent].kind == "ROOT" && real_prev.is_none() {
                continue;
            }
            let cfg = if c.lb_blocks { 2 } else { 1 };
            let from = match prev { Some(k) if note(k) => self.doc.spans[k].start, _ => s.start };
            let bpos = prev_code_end(self.t, from);
            let mut need = vec![(bpos, if real_prev.is_some() { cfg } else { 1 })];
            if s.end < self.t.len() && real_next.is_none_or(|k| self.doc.spans[k].kind != "TWIG_BLOCK") {
                need.push((s.end, if next.is_some() { cfg } else { 1 }));
            }
            for (pos, k) in need {
                all.push((pos, k, s.start));
            }
        }
        all
    }
    fn block_breaks(&self, c: &Conf, out: &mut Vec<Finding>) {
        for (pos, k, owner) in self.block_needs(c) {
            let n = lb_run(self.t, pos);
            if self.doc.text[pos..pos + n] != c.line_ending.repeat(k) {
                out.push(Finding { rule: "twig-block-line-breaks", pos, alt: pos, owner, second: None });
            }
        }
    }
    /// the text after fixing the active layout rules
    pub fn laid_out(&self, c: &Conf) -> String {
        let t = self.t;
        let on = |r: &str| c.has(r);
        let (ind, blank, le, blk) = (on("indentation"), on("whitespace-between-line-breaks"), on("line-ending"), on("twig-block-line-breaks"));
        let needs: std::collections::BTreeMap<usize, usize> = if blk { self.block_needs(c).into_iter().map(|(p, k, _)| (p, k)).collect() } else { Default::default() };
        let mut out = String::new();
        let mut i = 0;
        loop {
            // a gap: the blanks and line breaks between two pieces of code
            let g0 = i;
            let g1 = next_code(t, i);
            let need = needs.get(&g0).copied();
            if g0 < g1 || need.is_some() {
                let in_str = self.strs.iter().any(|&(a, b)| a <= g0 && g1 <= b && a < b) && g0 < g1;
                let ind_here = ind && !in_str && !self.sens.iter().any(|&(a, b, _)| a <= g1 && g1 < b);
                let blank_here = blank && !in_str && !self.sens.iter().any(|&(_, e, st)| st <= g0 && g1 < e);
                // blanks in front of, between and behind runs of line breaks
                let mut toks: Vec<Result<Vec<&str>, String>> = vec![];
                let mut p = g0;
                while p < g1 {
                    let b = blanks(t, p);
                    if b > 0 {
                        toks.push(Err(self.doc.text[p..p + b].to_string()));
                        p += b;
                        continue;
                    }
                    let nl = if t[p] == b'\n' { "\n" } else { "\r\n" };
                    p += nl.len();
                    let nl = if le { c.line_ending } else { nl };
                    match toks.last_mut() {
                        Some(Ok(v)) => v.push(nl),
                        _ => toks.push(Ok(vec![nl])),
                    }
                }
                let want = self.indent(g1, c);
                loop {
                    let before = toks.clone();
                    if let Some(k) = need {
                        let v = vec![c.line_ending; k];
                        match toks.first_mut() {
                            Some(Ok(x)) => *x = v,
                            _ => toks.insert(0, Ok(v)),
                        }
                    }
                    if ind_here {
                        for k in 0..toks.len() {
                            let at_line = if k == 0 { g0 == 0 } else { toks[k - 1].is_ok() };
                            if at_line {
                                if let Err(b) = &mut toks[k] { *b = want.clone() }
                            }
                        }
                        let bare = match toks.last() { None => g0 == 0, Some(x) => x.is_ok() };
                        if bare && g1 < t.len() {
                            toks.push(Err(want.clone()));
                        }
                    }
                    if blank_here {
                        for k in 1..toks.len().saturating_sub(1) {
                            if toks[k - 1].is_ok() && toks[k + 1].is_ok() {
                                toks[k] = Err(String::new());
                            }
                        }
                    }
                    toks.retain(|x| !matches!(x, Err(b) if b.is_empty()));
                    let mut merged: Vec<Result<Vec<&str>, String>> = vec![];
                    for x in toks {
                        match (merged.last_mut(), x) {
                            (Some(Ok(v)), Ok(w)) => v.extend(w),
                            (_, x) => merged.push(x),
                        }
                    }
                    toks = merged;
                    if toks == before {
                        break;
                    }
                }
                for x in &toks {
                    match x {
                        Ok(v) => out.push_str(&v.concat()),
                        Err(b) => out.push_str(b),
                    }
                }
            } else if g0 == 0 && ind && g1 < t.len() && !self.sens.iter().any(|&(a, b, _)| a <= g1 && g1 < b) {
                out.push_str(&self.indent(g1, c));
            }
            if g1 >= t.len() {
                return out;
            }
            let mut e = g1;
            while e < t.len() && !is_ws(t[e]) {
                e += 1;
                if needs.contains_key(&e) { break; }
            }
            out.push_str(&self.doc.text[g1..e]);
            i = e;
        }
    }
    /// the text after fixing the active quotation rules
    pub fn requoted(&self, c: &Conf) -> (String, usize) {
        let mut cells: Vec<Vec<u8>> = self.t.iter().map(|b| vec![*b]).collect();
        let spans = &self.doc.spans;
        let mut quote: Vec<Option<u8>> = vec![None; spans.len()];
        let strings: Vec<(usize, usize)> = (0..spans.len()).filter(|&i| matches!(spans[i].kind, "TWIG_LITERAL_STRING" | "HTML_STRING"))
            .map(|i| (i, self.kids[i].iter().copied().find(|&k| spans[k].kind.ends_with("_INNER")).unwrap())).collect();
        for &(i, inn) in &strings {
            if spans[i].start < spans[inn].start || self.t[spans[i].start] == b'"' || self.t[spans[i].start] == b'\'' {
                quote[i] = Some(self.t[spans[i].start]);
            }
        }
        let mut gone = vec![false; spans.len()];
        let mut changes = 0;
        for _ in 0..20 {
            let now = cells.clone();
            let mut todo = vec![];
            for &(i, inn) in &strings {
                if gone[i] {
                    continue;
                }
                let html = spans[i].kind == "HTML_STRING";
                let on = |rule: &str| c.has(rule) && !self.suppressed(rule, spans[i].start);
                let key = !html && spans[spans[i].parent].kind == "TWIG_LITERAL_HASH_KEY";
                let inner: Vec<u8> = if quote[i].is_some() { now[spans[i].start + 1..spans[i].end - 1].concat() } else { now[spans[inn].start..spans[inn].end].concat() };
                if key && on("twig-hash-key-no-quotes") && plain_name(&String::from_utf8_lossy(&inner)) {
                    todo.push((i, inn, None));
                    continue;
                }
                if !on(if html { "html-string-quotation" } else { "twig-string-quotation" }) {
                    continue;
                }
                let want = if html { c.hq } else { c.tq } as u8;
                let interp = self.kids[inn].iter().any(|&k| spans[k].kind == "TWIG_LITERAL_STRING_INTERPOLATION");
                if quote[i] == Some(want) || (!html && c.tq == '\'' && interp) || inner.contains(&want) {
                    continue;
                }
                todo.push((i, inn, Some(want)));
            }
            if todo.is_empty() {
                break;
            }
            for (i, inn, w) in todo {
                changes += 1;
                let s = &spans[i];
                match (quote[i], w) {
                    (Some(_), None) => {
                        cells[s.start].clear();
                        cells[s.end - 1].clear();
                        gone[i] = true;
                    }
                    (Some(_), Some(w)) => {
                        cells[s.start] = vec![w];
                        cells[s.end - 1] = vec![w];
                        quote[i] = Some(w);
                    }
                    (None, Some(w)) => {
                        cells[spans[inn].start].insert(0, w);
                        cells[spans[inn].end - 1].push(w);
                        quote[i] = Some(w);
                        // from now on the range with quotes is what was the inner range
                    }
                    (None, None) => {}
                }
            }
        }
        (String::from_utf8(cells.concat()).unwrap_or_default(), changes)
    }
    /// the text after fixing the Shopware rules
    pub fn shopware(&self, c: &Conf) -> (String, usize) {
        let mut edits: Vec<(usize, usize, &str)> = vec![];
        for m in &self.doc.marks {
            match m.kind {
                "extends" if c.has("twig-prefer-shopware-extends") && !self.suppressed("twig-prefer-shopware-extends", m.start) => {
                    let at = m.start + self.doc.text[m.start..m.end].find("extends").unwrap();
                    edits.push((at, at + 7, "sw_extends"));
                }
                "filter" if c.has("twig-json-encode-escape-js") && !self.suppressed("twig-json-encode-escape-js", m.start) && m.name == "raw" && m.b.split('|').any(|x| x == "json_encode" || x.starts_with("json_encode(")) => {
                    let end = self.doc.spans.iter().find(|s| s.kind == "TWIG_ARGUMENTS" && prev_code_end(self.t, s.start) == m.end && s.start >= m.end).map_or(m.end, |s| s.end);
                    edits.push((m.start, end, "escape('js')"));
                }
                _ => {}
            }
        }
        edits.sort();
        let mut out = String::new();
        let mut p = 0;
        let mut n = 0;
        for (a, b, w) in edits {
            if a < p {
                continue;
            }
            out.push_str(&self.doc.text[p..a]);
            out.push_str(w);
            p = b;
            n += 1;
        }
        out.push_str(&self.doc.text[p..]);
        (out, n)
    }
    /// whether a quoted string should be reported, and whether it can be rewritten
    pub fn quote_verdict(&self, i: usize, c: &Conf) -> (bool, bool) {
        let s = &self.doc.spans[i];
        let html = s.kind == "HTML_STRING";
        let want = if html { c.hq } else { c.tq } as u8;
        let inner = self.kids[i].iter().copied().find(|&k| self.doc.spans[k].kind.ends_with("_INNER")).unwrap();
        let interp = self.kids[inner].iter().any(|&k| self.doc.spans[k].kind == "TWIG_LITERAL_STRING_INTERPOLATION");
        if !html && c.tq == '\'' && interp {
            return (false, false);
        }
        let inn = &self.doc.spans[inner];
        let ok = s.start < inn.start && self.t[s.start] == want && self.t[s.end - 1] == want;
        (!ok, !ok && !self.t[inn.start..inn.end].contains(&want))
    }
}

/// every finding of the active rules which no directive suppresses
pub fn expected(doc: &Doc, c: &Conf) -> Vec<Finding> {
    let f = facts(doc);
    let mut out = vec![];
    let mut add = |rule: &'static str, pos: usize| out.push(Finding { rule, pos, alt: pos, owner: pos, second: None });
    for m in &doc.marks {
        match m.kind {
            "binop" => match m.name.as_str() {
                "===" => add("twig-use-is-same-as", m.start),
                "!==" => add("twig-use-is-not-same-as", m.start),
                "&&" => add("twig-logic-and", m.start),
                "||" => add("twig-logic-or", m.start),
                _ => {}
            },
            "blockname" if !snake(&m.name, false) => add("twig-block-name-snake-case", m.start),
            "attr" if !m.a.starts_with("twig:") && !kebab(&m.name) => add("html-attribute-name-kebab-case", m.start),
            "setvar" => {
                let ok = if m.a == "constant" { snake(&m.name, true) } else { camel(&m.name) };
                if !ok {
                    add("twig-variable-definition-naming", m.start);
                }
            }
            "forvar" if !camel(&m.name) => add("twig-variable-definition-naming", m.start),
            "hashkey" if plain_name(&m.name) => add("twig-hash-key-no-quotes", m.start),
            "filter" => {
                if !c.filters.contains(&m.name) {
                    add("twig-valid-filter", m.start);
                }
                if m.name == "raw" && m.b.split('|').any(|x| x == "json_encode" || x.starts_with("json_encode(")) {
                    add("twig-json-encode-escape-js", m.start);
                }
            }
            "applyfilter" if !c.filters.contains(&m.name) => add("twig-valid-filter", m.start),
            "function" if !c.functions.contains(&m.name) => add("twig-valid-function", m.start),
            "test" if !c.tests.contains(&m.name) => add("twig-valid-test", m.start),
            _ => {}
        }
    }
    for (i, s) in doc.spans.iter().enumerate() {
        match s.kind {
            "TWIG_EXTENDS" | "LUDTWIG_DIRECTIVE_FILE_IGNORE" => {
                let rule = if s.kind == "TWIG_EXTENDS" { "twig-prefer-shopware-extends" } else { "ludtwig-ignore-file-not-on-top" };
                if s.kind == "TWIG_EXTENDS" || s.parent != 0 {
                    out.push(Finding { rule, pos: prev_code_end(f.t, s.start), alt: s.start, owner: s.start, second: None });
                }
            }
            "TWIG_LITERAL_STRING" | "HTML_STRING" => {
                if f.quote_verdict(i, c).0 {
                    let rule = if s.kind == "HTML_STRING" { "html-string-quotation" } else { "twig-string-quotation" };
                    out.push(Finding { rule, pos: s.start, alt: s.start, owner: s.start, second: None });
                }
            }
            _ => {}
        }
    }
    f.indentation(c, &mut out);
    f.blank_lines(&mut out);
    f.line_ending(c, &mut out);
    f.block_breaks(c, &mut out);
    // duplicates: occurrences in document order, suppressed ones do not count at all
    for rule in ["twig-block-duplicate", "html-duplicate-id"] {
        let mut occ: Vec<(usize, usize, &str)> = doc.marks.iter().filter_map(|m| match (rule, m.kind) {
            ("twig-block-duplicate", "blockname") => Some((m.start, m.end, m.name.as_str())),
            ("html-duplicate-id", "attrvalue") if m.b == "id" && !m.flag && !m.name.is_empty() => {
                let st = if m.a.is_empty() { m.start } else { m.start + 1 };
                Some((st, st + m.name.len(), m.name.as_str()))
            }
            _ => None,
        }).filter(|o| !f.suppressed(rule, o.0)).collect();
        occ.sort();
        for (k, o) in occ.iter().enumerate() {
            if let Some(first) = occ[..k].iter().find(|x| x.2 == o.2) {
                out.push(Finding { rule, pos: o.0, alt: o.0, owner: o.0, second: Some((first.0, first.1)) });
            }
        }
    }
    out.retain(|x| c.has(x.rule) && !f.suppressed(x.rule, x.owner));
    out.sort_by_key(|x| (x.pos, x.rule));
    out
}

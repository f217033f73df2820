//! What the program reports about files: findings against the generator's ground truth.
use crate::cli::*;
use crate::gen_::{self, Cfg, Doc};
use crate::oracle::{self, Finding};
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// what one batch observed
#[derive(Default)]
pub struct Obs {
    pub evals: Vec<(String, bool)>,
    pub stats: BTreeMap<String, u64>,
    pub viol: Vec<(String, Value)>,
    pub samples: Vec<Value>,
}
impl Obs {
    pub fn add(&mut self, k: &str, n: usize) {
        *self.stats.entry(k.into()).or_default() += n as u64;
    }
    pub fn bad(&mut self, what: impl Into<String>, detail: Value) {
        self.viol.push((what.into(), detail));
    }
    pub fn into_ctx(self, ctx: &mut Ctx) {
        for (t, n) in self.evals {
            ctx.eval_if(&t, n);
        }
        for (k, v) in self.stats {
            ctx.count(&k, v);
        }
        for s in self.samples {
            ctx.sample(s);
        }
        for (w, d) in self.viol {
            ctx.violation(&w, d);
        }
    }
}

/// runs `f` for nb seeds on all cores
pub fn batches(ctx: &mut Ctx, nb: usize, f: impl Fn(&mut Rng, usize, &mut Obs) + Sync) {
    let seed = mix(ctx.seed, hash(&ctx.prop));
    let all = par_map(nb, |i| {
        let mut o = Obs::default();
        let mut r = Rng::new(mix(seed, i as u64));
        f(&mut r, i, &mut o);
        o
    });
    for o in all {
        o.into_ctx(ctx);
    }
}

pub fn show(d: &Doc, pos: usize) -> String {
    let (l, c) = d.line_col(pos);
    format!("{l}:{c}")
}

/// differences between the expected findings and the printed ones, both restricted to `rules`
pub fn compare(doc: &Doc, exp: &[Finding], act: &[Diag], rules: &[&str]) -> Option<String> {
    let mut left: Vec<&Diag> = act.iter().filter(|d| rules.contains(&d.code.as_str())).collect();
    let mut msg = vec![];
    for e in exp.iter().filter(|e| rules.contains(&e.rule)) {
        let (p, a) = (doc.line_col(e.pos), doc.line_col(e.alt));
        let at = left.iter().position(|d| d.code == e.rule && ((d.line, d.col) == p || (d.line, d.col) == a));
        match at {
            Some(k) => {
                let d = left.remove(k);
                if d.sev != oracle::severity(e.rule) {
                    msg.push(format!("{} at {}:{} has severity {:?}", e.rule, d.line, d.col, d.sev));
                }
            }
            None => msg.push(format!("not reported: {} at {}:{}", e.rule, a.0, a.1)),
        }
    }
    for d in left {
        msg.push(format!("reported without reason: {} at {}:{} ({})", d.code, d.line, d.col, d.msg));
    }
    if msg.is_empty() { None } else { Some(msg[..msg.len().min(12)].join("\n")) }
}

pub fn plan(r: &mut Rng) -> Cfg {
    Cfg {
        fuel: *r.pick(&[25i64, 60, 60, 120, 200]),
        depth: *r.pick(&[3usize, 5, 5, 8, 14]),
        wild: r.pct(80),
        nl: *r.pick(&[Some("\n"), Some("\n"), Some("\r\n"), None]),
        html_heavy: r.pct(50),
        rules: r.pct(70),
        top_nodes: *r.pick(&[3usize, 6, 12]),
        unknown_names: *r.pick(&[15usize, 15, 0, 60]),
        ml_strings: r.pct(40),
        sensitive: r.pct(25),
        code_nl: r.pct(80),
        max_expr: *r.pick(&[4usize, 4, 2, 3]),
        ..Default::default()
    }
}

/// one lint run over generated documents; the printed findings by file
pub struct Lint {
    pub conf: Conf,
    pub docs: Vec<Doc>,
    pub run: Run,
    pub per: Vec<Vec<Diag>>,
}
pub fn docs(r: &mut Rng, n: usize, tweak: impl Fn(&mut Rng, &mut Cfg)) -> Vec<Doc> {
    // now and then one of them is far larger than the others
    let large = r.pct(8);
    (0..n).map(|i| {
        let mut c = plan(r);
        tweak(r, &mut c);
        if large && i == 0 {
            c.top_nodes = *r.pick(&[100usize, 400, 1500, 4000]);
            c.fuel = *r.pick(&[600i64, 2000, 6000, 12_000]);
        }
        gen_::document(r.next(), r.next(), &c)
    }).collect()
}
pub fn lint(name: &str, conf: Conf, docs: Vec<Doc>) -> Lint {
    let texts: Vec<&str> = docs.iter().map(|d| d.text.as_str()).collect();
    let dir = batch_dir(name, &conf, &texts);
    let run = Cmd::new(&dir).arg(".").run();
    rm(&dir);
    let mut by = run.by_path();
    let per = (0..docs.len()).map(|i| by.remove(&fname(i)).unwrap_or_default()).collect();
    Lint { conf, docs, run, per }
}

pub fn case(conf: &Conf, text: &str, what: Value) -> Value {
    json!({"config": conf.toml(), "text": text, "what": what})
}

/// every finding of `rules` on generated documents, under random settings
pub fn reports(ctx: &mut Ctx, rules: &[&'static str], nb: usize, tweak: impl Fn(&mut Rng, &mut Cfg) + Sync, extra: impl Fn(&Lint, usize, &[Finding], &mut Obs) + Sync) {
    let prop = ctx.prop.clone();
    batches(ctx, nb, |r, b, o| {
        let mut conf = Conf::random(r);
        if r.pct(50) {
            conf.rules = strs(rules);
        }
        let ds = docs(r, 16, &tweak);
        let l = lint(&format!("{prop}-{b}"), conf, ds);
        if let Some(e) = l.run.bad() {
            o.bad(e, json!({"config": l.conf.toml(), "texts": l.docs.iter().map(|d| &d.text).collect::<Vec<_>>()}));
            return;
        }
        for (i, d) in l.docs.iter().enumerate() {
            let exp = oracle::expected(d, &l.conf);
            let mine: Vec<Finding> = exp.into_iter().filter(|e| rules.contains(&e.rule)).collect();
            for f in &mine {
                o.add(f.rule, 1);
            }
            o.add("findings_compared", mine.len());
            o.evals.push((d.text.clone(), !mine.is_empty()));
            if let Some(m) = compare(d, &mine, &l.per[i], rules) {
                o.bad(m, case(&l.conf, &d.text, json!(l.per[i].iter().map(|d| format!("{} {}:{}", d.code, d.line, d.col)).collect::<Vec<_>>())));
            }
            extra(&l, i, &mine, o);
            if b == 0 && i < 2 {
                o.samples.push(json!({"text": cut(&d.text, 400), "findings": mine.iter().map(|f| format!("{} {}", f.rule, show(d, f.pos))).collect::<Vec<_>>()}));
            }
        }
    });
}

// ------------------------------------------------------------------ C20
pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "a run is one program run; every printed finding (rule, severity, file, line, column) is compared with the generator's ground truth and the library's parse errors, and summary and exit status with what was printed; runs with at least one finding or failure count".into();
    let nb = ctx.n(1500, 25000);
    batches(ctx, nb, |r, b, o| {
        let conf = if r.pct(50) { Conf::defaults() } else { Conf::random(r) };
        let n = *r.pick(&[0usize, 1, 1, 3, 12]);
        let clean = r.pct(15);
        let ds = docs(r, n, |r, c| {
            if clean { *c = Cfg { fuel: 4, top_nodes: 1, html: true, ..Cfg::default() } }
            if r.pct(30) { c.directives = 12; c.file_dirs = 20; c.nested_file_dirs = 5; }
        });
        let dir = batch_dir(&format!("C20-{b}"), &conf, &ds.iter().map(|d| d.text.as_str()).collect::<Vec<_>>());
        // files which are fine, malformed, unreadable
        let mut bad: BTreeMap<String, String> = BTreeMap::new();
        for i in 0..*r.pick(&[0usize, 0, 1, 4]) {
            let (_, t) = crate::corpus::hostile(r.next());
            let t: String = t.chars().filter(|c| !c.is_control() || *c == '\n' || *c == '\t').collect();
            let f = format!("bad{i}.twig");
            std::fs::write(dir.join(&f), &t).unwrap();
            bad.insert(f, t);
        }
        let tidy = *r.pick(&[0usize, 0, 1, 3]);
        for i in 0..tidy {
            std::fs::write(dir.join(format!("tidy{i}.html")), *r.pick(&["", "\n", "<p>x</p>\n", "{{ a }}\n", "<div>\n    {{ 'a'|upper }}\n</div>\n"])).unwrap();
        }
        let unreadable = *r.pick(&[0usize, 0, 0, 1, 2]);
        for i in 0..unreadable {
            std::fs::write(dir.join(format!("nonutf{i}.twig")), [b'a', 0xff, 0xfe, b'\n']).unwrap();
        }
        let missing = *r.pick(&[0usize, 0, 0, 1, 3]);
        let mut cmd = Cmd::new(&dir);
        let mut args = vec![".".to_string()];
        for i in 0..missing {
            args.push(format!("no/such/path{i}"));
        }
        r.shuffle(&mut args);
        let a: Vec<&str> = args.iter().map(String::as_str).collect();
        cmd = cmd.args(&a);
        let run = cmd.run();
        rm(&dir);
        let detail = |x: Value| json!({"config": conf.toml(), "args": args, "files": ds.iter().enumerate().map(|(i, d)| (fname(i), d.text.clone())).chain(bad.clone()).collect::<BTreeMap<_, _>>(), "nonutf8": unreadable, "stderr": cut(&run.stderr, 300_000), "stdout": cut(&run.stdout, 600), "x": x});
        if let Some(e) = run.bad() {
            return o.bad(e, detail(json!(null)));
        }
        if !run.odd.is_empty() {
            return o.bad(format!("output which is no finding: {:?}", run.odd), detail(json!(null)));
        }
        let Some(s) = run.summary.clone() else { return o.bad("no summary was printed", detail(json!(null))) };
        let by = run.by_path();
        let cnt = |v: Sev| run.diags.iter().filter(|d| d.sev == v).count() as u64;
        let fails = run.errors.len() as u64;
        let nfiles = (n + bad.len() + tidy + unreadable) as u64;
        let want = Summary { files: nfiles, errors: cnt(Sev::Error) + fails, warnings: cnt(Sev::Warning), helps: cnt(Sev::Help), infos: cnt(Sev::Info), total: run.diags.len() as u64 + fails };
        if s != want {
            o.bad(format!("summary {s:?}, but printed and scanned were {want:?}"), detail(json!(null)));
        }
        let code = i32::from(want.errors + want.warnings + want.helps > 0);
        if run.code != Some(code) {
            o.bad(format!("exit status {:?}, but {want:?} was reported", run.code), detail(json!(null)));
        }
        if fails != (unreadable + missing) as u64 {
            o.bad(format!("{fails} failures reported, but {unreadable} files are unreadable and {missing} paths do not exist: {:?}", run.errors), detail(json!(null)));
        }
        for i in 0..unreadable {
            if !run.errors.iter().any(|e| e.contains(&format!("nonutf{i}.twig"))) {
                o.bad(format!("nonutf{i}.twig cannot be read, but that is not reported"), detail(json!(null)));
            }
        }
        let mut total = 0;
        for (i, d) in ds.iter().enumerate() {
            let exp = oracle::expected(d, &conf);
            total += exp.len();
            let act = by.get(&fname(i)).cloned().unwrap_or_default();
            for e in &exp { o.add(&format!("severity_{:?}", oracle::severity(e.rule)), 1); }
            let all: Vec<&str> = oracle::RULES.iter().copied().chain(["SyntaxError"]).collect();
            if let Some(m) = compare(d, &exp, &act, &all) {
                o.bad(m, case(&conf, &d.text, json!(act.iter().map(|d| format!("{} {}:{}", d.code, d.line, d.col)).collect::<Vec<_>>())));
            }
        }
        for (f, t) in &bad {
            // syntax errors against the parser itself
            let p = ludtwig_parser::parse(t);
            let mut exp: Vec<(usize, usize, String)> = p.errors.iter().map(|e| {
                let (l, c) = gen_::line_col(t, crate::corpus::boundary(t, e.range.start().into()));
                (l, c, e.expected_message())
            }).collect();
            let mut act: Vec<(usize, usize, String)> = by.get(f).into_iter().flatten().filter(|d| d.code == "SyntaxError").map(|d| (d.line, d.col, d.body.join(" "))).collect();
            exp.sort();
            act.sort();
            o.add("syntax_errors_compared", exp.len());
            total += exp.len();
            let same = exp.len() == act.len() && exp.iter().zip(&act).all(|(e, a)| (e.0, e.1) == (a.0, a.1));
            if !same {
                o.bad(format!("{f}: the parser finds {exp:?}, reported is {act:?}"), json!({"text": t}));
            }
            if act.iter().any(|_| false) || by.get(f).into_iter().flatten().any(|d| d.code == "SyntaxError" && d.sev != Sev::Error) {
                o.bad("a syntax error is not reported as error", json!({"text": t}));
            }
        }
        for p in by.keys() {
            let known = bad.contains_key(p) || (0..n).any(|i| *p == fname(i)) || p.starts_with("tidy") || p.is_empty();
            if !known { o.bad(format!("finding in a file that is not there: {p:?}"), detail(json!(null))); }
        }
        o.add("findings_compared", total);
        o.add("runs", 1);
        o.add(if code == 0 { "exit_0" } else { "exit_1" }, 1);
        o.add("missing_paths", missing);
        o.add("unreadable_files", unreadable);
        o.evals.push((format!("{b} {:?} {args:?} {nfiles}", s), s.total > 0 || fails > 0));
        if b < 3 { o.samples.push(json!({"args": args, "summary": format!("{s:?}"), "exit": code})); }
    });
}

/// many findings of one kind, up to and across the limits a counter could have
pub fn c20_large(ctx: &mut Ctx) {
    // (name, rules, line, severity)
    const KINDS: &[(&str, &str, &str, Sev)] = &[
        ("syntax errors", "", "{{ 1 2 }}\n", Sev::Error),
        ("unknown tags", "", "{% zzz %}\n", Sev::Error),
        ("errors", "twig-logic-and", "{{ a && b }}\n", Sev::Error),
        ("warnings", "twig-valid-filter", "{{ a|nosuch }}\n", Sev::Warning),
        ("helps", "twig-block-name-snake-case", "{% block aB %}{% endblock %}\n", Sev::Help),
        ("trees", "", "", Sev::Info),
        ("files", "", "", Sev::Info),
        ("missing paths", "", "", Sev::Error),
    ];
    let mut counts = vec![1usize, 2, 9, 10, 11, 31, 32, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025];
    if ctx.thorough { counts.extend([767, 768, 1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10_000, 10_001, 32_767, 32_768, 65_535, 65_536, 65_537, 131_072]) }
    let mut cases: Vec<(usize, usize)> = (0..KINDS.len()).flat_map(|k| counts.iter().map(move |c| (k, *c))).collect();
    let pick = ctx.seed as usize;
    if !ctx.thorough {
        for k in 0..KINDS.len() { for (j, c) in [2048usize, 4096, 10_000, 65_536].into_iter().enumerate() { if (k + pick + j) % 2 == 0 || (j == 3 && k < 5) { cases.push((k, c + (pick + k) % 2)) } } }
    }
    cases.sort_by_key(|c| std::cmp::Reverse(c.1));
    let cases = &cases;
    batches(ctx, cases.len(), |r, b, o| {
        let (k, n) = cases[b];
        let (name, rules, line, sev) = KINDS[k];
        // argument lists have a limit
        let n = if name == "missing paths" { n.min(10_001) } else if line.is_empty() { n.min(20_001) } else { n };
        let rl: Vec<&str> = if rules.is_empty() { vec![] } else { vec![rules] };
        let conf = Conf::defaults().with_rules(&rl);
        let mut texts: Vec<(String, usize)> = vec![];
        let mut args = vec![".".to_string()];
        match name {
            "files" | "trees" => { for _ in 0..n { texts.push(("a\n".into(), 0)) } if name == "trees" { args.push("-i".into()) } }
            "missing paths" => args = (0..n).map(|i| format!("x{i}")).collect(),
            _ => {
                // everything in one file, or in a few
                let nf = if r.pct(60) && n < 10_000 { 1 } else { *r.pick(&[2usize, 7, 20, 300]) };
                let nf = nf.min(n);
                for f in 0..nf { let m = n / nf + usize::from(f < n % nf); texts.push((line.repeat(m), m)) }
            }
        }
        let dir = batch_dir(&format!("C20-l{b}"), &conf, &texts.iter().map(|t| t.0.as_str()).collect::<Vec<_>>());
        let mut cmd = Cmd::new(&dir).args(&args.iter().map(String::as_str).collect::<Vec<_>>());
        cmd.timeout = 300;
        let run = cmd.run();
        rm(&dir);
        let detail = || json!({"kind": name, "count": n, "line": line, "rules": rules, "files": texts.len(), "tail": cut(run.stderr.lines().last().unwrap_or(""), 400)});
        if let Some(e) = run.bad() { return o.bad(e, detail()); }
        let Some(s) = run.summary.clone() else { return o.bad("no summary was printed", detail()) };
        let c = |v: Sev| if v == sev && (name != "files") { n as u64 } else { 0 };
        let want = Summary { files: texts.len() as u64, errors: c(Sev::Error), warnings: c(Sev::Warning), helps: c(Sev::Help), infos: c(Sev::Info), total: if name == "files" { 0 } else { n as u64 } };
        if s != want { o.bad(format!("summary {s:?} for {n} {name}, should be {want:?}"), detail()); }
        let printed = run.diags.len() + run.errors.len();
        if printed as u64 != want.total { o.bad(format!("{printed} findings were printed for {n} {name}"), detail()); }
        let code = i32::from(want.errors + want.warnings + want.helps > 0);
        if run.code != Some(code) { o.bad(format!("exit status {:?} for {n} {name}", run.code), detail()); }
        if !line.is_empty() {
            // one on every line of every file
            let by = run.by_path();
            for (i, (_, m)) in texts.iter().enumerate() {
                let mut l: Vec<usize> = by.get(&fname(i)).into_iter().flatten().map(|d| d.line).collect();
                l.sort_unstable();
                if l != (1..=*m).collect::<Vec<_>>() { o.bad(format!("the {name} of {} are not the ones on its {m} lines", fname(i)), detail()); break; }
            }
        }
        o.add("large_runs", 1);
        o.add("findings_in_large_runs", want.total as usize);
        o.evals.push((format!("{name} {n} {}", texts.len()), true));
    });
}

// ------------------------------------------------------------------ C27 .. C33: what is reported
pub const NAMING: &[&str] = &["twig-block-name-snake-case", "html-attribute-name-kebab-case", "twig-variable-definition-naming"];
pub const LAYOUT: &[&str] = &["indentation", "whitespace-between-line-breaks", "line-ending", "twig-block-line-breaks"];
pub const QUOTES: &[&str] = &["twig-string-quotation", "html-string-quotation", "twig-hash-key-no-quotes"];
pub const OPS: &[&str] = &["twig-use-is-same-as", "twig-use-is-not-same-as", "twig-logic-and", "twig-logic-or"];
pub const DUPS: &[&str] = &["twig-block-duplicate", "html-duplicate-id"];
pub const VALID: &[&str] = &["twig-valid-filter", "twig-valid-test", "twig-valid-function"];
pub const SHOP: &[&str] = &["twig-json-encode-escape-js", "twig-prefer-shopware-extends", "ludtwig-ignore-file-not-on-top"];

fn letters(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, '-' | '_')).flat_map(char::to_lowercase).collect()
}

/// suggested names conform to the convention and keep the letters of the name
fn suggestions(diags: &[Diag], conf: &Conf, text: &str, o: &mut Obs) {
    let lines: Vec<&str> = text.split('\n').collect();
    for d in diags.iter().filter(|d| NAMING.contains(&d.code.as_str())) {
        let line = lines.get(d.line - 1).copied().unwrap_or("");
        let rest: String = line.chars().skip(d.col - 1).collect();
        for b in &d.body {
            for key in ["Try this name instead: ", "' to "] {
                let Some(k) = b.find(key) else { continue };
                let sug = b[k + key.len()..].trim().to_string();
                let ok = match d.code.as_str() {
                    "twig-block-name-snake-case" => oracle::snake(&sug, false),
                    "html-attribute-name-kebab-case" => oracle::kebab(&sug),
                    _ => sug == "camelCase" || sug == "SCREAMING_SNAKE_CASE" || oracle::snake(&sug, true),
                };
                o.add("suggestions", 1);
                let same = key == "' to " || letters(&rest).starts_with(&letters(&sug));
                if !ok || !same || sug.is_empty() {
                    o.bad(format!("suggested name {sug:?} for {:?} ({})", cut(&rest, 40), d.code), case(conf, text, json!(d.body)));
                }
            }
        }
    }
}
/// every short name over a small alphabet and long ones, in every place a name is judged
pub fn c27_names(ctx: &mut Ctx) {
    // (before, after the name, rule, kind)
    const PLACES: &[(&str, &str, usize, char)] = &[
        ("{% block ", " %}x{% endblock %}", 0, 's'), ("{%- block ", " -%}{%- endblock -%}", 0, 's'), ("{% block ", " 'short' %}", 0, 's'),
        ("<p ", "></p>", 1, 'k'), ("<p ", "=\"v\"></p>", 1, 'k'), ("<input x {% if a %}", "='v'{% endif %} y>", 1, 'k'), ("<my-c\t", " />", 1, 'k'), ("<twig:c ", "/>", 9, '-'), ("<p x=\"1\" :", "='a'></p>", 1, 'k'),
        ("{% set ", " = 1 %}", 2, 'c'), ("{% set ", " %}x{% endset %}", 2, 'c'), ("{% set a, ", " = 1, constant('b') %}", 2, 'S'), ("{% set ", " = constant('b') %}", 2, 'S'), ("{% set ", ", b = constant('b'), 2 %}", 2, 'S'), ("{% set ", " = constant('b')|upper %}", 2, 'c'),
        ("{% for ", " in b %}x{% endfor %}", 2, 'c'), ("{% for a, ", " in b %}x{% endfor %}", 2, 'c'), ("{% for ", ", b in c %}x{% endfor %}", 2, 'c'),
    ];
    let mut names: Vec<String> = vec![];
    let max = if ctx.thorough { 5 } else { 4 };
    let alphabet = ['a', 'B', '7', '_', '-'];
    let mut level = vec![String::new()];
    for _ in 0..max {
        level = level.iter().flat_map(|n| alphabet.iter().map(move |c| format!("{n}{c}"))).collect();
        names.extend(level.iter().cloned());
    }
    let mut r = Rng::new(mix(ctx.seed, 0x27));
    for p in ["@", "#", "$", "@a", "#a"] { for n in names.clone().iter().take(800) { if r.pct(25) { names.push(format!("{p}{n}")) } } }
    for _ in 0..ctx.n(1500, 20_000) {
        // conforming pieces, with something odd somewhere or not at all
        let sep = *r.pick(&["_", "-", "", "_"]);
        let up = r.pct(25);
        let n = *r.pick(&[2usize, 3, 6, 12, 40]);
        let mut v: Vec<String> = (0..n).map(|_| (0..r.range(1, 9)).map(|_| *r.pick(&['a', 'b', 'e', 'k', 'n', 'z', '0', '9'])).collect::<String>()).collect();
        if v[0].starts_with(|c: char| c.is_ascii_digit()) { v[0].insert(0, 'q') }
        let mut s = v.join(sep);
        if up { s = s.to_uppercase() }
        if r.pct(15) { s = format!("_{s}") }
        if r.pct(60) {
            let k = match r.below(4) { 0 => s.len(), 1 => s.len() - 1, _ => r.below(s.len()) };
            s.insert_str(k, *r.pick(&["_", "__", "-", "--", "A", "Zz", "_-", "q", "7", "-B", "_B"]));
        }
        names.push(s);
    }
    let names = &names;
    let chunks = names.len().div_ceil(60);
    batches(ctx, chunks, |r, b, o| {
        let mut lines: Vec<(String, usize, bool, String)> = vec![];
        for n in &names[b * 60..((b + 1) * 60).min(names.len())] {
            for (pre, post, rule, kind) in PLACES {
                if n.len() > 8 && r.pct(50) { continue }
                let l = format!("{pre}{n}{post}");
                let p = ludtwig_parser::parse(&l);
                // it must be a name there, as a whole
                use ludtwig_parser::syntax::untyped::SyntaxNode;
                let at = pre.len();
                let whole = |root: SyntaxNode| root.descendants_with_tokens().filter_map(|e| e.into_token()).any(|t| {
                    let (s, e) = (usize::from(t.text_range().start()), usize::from(t.text_range().end()));
                    // (a colon in front belongs to the attribute name)
                    e == at + n.len() && s == if pre.ends_with(':') { at - 1 } else { at }
                });
                if !p.errors.is_empty() || !whole(SyntaxNode::new_root(p.green_node)) { o.add("no_name_there", 1); continue; }
                let name = if pre.ends_with(':') { format!(":{n}") } else { n.clone() };
                let ok = match kind { 's' => oracle::snake(&name, false), 'S' => oracle::snake(&name, true), 'k' => oracle::kebab(&name), 'c' => oracle::camel(&name), _ => true };
                lines.push((l, *rule, ok, name));
            }
        }
        r.shuffle(&mut lines);
        let conf = Conf::defaults().with_rules(NAMING);
        let texts: Vec<String> = lines.chunks(100).map(|c| c.iter().map(|l| format!("{}\n", l.0)).collect()).collect();
        let dir = batch_dir(&format!("C27-n{b}"), &conf, &texts.iter().map(String::as_str).collect::<Vec<_>>());
        let run = Cmd::new(&dir).arg(".").run();
        let fixed = Cmd::new(&dir).args(&["--fix", "."]).run();
        let after = fix_files(&dir, texts.len());
        rm(&dir);
        for x in [&run, &fixed] {
            if let Some(e) = x.bad() { return o.bad(e, json!({"texts": texts})); }
            if !x.errors.is_empty() { return o.bad(format!("{:?}", x.errors), json!({"texts": texts})); }
        }
        let (by, fx) = (run.by_path(), fixed.by_path());
        for (f, c) in lines.chunks(100).enumerate() {
            let none = vec![];
            let act = by.get(&fname(f)).unwrap_or(&none);
            let left = fx.get(&fname(f)).unwrap_or(&none);
            suggestions(act, &conf, &texts[f], o);
            let now: Vec<&str> = after[f].split('\n').collect();
            for (i, (l, rule, ok, name)) in c.iter().enumerate() {
                let mine: Vec<&Diag> = act.iter().filter(|d| d.line == i + 1).collect();
                let good = if *ok { mine.is_empty() } else { mine.len() == 1 && mine[0].code == NAMING[*rule] && mine[0].sev == Sev::Help };
                if !good { o.bad(format!("{name:?} in {l:?} {} but reported is {:?}", if *ok { "conforms" } else { "does not conform" }, mine.iter().map(|d| d.code.clone()).collect::<Vec<_>>()), json!({"text": l})); }
                // fixed exactly when a name was suggested
                let sug = mine.iter().flat_map(|d| &d.body).find_map(|b| b.find("Try this name instead: ").map(|k| b[k + 23..].trim().to_string()));
                let still = left.iter().filter(|d| d.line == i + 1).count();
                let want = match &sug { Some(s) => l.replacen(name.as_str(), s, 1), None => l.clone() };
                if now.get(i) != Some(&want.as_str()) || still != usize::from(!*ok && sug.is_none()) {
                    o.bad(format!("fixing {l:?} (suggestion {sug:?}) gave {:?} with {still} findings", now.get(i)), json!({"text": l}));
                }
                o.add("names_judged", 1);
                if !ok { o.add("misnamed", 1) }
                o.evals.push((l.clone(), !ok));
            }
        }
    });
}
pub fn c27(ctx: &mut Ctx) {
    ctx.rule = "a document is linted under random settings; every finding of the naming rules is compared by position with the names the generator put there, and suggested names are checked for conformity and for the same letters; documents with at least one misnamed thing count".into();
    let nb = ctx.n(1500, 30000);
    reports(ctx, NAMING, nb, |_, c| { c.rules = true; c.attr_twig = true; }, |l, i, _, o| {
        suggestions(&l.per[i], &l.conf, &l.docs[i].text, o);
    });
}
pub fn c31(ctx: &mut Ctx) {
    ctx.rule = "documents are linted together under random settings; reported duplicates are compared by position, including the position of the earlier occurrence, with the ones the generator made; documents with at least one repeated name count".into();
    let nb = ctx.n(1500, 30000);
    reports(ctx, DUPS, nb, |r, c| {
        if r.pct(40) { c.fuel = 400; c.top_nodes = 60; c.depth = 10 }
        c.html_heavy = r.pct(70);
        c.dups = r.pct(70);
        if r.pct(20) { c.directives = 10; }
    }, |l, i, exp, o| {
        // the earlier occurrence is pointed at as well
        for e in exp {
            let Some((a, b)) = e.second else { continue };
            let d = &l.docs[i];
            let (pl, pc) = d.line_col(e.pos);
            let Some(dg) = l.per[i].iter().find(|x| x.code == e.rule && (x.line, x.col) == (pl, pc)) else { continue };
            let (sl, _) = d.line_col(a);
            let has_label = dg.body.iter().any(|x| x.contains("first defined here"));
            let has_line = sl == pl || dg.body.iter().any(|x| x.split_once(" │").is_some_and(|(n, _)| n.trim().parse::<usize>() == Ok(sl)));
            o.add("earlier_occurrences", 1);
            if !has_label || !has_line || !marker_at(d, dg, a, b) {
                o.bad(format!("{} at {pl}:{pc} does not point at the earlier occurrence at {}", e.rule, show(d, a)), case(&l.conf, &d.text, json!(dg.body)));
            }
        }
    });
}
/// a marker line below the row of the earlier occurrence starts at its column
fn marker_at(d: &Doc, dg: &Diag, a: usize, b: usize) -> bool {
    let (sl, sc) = d.line_col(a);
    let line = d.text.split('\n').nth(sl - 1).unwrap_or("");
    if !line.is_ascii() || line.contains(['\t', '\r']) || b == a {
        return true; // columns of the printed row differ from those of the text
    }
    let mut at = false;
    for l in &dg.body {
        let Some((n, rest)) = l.split_once('│') else { continue };
        match n.trim().parse::<usize>() {
            Ok(k) => at = k == sl,
            Err(_) if at && n.trim().is_empty() => {
                // behind the bar comes one blank, then the columns of the row (or a frame of a multi line label)
                let col: Vec<char> = rest.chars().skip(1).collect();
                if col.get(sc - 1).is_some_and(|c| matches!(c, '-' | '^')) {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}
pub fn c32(ctx: &mut Ctx) {
    ctx.rule = "a document is linted with random additional and missing entries in the lists of known names; every finding of the three rules is compared by position with the uses the generator put there; documents with at least one unknown name count".into();
    let nb = ctx.n(1500, 30000);
    reports(ctx, VALID, nb, |r, c| { c.unknown_names = *r.pick(&[5usize, 30, 60]); c.max_expr = 4 }, |_, _, _, _| {});
}

// ------------------------------------------------------------------ C28, C29, C30, C33
pub fn c28_reports(ctx: &mut Ctx) {
    let nb = ctx.n(700, 14000);
    reports(ctx, LAYOUT, nb, |r, c| { c.sensitive = r.pct(40); c.nl = *r.pick(&[Some("\n"), Some("\r\n"), None, None]); }, |_, _, _, _| {});
}
pub fn c29_reports(ctx: &mut Ctx) {
    let nb = ctx.n(900, 18000);
    reports(ctx, QUOTES, nb, |_, _| {}, |_, _, _, _| {});
}
pub fn c30_reports(ctx: &mut Ctx) {
    let nb = ctx.n(900, 18000);
    reports(ctx, OPS, nb, |_, c| { c.rules = true; }, |_, _, _, _| {});
}
pub fn c33_reports(ctx: &mut Ctx) {
    let nb = ctx.n(900, 18000);
    reports(ctx, SHOP, nb, |r, c| { c.shop = r.pct(60); if r.pct(50) { c.directives = 12; c.file_dirs = 12; c.nested_file_dirs = 12 } }, |_, _, _, _| {});
}

// ------------------------------------------------------------------ one construct per line, enumerated
/// a line, the rules that must report on it, and what fixing makes of it
pub struct Judged {
    pub text: String,
    pub want: Vec<&'static str>,
    pub fixed: Option<String>,
}
pub fn judge_lines(ctx: &mut Ctx, name: &str, conf: &Conf, mut lines: Vec<Judged>) {
    let rules: Vec<String> = conf.rules.clone();
    Rng::new(mix(ctx.seed, hash(name))).shuffle(&mut lines);
    let lines = &lines;
    batches(ctx, lines.len().div_ceil(1500), |_, b, o| {
        let mine = &lines[b * 1500..((b + 1) * 1500).min(lines.len())];
        let texts: Vec<String> = mine.chunks(100).map(|c| c.iter().map(|l| format!("{}\n", l.text)).collect()).collect();
        let dir = batch_dir(&format!("{name}-{b}"), conf, &texts.iter().map(String::as_str).collect::<Vec<_>>());
        let run = Cmd::new(&dir).arg(".").run();
        let fix = Cmd::new(&dir).args(&["--fix", "."]).run();
        let after = fix_files(&dir, texts.len());
        rm(&dir);
        for x in [&run, &fix] {
            if let Some(e) = x.bad() { return o.bad(e, json!({"config": conf.toml(), "texts": texts})); }
            if !x.errors.is_empty() { return o.bad(format!("{:?}", x.errors), json!({"config": conf.toml(), "texts": texts})); }
        }
        let by = run.by_path();
        for (f, c) in mine.chunks(100).enumerate() {
            let none = vec![];
            let act = by.get(&fname(f)).unwrap_or(&none);
            let now: Vec<&str> = after[f].split('\n').collect();
            for (i, l) in c.iter().enumerate() {
                let mut got: Vec<&str> = act.iter().filter(|d| d.line == i + 1 && (rules.contains(&d.code) || d.code == "SyntaxError")).map(|d| d.code.as_str()).collect();
                let mut want: Vec<&str> = l.want.clone();
                got.sort_unstable();
                want.sort_unstable();
                if got != want { o.bad(format!("{:?}: {got:?} reported, but it should be {want:?}", l.text), json!({"config": conf.toml(), "text": l.text})); }
                if let Some(w) = &l.fixed {
                    if now.get(i) != Some(&w.as_str()) { o.bad(format!("fixing {:?} gave {:?}, but it should be {w:?}", l.text, now.get(i)), json!({"config": conf.toml(), "text": l.text})); }
                }
                o.add("enumerated_lines", 1);
                o.evals.push((format!("{name} {}", l.text), !l.want.is_empty()));
            }
        }
    });
}
/// every text of up to `max` characters of the alphabet
pub fn words(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut level = all.clone();
    for _ in 0..max {
        level = level.iter().flat_map(|n| alphabet.iter().map(move |c| format!("{n}{c}"))).collect();
        all.extend(level.iter().cloned());
    }
    all
}
/// whether the text parses without errors and has a node of the kind (without leading blanks) exactly there
pub fn node_at(t: &str, kind: &str, a: usize, b: usize) -> bool {
    use ludtwig_parser::syntax::untyped::SyntaxNode;
    let p = ludtwig_parser::parse(t);
    p.errors.is_empty() && SyntaxNode::new_root(p.green_node).descendants().any(|n| {
        let (s, e) = (usize::from(n.text_range().start()), usize::from(n.text_range().end()));
        let lead = t[s..e].len() - t[s..e].trim_start_matches([' ', '\t', '\n', '\r']).len();
        crate::sk::kind_name(n.kind()) == kind && e == b && s + lead == a
    })
}
const TWIG_PLACES: &[(&str, &str)] = &[
    ("{{ ", " }}"), ("{{", "}}"), ("{{- ", " -}}"), ("{% set a = ", " %}"), ("{% set a, b = 1, ", " %}"), ("{{ f(", ", x) }}"), ("{{ f(x, ", ") }}"), ("{{ f(x=", ") }}"), ("{{ a|f(", ") }}"), ("{{ [", "] }}"), ("{{ [a, ", ", b] }}"), ("{{ {a: ", "} }}"), ("{{ {(", "): 1} }}"), ("{% include ", " %}"),
    ("{% include 7 with ", " only %}"), ("{% if ", " %}x{% endif %}"), ("{% if a %}b{% elseif ", " %}c{% endif %}"), ("{% for a in ", " %}b{% endfor %}"), ("{{ a ? ", " : b }}"), ("{{ a ? b : ", " }}"), ("{{ a ?: ", " }}"), ("{{ (", ") }}"), ("{{ a[", "] }}"), ("{{ a.b(", ") }}"), ("{{ \"x#{", "}y\" }}"),
    ("<p>{{ ", " }}</p>"), ("<p {{ ", " }}></p>"), ("<p a={{ ", " }}></p>"), ("<script>{{ ", " }}</script>"), ("<textarea>{% if ", " %}x{% endif %}</textarea>"), ("{% block b ", " %}"), ("{% do ", " %}"), ("{% apply f(", ") %}x{% endapply %}"), ("{% embed ", " %}{% endembed %}"), ("{% cache ", " %}x{% endcache %}"), ("{% macro m(a = ", ") %}x{% endmacro %}"),
    ("{% with ", " %}x{% endwith %}"), ("{{ x => ", " }}"), ("{{ a|map((b, c) => ", ") }}"), ("{{ not ", " }}"), ("{{ a is defined and ", " }}"), ("{{ a is divisible by(", ") }}"), ("{% sw_include ", " %}"), ("{% sw_icon ", " %}"), ("{% set a %}{{ ", " }}{% endset %}"), ("{{ a ~ ", " ~ b }}"), ("{% component a with {b: ", "} %}{% endcomponent %}"), ("{{ a[", ":b] }}"), ("{{ a[b:", "] }}"),
    ("{% from ", " import a %}"), ("{% import ", " as a %}"), ("{% props a = ", " %}"), ("{{ [...", "] }}"), ("{{ -", " }}"), ("{{ a in ", " }}"), ("{{ a matches ", " }}"), ("{{ a == ", " }}"), ("{{ ", "|f }}"), ("{{ ", ".a }}"), ("{{ ", "[a] }}"), ("{{ ", " is defined }}"), ("{{ ", " ?? a }}"), ("{{ ", " ? a : b }}"), ("{{ ", " in a }}"), ("{{ ", " ~ a }}"),
];
pub fn c29_lines(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let mut r = Rng::new(mix(ctx.seed, 0x29));
    // hash keys
    let mut keys = words(&["a", "B", "7", "_", "-", " ", ".", "ü", "'"], if th { 4 } else { 3 });
    keys.extend(["true", "null", "in", "not", "is", "and", "if", "for", "block", "_self", "loop", "only", "with", "class", "data_x", "aB", "a1b2", "Zz", "starts", "same", "b_and", "e1"].map(String::from));
    keys.extend((0..300).map(|_| { let n = r.range(4, 80); (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '_', '0', '9', '_', 'q', 'M'])).collect::<String>() }));
    keys.extend((0..120).map(|_| { let n = r.range(4, 80); (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '_', '0', '9', '_', 'q', 'M'])).collect::<String>() + *r.pick(&["-", ".", " ", "é", "$", "a-b"]) }));
    let places = [("{{ {", ": 1} }}"), ("{{ { x: 1, ", " : 2 } }}"), ("{% include 7 with {", ": a} %}"), ("{{ f({a: [{", ":b}]}) }}"), ("{% set a = {", ": {c: d}} %}"), ("<p>{% if {", ": 1} %}x{% endif %}</p>")];
    let conf = Conf::defaults().with_rules(&["twig-hash-key-no-quotes"]);
    let mut lines = vec![];
    for k in &keys {
        for (j, (pre, post)) in places.iter().enumerate() {
            if k.len() > 2 && !r.pct(40) && j > 0 { continue }
            let q = if k.contains('\'') || r.pct(30) { '"' } else { '\'' };
            let s = format!("{q}{k}{q}");
            let t = format!("{pre}{s}{post}");
            if !node_at(&t, "TWIG_LITERAL_STRING", pre.len(), pre.len() + s.len()) { continue }
            let hit = oracle::plain_name(k);
            lines.push(Judged { fixed: Some(if hit { format!("{pre}{k}{post}") } else { t.clone() }), text: t, want: if hit { vec!["twig-hash-key-no-quotes"] } else { vec![] } });
        }
    }
    judge_lines(ctx, "C29-keys", &conf, lines);
    // strings, in both preferences
    let inner = words(&["a", "\"", "'", "\\", " ", "#", "{", "ü", "%"], if th { 4 } else { 3 });
    let attr = words(&["a", "\"", "'", " ", "-", "=", "ü", ">", "/"], if th { 4 } else { 3 });
    for want in ['\'', '"'] {
        let mut conf = Conf::defaults().with_rules(&["twig-string-quotation"]);
        conf.tq = want;
        let mut lines = vec![];
        for s in &inner {
            if s.contains("#{") { continue }
            for q in ['\'', '"'] {
                for (j, (pre, post)) in TWIG_PLACES.iter().enumerate() {
                    if j > 0 && !r.pct(if s.chars().count() < 2 { 60 } else if th { 8 } else { 3 }) { continue }
                    let l = format!("{q}{s}{q}");
                    let t = format!("{pre}{l}{post}");
                    if !node_at(&t, "TWIG_LITERAL_STRING", pre.len(), pre.len() + l.len()) { continue }
                    // the string around an interpolation must have double quotes
                    let hit = q != want;
                    // (an outer string around the place is none of ours)
                    let outer = pre.contains("#{") && want == '\'';
                    if pre.contains("#{") && (s.contains('"') || q == '"') { continue }
                    if !outer && pre.contains("#{") { continue }
                    let fixed = if hit && !s.contains(want) { format!("{pre}{want}{s}{want}{post}") } else { t.clone() };
                    lines.push(Judged { text: t, want: if hit { vec!["twig-string-quotation"] } else { vec![] }, fixed: Some(fixed) });
                }
            }
        }
        judge_lines(ctx, &format!("C29-twig-{}", want == '"'), &conf, lines);
        let mut conf = Conf::defaults().with_rules(&["html-string-quotation"]);
        conf.hq = want;
        let mut lines = vec![];
        let places = [("<p a=", "></p>"), ("<p b a=", " c></p>"), ("<input a=", " />"), ("<twig:c a=", "></twig:c>"), ("<p {% if x %}a=", " {% endif %}></p>"), ("<p {% if x %}b{% else %}a=", " {% endif %}></p>"), ("<script a=", "></script>"), ("<p :a=", "></p>"), ("<p a = ", " ></p>"), ("<p {% for x in y %} a=", " {% endfor %} c></p>"), ("<p {% if x %}{% if y %}@a=", " {% endif %}{% endif %}></p>")];
        for s in &attr {
            for q in ["'", "\"", ""] {
                if q.is_empty() && (s.contains([' ', '>', '/', '=', '"', '\'']) || s.is_empty()) { continue }
                if !q.is_empty() && s.contains(q) { continue }
                for (j, (pre, post)) in places.iter().enumerate() {
                    if j > 0 && s.chars().count() > 1 && !r.pct(20) { continue }
                    let l = format!("{q}{s}{q}");
                    let t = format!("{pre}{l}{post}");
                    if !node_at(&t, "HTML_STRING", pre.len(), pre.len() + l.len()) { continue }
                    let hit = q != want.to_string();
                    let fixed = if hit && !s.contains(want) { format!("{pre}{want}{s}{want}{post}") } else { t.clone() };
                    lines.push(Judged { text: t, want: if hit { vec!["html-string-quotation"] } else { vec![] }, fixed: Some(fixed) });
                }
            }
        }
        judge_lines(ctx, &format!("C29-html-{}", want == '"'), &conf, lines);
    }
}
pub fn c30_lines(ctx: &mut Ctx) {
    let ops = [("&&", "twig-logic-and", "and"), ("||", "twig-logic-or", "or"), ("===", "twig-use-is-same-as", "is same as"), ("!==", "twig-use-is-not-same-as", "is not same as")];
    let operands = ["a", "_x", "1", "1.5e3", "'s'", "\"t\"", "null", "true", "f()", "f(x, y)", "a.b", "a[b]", "a.b.c()", "a|g", "[1, 2]", "{k: v}", "(a)", "(a + b)", "-1", "\"#{a}\"", "constant('X')", "camelCase", "a|g('x')|h", "{}", "[]", "''"];
    let mut r = Rng::new(mix(ctx.seed, 0x30));
    let conf = Conf::defaults().with_rules(OPS);
    let mut lines = vec![];
    for (op, rule, word) in ops {
        for (pre, post) in TWIG_PLACES {
            for l in operands {
                for o in operands {
                    if !r.pct(if ctx.thorough { 30 } else { 3 }) && !(l == "a" && o == "a") { continue }
                    if pre.contains("#{") && (l.contains('"') || o.contains('"')) { continue }
                    let (s1, s2) = *r.pick(&[(" ", " "), (" ", " "), ("", ""), ("  ", " "), ("\t", "\t"), (" ", "")]);
                    let paren = r.pct(70) || pre.ends_with("a ") || !(pre.trim_start_matches(['{', '%', '<', '-', 'p', ' ']).is_empty() && (post.starts_with(' ') || post.starts_with('}') || post.starts_with('-')) && !post.contains("? ") && !post.contains("?? ") && !post.contains(" is ") && !post.contains("~ a") && !post.contains("in a"));
                    let e = format!("{l}{s1}{op}{s2}{o}");
                    let e = if paren { format!("({e})") } else { e };
                    let t = format!("{pre}{e}{post}");
                    let p = ludtwig_parser::parse(&t);
                    if !p.errors.is_empty() { continue }
                    let fixed = if s1 == " " && s2 == " " && l == "a" && o == "a" {
                        let n = if word.starts_with("is") { format!("a {word}(a)") } else { format!("a {word} a") };
                        Some(format!("{pre}{}{post}", if paren { format!("({n})") } else { n }))
                    } else { None };
                    lines.push(Judged { text: t, want: vec![rule], fixed });
                }
            }
            // near misses
            for (e, n) in [("a and b", 0), ("a or b", 0), ("a == b", 0), ("a != b", 0), ("a is same as(b)", 0), ("a is not same as(b)", 0), ("a b-and b", 0), ("'&&'", 0), ("'a === b'", 0), ("a is defined", 0)] {
                let e = format!("({e})");
                let t = format!("{pre}{e}{post}");
                if n == 0 && ludtwig_parser::parse(&t).errors.is_empty() { lines.push(Judged { text: t.clone(), want: vec![], fixed: Some(t) }) }
            }
        }
    }
    // several in one expression: each is reported
    for (e, n) in [("a && b && c", [2, 0, 0, 0]), ("a || b && c", [1, 1, 0, 0]), ("(a === b) && (c !== d)", [1, 0, 1, 1]), ("a === (b === c)", [0, 0, 2, 0]), ("f(a && b, c || d) || e", [1, 2, 0, 0]), ("a ? b && c : d || e", [1, 1, 0, 0]), ("{(a && b): c || d}", [1, 1, 0, 0]), ("[a !== b, c !== d]", [0, 0, 0, 2]), ("x|filter(y => y && z || w)", [1, 1, 0, 0]), ("not (a && not (b || c))", [1, 1, 0, 0]), ("\"#{a && b} #{c || d}\"", [1, 1, 0, 0])] {
        for (pre, post) in TWIG_PLACES {
            if pre.contains("#{") && e.contains('"') { continue }
            let t = format!("{pre}({e}){post}");
            if !ludtwig_parser::parse(&t).errors.is_empty() { continue }
            let want = ops.iter().zip(n).flat_map(|(o, k)| std::iter::repeat_n(o.1, k)).collect();
            lines.push(Judged { text: t, want, fixed: None });
        }
    }
    judge_lines(ctx, "C30-places", &conf, lines);
}
/// ids and block names: later occurrences of exactly the same text, among few or many
pub fn c31_large(ctx: &mut Ctx) {
    let nb = ctx.n(60, 1000);
    batches(ctx, nb, |r, b, o| {
        let conf = Conf::defaults().with_rules(DUPS);
        let mut texts = vec![];
        let mut wants: Vec<Vec<(usize, &str)>> = vec![];
        for _ in 0..6 {
            let n = *r.pick(&[3usize, 20, 130, 260, 300, 520, 1100]);
            let close = r.pct(60);
            let blocks = r.pct(50);
            let mut pool: Vec<String> = vec![];
            let mut seen: BTreeMap<String, usize> = BTreeMap::new();
            let (mut t, mut want) = (String::new(), vec![]);
            let mut depth: Vec<&str> = vec![];
            for i in 0..n {
                let name = match r.below(if i < 3 { 4 } else { 8 }) {
                    0..=3 => if close { near(r, &pool) } else { format!("n{i}") },
                    4 => format!("u{}", r.below(100_000)),
                    5 if !pool.is_empty() => pool[0].clone(),
                    _ if !pool.is_empty() && r.pct(30) => r.pick(&pool).clone(),
                    _ => format!("m{i}x"),
                };
                pool.push(name.clone());
                // one line each
                let line = if blocks {
                    match r.below(4) { 0 if depth.len() < 30 => { depth.push("{% endblock %}"); format!("{{% block {name} %}}") } 1 => format!("{{% block {name} 'short' %}}"), 2 => format!("<p>{{% if x %}}{{% block {name} %}}{{% endblock %}}{{% endif %}}</p>"), _ => format!("{{% block {name} %}}x{{% endblock %}}") }
                } else {
                    let q = *r.pick(&["'", "\"", "'", ""]);
                    match r.below(5) { 0 if depth.len() < 30 => { depth.push("</div>"); format!("<div id={q}{name}{q}>") } 1 => format!("<input id={q}{name}{q} />"), 2 => format!("<p {{% if x %}}id={q}{name}{q} {{% endif %}}></p>"), 3 => format!("<p class='{name}' data-id=\"{name}\" id={q}{name}{q}></p>"), _ => format!("<twig:C id={q}{name}{q}></twig:C>") }
                };
                let rule = if blocks { DUPS[0] } else { DUPS[1] };
                if seen.insert(name, i).is_some() { want.push((i + 1, rule)) }
                t.push_str(&line);
                t.push('\n');
                if !depth.is_empty() && r.pct(20) { let c = depth.pop().unwrap(); t.pop(); t.push_str(c); t.push('\n'); }
            }
            while let Some(c) = depth.pop() { t.push_str(c); }
            t.push('\n');
            texts.push(t);
            wants.push(want);
        }
        let dir = batch_dir(&format!("C31-l{b}"), &conf, &texts.iter().map(String::as_str).collect::<Vec<_>>());
        let run = Cmd::new(&dir).arg(".").run();
        rm(&dir);
        if let Some(e) = run.bad() { return o.bad(e, json!({"texts": texts})); }
        let by = run.by_path();
        for (i, want) in wants.iter().enumerate() {
            let mut got: Vec<(usize, &str)> = by.get(&fname(i)).into_iter().flatten().map(|d| (d.line, d.code.as_str())).collect();
            got.sort_unstable();
            if &got != want {
                let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
                let more: Vec<_> = got.iter().filter(|g| !want.contains(g)).take(3).collect();
                o.bad(format!("repeated names not reported: {miss:?}; reported without reason: {more:?}"), json!({"text": texts[i]}));
            }
            o.add("names_in_large_files", texts[i].lines().count());
            o.add("repetitions", want.len());
            o.evals.push((texts[i].clone(), !want.is_empty()));
        }
    });
}
/// a name that is almost one of the pool
fn near(r: &mut Rng, pool: &[String]) -> String {
    let base = if pool.is_empty() || r.pct(20) { (*r.pick(&["main", "my-id", "page_content", "a", "X", "item1", "_p", "aB"])).to_string() } else { r.pick(pool).clone() };
    let mut s = base;
    match r.below(8) {
        0 => s.push(*r.pick(&['a', '1', '_', 'Z'])),
        1 => s = s.to_uppercase(),
        2 => s = s.to_lowercase(),
        3 => s = s.replace('_', "-"),
        4 => s = s.replace('-', "_"),
        5 => { s.insert(0, 'p'); }
        6 => { if s.len() > 2 { s.pop(); } }
        _ => s = format!("{s}{}", r.below(30)),
    }
    if s.len() > 30 { s.truncate(20) }
    // a name of a block and an id without quotes alike
    if !s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') { s.insert(0, 'k') }
    s
}
/// every known name and its neighbours, in every place; lists of any order and length
pub fn c32_lines(ctx: &mut Ctx) {
    let mut r = Rng::new(mix(ctx.seed, 0x32));
    for round in 0..ctx.n(3, 24) {
        let mut conf = Conf::defaults().with_rules(VALID);
        if round > 0 {
            // lists of one's own
            for v in [&mut conf.filters, &mut conf.tests, &mut conf.functions] {
                let n = *r.pick(&[0usize, 1, 5, 70, 300]);
                let mut l: Vec<String> = (0..n).map(|_| { let k = r.range(1, 12); let mut s: String = (0..k).map(|_| *r.pick(&['a', 'b', 'x', '_', 'Z', '1', 'e', 't'])).collect(); if s.starts_with('1') { s.insert(0, 'q') } s }).collect();
                if r.pct(60) { l.extend(v.iter().take(r.below(60)).cloned()) }
                if r.pct(20) { l.push(String::new()) }
                if r.pct(20) && !l.is_empty() { let x = l[0].clone(); l.push(x) }
                match r.below(3) { 0 => l.sort(), 1 => { l.sort(); l.reverse() } _ => {} }
                *v = l;
            }
        }
        let uniq = |v: &[String]| -> Vec<String> { let mut v: Vec<String> = v.iter().filter(|s| !s.is_empty()).cloned().collect(); v.sort(); v.dedup(); v };
        let mut lines = vec![];
        let mut around = |list: &[String], r: &mut Rng| -> Vec<String> {
            let mut out = uniq(list);
            for n in out.clone() {
                if out.len() > 400 && !r.pct(40) { continue }
                let mut c: Vec<char> = n.chars().collect();
                match r.below(6) {
                    0 => { let k = r.below(c.len() + 1); c.insert(k, *r.pick(&['a', 's', '_', 'E'])); }
                    1 => { if c.len() > 1 { c.remove(r.below(c.len())); } }
                    2 => { let k = r.below(c.len()); c[k] = if c[k].is_ascii_uppercase() { c[k].to_ascii_lowercase() } else { c[k].to_ascii_uppercase() }; }
                    3 => c.extend("_x".chars()),
                    4 => { if c.len() > 1 { let k = r.below(c.len() - 1); c.swap(k, k + 1); } }
                    _ => { c.truncate(c.len().div_ceil(2)); }
                }
                out.push(c.into_iter().collect());
            }
            for d in [oracle::DEF_FILTERS, oracle::DEF_FUNCTIONS, oracle::DEF_TESTS] { out.push((*r.pick(d)).to_string()) }
            out
        };
        let (fl, fu, te) = (around(&conf.filters, &mut r), around(&conf.functions, &mut r), around(&conf.tests, &mut r));
        let fits = |e: &str, kind: &str, name: &str| {
            // the construct must be what it is meant to be
            use ludtwig_parser::syntax::untyped::SyntaxNode;
            let p = ludtwig_parser::parse(&format!("{{{{ {e} }}}}"));
            p.errors.is_empty() && SyntaxNode::new_root(p.green_node).descendants().any(|n| crate::sk::kind_name(n.kind()) == kind && n.text().to_string().contains(name))
        };
        let place = |r: &mut Rng| loop { let p = *r.pick(TWIG_PLACES); if !p.0.contains("#{") && !p.0.contains("f(") && !p.0.contains("|map") && !p.1.contains("|f") && !p.0.contains("|f") { break p } };
        for n in &fl {
            if !oracle::plain_name(n) { continue }
            let known = conf.filters.contains(n);
            for form in ["a|N", "(a|N(1, b))", "(a|N|N)", "('x'|N)", "f0|N", "(a.b|N == 1)", "[a|N]", "{k: a|N}", "\"#{a|N}\""] {
                if !r.pct(35) { continue }
                let e = form.replace('N', n);
                if !fits(&e, "TWIG_FILTER", n) { continue }
                let (pre, post) = place(&mut r);
                let t = format!("{pre}{}{post}", if e.starts_with('(') || e.starts_with('[') || e.starts_with('{') || e.starts_with('"') { e.clone() } else { format!("({e})") });
                if !ludtwig_parser::parse(&t).errors.is_empty() { continue }
                let k = if known { 0 } else { form.matches("|N").count() };
                let mut want = vec!["twig-valid-filter"; k];
                want.extend(place_extra(pre, post, &conf));
                lines.push(Judged { text: t.clone(), want, fixed: Some(t) });
            }
            for (pre, post, cnt) in [("{% apply ", " %}x{% endapply %}", 1), ("{% apply a0|", " %}x{% endapply %}", 1), ("{% apply ", "(1) %}x{% endapply %}", 1)] {
                let t = format!("{pre}{n}{post}");
                if !r.pct(40) || !ludtwig_parser::parse(&t).errors.is_empty() { continue }
                let mut want = vec!["twig-valid-filter"; if known { 0 } else { cnt }];
                if pre.contains("a0") && !conf.filters.iter().any(|f| f == "a0") { want.push("twig-valid-filter") }
                lines.push(Judged { text: t, want, fixed: None });
            }
        }
        for n in &fu {
            if !oracle::plain_name(n) { continue }
            let known = conf.functions.contains(n);
            for form in ["N()", "(N(1, b))", "[N(x=1)]", "{k: N(a)}", "(a ? N() : N(b))", "(N().b)", "(N()[0])", "\"#{N()}\"", "(not N())", "N(N())", "(a.m(N()))"] {
                if !r.pct(35) { continue }
                let e = form.replace('N', n);
                if !fits(&e, "TWIG_FUNCTION_CALL", n) { continue }
                let (pre, post) = place(&mut r);
                let t = format!("{pre}{e}{post}");
                if !ludtwig_parser::parse(&t).errors.is_empty() { continue }
                let k = if known { 0 } else { form.matches("N(").count() };
                let mut want = vec!["twig-valid-function"; k];
                want.extend(place_extra(pre, post, &conf));
                lines.push(Judged { text: t.clone(), want, fixed: Some(t) });
            }
        }
        for n in &te {
            if !oracle::plain_name(n.split(' ').next().unwrap_or("")) { continue }
            let known = conf.tests.contains(n);
            for form in ["(a is N)", "(a is not N)", "(a is N ? b : c)", "(a is N and b)", "[a is N]", "(a is N(1))"] {
                if !r.pct(50) { continue }
                let e = form.replace('N', n);
                // what counts is how the test is spelled
                if n.contains(' ') || !fits(&e, "TWIG_BINARY_EXPRESSION", n) { continue }
                let (pre, post) = place(&mut r);
                if pre.contains(" is ") || post.contains(" is ") { continue }
                let t = format!("{pre}{e}{post}");
                if !ludtwig_parser::parse(&t).errors.is_empty() { continue }
                let mut want = vec!["twig-valid-test"; usize::from(!known)];
                want.extend(place_extra(pre, post, &conf));
                lines.push(Judged { text: t.clone(), want, fixed: Some(t) });
            }
        }
        judge_lines(ctx, &format!("C32-names-{round}"), &conf, lines);
    }
}
/// what the place itself contributes
fn place_extra(pre: &str, post: &str, conf: &Conf) -> Vec<&'static str> {
    let t = format!("{pre}x{post}");
    let mut v = vec![];
    for (txt, name) in [("is defined", "defined"), ("is divisible by", "divisible by")] {
        if t.contains(txt) && !conf.tests.iter().any(|x| x == name) { v.push("twig-valid-test") }
    }
    v
}

//! Checks over the parser library.
use crate::corpus;
use crate::gen_::{self as docgen, Cfg, Doc, E};
use crate::sk::{self, Sk};
use crate::util::*;
use ludtwig_parser::ParseError;
use ludtwig_parser::syntax::untyped::{debug_tree, SyntaxElement, SyntaxKind, SyntaxNode};
use serde_json::json;
use std::collections::BTreeMap;

pub struct Parsed {
    pub root: SyntaxNode,
    pub errors: Vec<ParseError>,
}
/// `None` when the parser panicked (which C02 decides)
pub fn parse(t: &str) -> Option<Parsed> {
    std::panic::catch_unwind(|| ludtwig_parser::parse(t)).ok().map(|p| {
        let (root, errors) = p.split();
        Parsed { root, errors }
    })
}
pub fn errs(e: &[ParseError]) -> Vec<String> {
    e.iter().map(|e| e.to_string()).collect()
}

// ------------------------------------------------------------------ C01
/// walk monitor: returns a complaint when the tree is not an exact tiling of the text
fn lossless(text: &str, root: &SyntaxNode) -> (Option<String>, u64, u64) {
    let mut out = String::with_capacity(text.len());
    let (mut toks, mut nodes) = (0u64, 0u64);
    fn walk(n: &SyntaxNode, text: &str, out: &mut String, toks: &mut u64, nodes: &mut u64) -> Option<String> {
        *nodes += 1;
        let r = n.text_range();
        let mut pos = r.start();
        for c in n.children_with_tokens() {
            let cr = c.text_range();
            if cr.start() != pos {
                return Some(format!("child {:?} of {:?} starts at {:?}, expected {:?}", c.kind(), n.kind(), cr.start(), pos));
            }
            pos = cr.end();
            match c {
                SyntaxElement::Node(m) => {
                    if let Some(e) = walk(&m, text, out, toks, nodes) {
                        return Some(e);
                    }
                }
                SyntaxElement::Token(t) => {
                    *toks += 1;
                    if t.text().is_empty() {
                        return Some(format!("empty token {:?} at {:?}", t.kind(), cr));
                    }
                    let (a, b) = (usize::from(cr.start()), usize::from(cr.end()));
                    if text.get(a..b) != Some(t.text()) {
                        return Some(format!("token {:?} at {:?} has text {:?}, the input has {:?}", t.kind(), cr, t.text(), text.get(a..b)));
                    }
                    out.push_str(t.text());
                }
            }
        }
        if pos != r.end() {
            return Some(format!("node {:?} ends at {:?}, its children at {:?}", n.kind(), r.end(), pos));
        }
        None
    }
    let e = walk(root, text, &mut out, &mut toks, &mut nodes);
    let e = e.or_else(|| {
        if out != text {
            let i = out.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
            Some(format!("concatenated tokens differ from the input at byte {i} (lengths {} and {})", out.len(), text.len()))
        } else if usize::from(root.text_range().len()) != text.len() || usize::from(root.text_range().start()) != 0 {
            Some(format!("root range is {:?} for a text of {} bytes", root.text_range(), text.len()))
        } else if root.text() != text {
            Some("root text differs from the input".to_string())
        } else {
            None
        }
    });
    (e, toks, nodes)
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "distinct input texts whose tree was walked token by token and compared byte by byte".into();
    let n = ctx.n(500_000, 1_500_000);
    let seed = ctx.seed;
    let mut extra: Vec<String> = corpus::SNIPPETS.iter().map(|s| s.to_string()).collect();
    extra.push("long ".repeat(20_000));
    extra.push("\r\n \n\t".repeat(20_000));
    extra.push("<p>ü{{ a }}</p>\r\n".repeat(3000));
    extra.push("{% if".repeat(3000));
    // all pairs of vocabulary tokens, glued and spaced
    for a in corpus::VOCAB { for b in corpus::VOCAB { extra.push(format!("{a}{b}")); } }
    let chunk = 500;
    let total = n + extra.len();
    let res = par_map(total.div_ceil(chunk), |c| {
        let mut v: Vec<(u64, Option<(String, String)>, u64, u64, &'static str, bool)> = vec![];
        for i in c * chunk..((c + 1) * chunk).min(total) {
            let (k, t) = if i < n { corpus::hostile(mix(seed, i as u64)) } else { ("fixed", extra[i - n].clone()) };
            let Some(p) = parse(&t) else { v.push((hash(&t), None, 0, 0, "panicked", false)); continue };
            let (e, tk, nd) = lossless(&t, &p.root);
            v.push((hash(&t), e.map(|e| (e, t.clone())), tk, nd, k, t.is_ascii()));
        }
        v
    });
    for (h, e, tk, nd, k, ascii) in res.into_iter().flatten() {
        ctx.count(&format!("inputs_{k}"), 1);
        if k == "panicked" { continue; }
        ctx.evals += 1;
        ctx.distinct.insert(h);
        ctx.count("tokens_compared", tk);
        ctx.count("nodes_compared", nd);
        if !ascii { ctx.count("inputs_non_ascii", 1); }
        if let Some((e, t)) = e {
            ctx.violation(&format!("tree is not lossless: {e}"), json!({"input": t}));
        }
    }
    ctx.sample(json!({"input": cut(&corpus::hostile(mix(seed, 3)).1, 200)}));
    ctx.assumptions.push("inputs are at most a few hundred kilobytes long".into());
}

// ------------------------------------------------------------------ C02
/// worker: parses cases [from, to) journalling the index of the current one
pub fn c02_case(seed: u64, i: u64) -> String {
    if i % 4 == 3 {
        // every prefix of a document: document number i / 4 / 64, step i / 4 % 64
        let j = i / 4;
        let mut r = Rng::new(mix(seed, j / 64));
        let mut c = corpus::random_cfg(&mut r);
        c.fuel = 8;
        c.max_expr = 2;
        let t = docgen::document(r.next(), r.next(), &c).text;
        // tail part: the last construct is cut at every boundary
        let k = (t.len() * (j % 64) as usize) / 63;
        let e = corpus::boundary(&t, k);
        return t[..e].to_string();
    }
    corpus::hostile(mix(seed, i)).1
}
pub fn nest_families() -> Vec<(&'static str, &'static str, &'static str, &'static str)> {
    vec![
        ("", "<div>", "a", "</div>"), ("", "{% if a %}", "b", "{% endif %}"), ("", "{% block a %}", "b", "{% endblock %}"), ("", "{% for a in b %}", "b", "{% endfor %}"),
        ("", "<div>{% if a %}", "b", "{% endif %}</div>"), ("<a ", "{% if a %}", "b=\"c\"", "{% endif %}"), ("<a b=\"", "{% if a %}", "c", "{% endif %}"), ("<script>", "{% if a %}", "c", "{% endif %}"),
        ("{{ ", "(", "a", ")"), ("{{ ", "[", "a", "]"), ("{{ ", "{a: ", "b", "}"), ("{{ ", "f(", "b", ")"), ("{{ ", "a[", "b", "]"), ("{{ ", "a|f(", "b", ")"), ("{{ ", "a.b(", "b", ")"),
        ("{{ ", "\"#{", "a", "}\""), ("{{ ", "not ", "a", ""), ("{{ ", "- ", "a", ""), ("{{ ", "a ? ", "b", " : c"), ("{{ ", "a ? b : ", "c", ""), ("{{ ", "a ?? ", "b", ""), ("{{ ", "a ** ", "b", ""),
        ("{{ ", "a|map(x => ", "b", ")"), ("{{ ", "a is same as ", "b", ""), ("{{ ", "(a, b) => ", "c", ""), ("{{ ", "a + (", "c", ")"), ("{% set a = ", "[{a: (", "b", ")}]"),
        ("", "{% set a %}", "b", "{% endset %}"), ("", "{% apply a %}", "b", "{% endapply %}"), ("", "{% embed 'a' %}", "b", "{% endembed %}"), ("", "{% if a %}x{% else %}", "b", "{% endif %}"),
        ("", "<div a=\"{{ b }}\">", "c", "</div>"), ("{{ ", "...", "a", ""), ("{{ ", "x(a=", "b", ")"), ("{{ ", "{(", "b", "): 1}"), ("", "{% component a %}", "b", "{% endcomponent %}"), ("", "{% macro a(b) %}", "b", "{% endmacro %}"),
    ]
}
fn c02_nest(i: usize) -> Option<String> {
    let f = nest_families();
    let (fam, v) = (i / 8, i % 8);
    let (p, o, m, c) = *f.get(fam)?;
    let d = 25;
    Some(match v {
        0 => format!("{p}{}{m}{}", o.repeat(d), c.repeat(d)),
        1 => format!("{p}{}{m}", o.repeat(d)),
        2 => format!("{p}{}", o.repeat(d)),
        3 => format!("{p}{}{m}{} }}}} %}}>", o.repeat(d), c.repeat(d)),
        4 => format!("{p}{}{m}{}", o.repeat(d), c.repeat(d + 2)),
        5 => format!("{p}{}{m}{}", o.repeat(12), c.repeat(25)),
        6 => format!("{p}{}}}}} {m} %}}", o.repeat(d)),
        _ => format!("{}{p}{}{m}{}", "<div>{% if x %}".repeat(6), o.repeat(12), c.repeat(12)),
    })
}
pub fn c02_text(seed: u64, i: u64) -> String {
    let nn = (nest_families().len() * 8) as u64;
    if i < nn { return c02_nest(i as usize).unwrap(); }
    let i = i - nn;
    if i < corpus::SNIPPETS.len() as u64 { return corpus::SNIPPETS[i as usize].to_string(); }
    c02_case(seed, i - corpus::SNIPPETS.len() as u64)
}
pub fn c02_worker(args: &[String]) {
    use std::os::unix::fs::FileExt;
    let seed: u64 = args[0].parse().unwrap();
    let (from, to, step): (u64, u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap());
    let j = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&args[4]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    // the default stack of a thread
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let mut i = from;
        let (mut n, mut errs, mut maxlen, mut h) = (0u64, 0u64, 0usize, 0u64);
        while i < to {
            let t = c02_text(seed, i);
            let _ = j.write_at(format!("{i:>20} run \n").as_bytes(), 0);
            match std::panic::catch_unwind(|| ludtwig_parser::parse(&t)) {
                Ok(p) => {
                    errs += p.errors.len() as u64;
                    let (root, e) = p.split();
                    // the results are usable as well
                    for x in e { let _ = x.expected_message(); }
                    h = mix(h, u64::from(u32::from(root.text_range().end())));
                }
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    println!("PANIC {i} {}", m.replace('\n', " "));
                }
            }
            maxlen = maxlen.max(t.len());
            n += 1;
            println!("H {:x}", hash(&t));
            i += step;
        }
        println!("DONE {n} {errs} {maxlen} {h}");
    }).unwrap();
    if h.join().is_err() { std::process::exit(9); }
}
pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "distinct input texts parsed to completion on a 2 MiB stack in a monitored process".into();
    let n = ctx.n(500_000, 1_600_000) as u64;
    let exe = std::env::current_exe().unwrap();
    let dir = scratch("c02");
    let seed = ctx.seed;
    let workers = 8u64;
    let res = par_map(workers as usize, |w| {
        let mut out = vec![];
        let mut from = w as u64;
        let mut crashes = 0;
        while from < n && crashes < 3 {
            let jf = dir.join(format!("j{w}"));
            let of = dir.join(format!("o{w}-{from}"));
            let mut ch = std::process::Command::new(&exe)
                .args(["worker-c02", &seed.to_string(), &from.to_string(), &n.to_string(), &workers.to_string(), jf.to_str().unwrap()])
                .stdout(std::fs::File::create(&of).unwrap()).stderr(std::process::Stdio::null()).spawn().unwrap();
            let mut last = (u64::MAX, std::time::Instant::now());
            let cur = || -> u64 { std::fs::read_to_string(&jf).ok().and_then(|s| s.split_whitespace().next().and_then(|x| x.parse().ok())).unwrap_or(from) };
            let verdict = loop {
                if let Some(st) = ch.try_wait().unwrap() {
                    break if st.success() { None } else { Some(format!("process died: {st}")) };
                }
                let c = cur();
                if c != last.0 { last = (c, std::time::Instant::now()); }
                // far above anything a finite parse of such a small text can take
                if last.1.elapsed().as_secs() > 40 {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break Some("does not terminate (no result after 40 s)".to_string());
                }
                std::thread::sleep(std::time::Duration::from_millis(20));
            };
            out.push((std::fs::read_to_string(&of).unwrap_or_default(), verdict.clone().map(|v| (cur(), v))));
            match verdict {
                None => break,
                Some(_) => { crashes += 1; from = cur() + workers; }
            }
        }
        out
    });
    for (o, v) in res.into_iter().flatten() {
        for l in o.lines() {
            if let Some(r) = l.strip_prefix("H ") {
                ctx.evals += 1;
                ctx.distinct.insert(u64::from_str_radix(r, 16).unwrap_or(0));
            } else if let Some(r) = l.strip_prefix("PANIC ") {
                let (i, m) = r.split_once(' ').unwrap_or((r, ""));
                let t = c02_text(seed, i.parse().unwrap_or(0));
                ctx.violation(&format!("the parser panicked: {m}"), json!({"input": t}));
            } else if let Some(r) = l.strip_prefix("DONE ") {
                let f: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                ctx.count("syntax_errors_returned", f[1]);
                let m = ctx.get("longest_input").max(f[2]);
                ctx.extra.insert("longest_input".into(), json!(m));
            }
        }
        if let Some((i, v)) = v {
            let t = c02_text(seed, i);
            ctx.violation(&format!("the parser did not return: {v}"), json!({"input": t}));
        }
    }
    // unbounded repetition without nesting on the small stack
    let flat = ["a ", "<br>", "{{ a }}", "{% set a = 1 %}", "<!-- a -->", "{# a #}", "<p>a</p>", "&amp;", "ü", "\n", "</a>", "{% endif %}", "{% if %}{% endif %}", ">", "\"", "{% foo %}"];
    for f in flat {
        let t = f.repeat(20_000);
        let ok = std::thread::Builder::new().stack_size(2 << 20).spawn(move || std::panic::catch_unwind(|| ludtwig_parser::parse(&t).errors.len()).is_ok()).unwrap().join().unwrap_or(false);
        ctx.eval(&f.repeat(20));
        if !ok { ctx.violation("the parser panicked on a long flat input", json!({"input_unit": f, "times": 20000})); }
    }
    ctx.extra.insert("nesting_families".into(), json!(nest_families().len()));
    ctx.sample(json!({"input": cut(&c02_text(seed, 900), 200)}));
    let _ = std::fs::remove_dir_all(&dir);
    ctx.assumptions.push("nesting depth is at most 25; debug assertions and overflow checks are enabled in the monitored build".into());
}

// ------------------------------------------------------------------ C04
fn digest(t: &str) -> Option<u64> {
    std::panic::catch_unwind(|| hash(&ludtwig_parser::parse(t).debug_parse())).ok()
}
fn c04_texts(seed: u64, n: usize) -> Vec<String> {
    (0..n).map(|i| corpus::hostile(mix(seed ^ 0x44, i as u64)).1).collect()
}
/// worker process: digests in the order given by a shuffle seed
pub fn c04_worker(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let (seed, n, order): (u64, usize, u64) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap());
    let t = c04_texts(seed, n);
    let mut idx: Vec<usize> = (0..n).collect();
    Rng::new(order).shuffle(&mut idx);
    for i in idx { println!("{i} {:x}", digest(&t[i]).unwrap_or(0)); }
}
/// texts that differ from `t` in one token of the same length but of another class
fn c04_variants(t: &str, rng: &mut Rng, n: usize) -> Vec<String> {
    let Some(p) = parse(t) else { return vec![] };
    let toks: Vec<(usize, usize)> = p.root.descendants_with_tokens().filter_map(|e| e.into_token())
        .map(|t| (usize::from(t.text_range().start()), usize::from(t.text_range().end()))).filter(|(a, b)| b > a && b - a <= 12).collect();
    if toks.is_empty() { return vec![]; }
    let mut out = vec![];
    for _ in 0..n {
        let (a, b) = toks[rng.below(toks.len())];
        let len = b - a;
        let mut c: Vec<String> = corpus::VOCAB.iter().filter(|v| v.len() == len && **v != &t[a..b]).map(|v| v.to_string()).collect();
        c.push("x".repeat(len)); c.push("7".repeat(len)); c.push(" ".repeat(len)); c.push("-".repeat(len)); c.push("Q_".repeat(len)[..len].to_string());
        let r = c[rng.below(c.len())].clone();
        let v = format!("{}{r}{}", &t[..a], &t[b..]);
        if v != t { out.push(v); }
    }
    out
}
fn c04_same_buffer(ctx: &mut Ctx, texts: &[String]) {
    let seed = ctx.seed;
    let small: Vec<&String> = texts.iter().filter(|t| t.len() >= 4 && t.len() <= 3000).collect();
    let res = par_map(small.len().div_ceil(50), |c| {
        let mut out = vec![];
        let mut buffer = vec![0u8; 4096];
        for i in c * 50..((c + 1) * 50).min(small.len()) {
            let mut rng = Rng::new(mix(seed ^ 0x4b, i as u64));
            // each text in memory of its own, never given back while the check runs
            let mut family: Vec<String> = vec![small[i].clone()];
            family.extend(c04_variants(small[i], &mut rng, 6));
            let v: Vec<String> = c04_variants(family.last().unwrap(), &mut rng, 3);
            family.extend(v);
            let refs: Vec<u64> = family.iter().map(|t| digest(t).unwrap_or(0)).collect();
            let mut order: Vec<usize> = (0..family.len()).chain(0..family.len()).collect();
            rng.shuffle(&mut order);
            for k in order {
                let t = &family[k];
                buffer[..t.len()].copy_from_slice(t.as_bytes());
                let here = std::str::from_utf8(&buffer[..t.len()]).unwrap();
                out.push((k, hash(t), (digest(here).unwrap_or(0) != refs[k]).then(|| t.clone())));
            }
            std::mem::forget(family);
        }
        out
    });
    for (_, h, bad) in res.into_iter().flatten() {
        ctx.evals += 1;
        ctx.distinct.insert(h);
        ctx.count("same_buffer_comparisons", 1);
        if let Some(t) = bad { ctx.violation("parsing the same text gave a different tree or different errors (from memory that held another text before)", json!({"input": t})); }
    }
}
pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "distinct texts whose tree and errors were compared across repetitions, orders, threads and processes".into();
    let n = ctx.n(4_000, 30_000);
    let seed = ctx.seed;
    let texts = c04_texts(seed, n);
    // first: fresh process, natural order
    let exe = std::env::current_exe().unwrap();
    let run = |order: u64| -> BTreeMap<usize, u64> {
        let o = std::process::Command::new(&exe).args(["worker-c04", &seed.to_string(), &n.to_string(), &order.to_string()]).output().unwrap();
        String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| { let (a, b) = l.split_once(' ')?; Some((a.parse().ok()?, u64::from_str_radix(b, 16).ok()?)) }).collect()
    };
    let reference: Vec<u64> = texts.iter().map(|t| digest(t).unwrap_or(0)).collect();
    for t in &texts { ctx.eval(t); }
    let bad = |ctx: &mut Ctx, i: usize, how: &str| {
        ctx.violation(&format!("parsing the same text gave a different tree or different errors ({how})"), json!({"input": texts[i], "reference": format!("{}", parse(&texts[i]).map(|p| debug_tree(&p.root)).unwrap_or_default())}));
    };
    let procs = ctx.n(4, 16);
    let got = par_map(procs, |k| run(mix(seed, k as u64)));
    for m in got {
        if m.len() != n { ctx.count("incomplete_process_runs", 1); }
        ctx.count("process_comparisons", m.len() as u64);
        for (i, d) in m { if d != reference[i] { bad(ctx, i, "other process and order"); } }
    }
    // repetition in the same process
    for _ in 0..2 {
        for (i, t) in texts.iter().enumerate() {
            ctx.count("repeat_comparisons", 1);
            if digest(t).unwrap_or(0) != reference[i] { bad(ctx, i, "repeated in the same process"); }
        }
    }
    // one buffer that is refilled: the same addresses hold different texts of the same shape
    c04_same_buffer(ctx, &texts);
    // concurrent: all threads parse the same and different texts at the same time in different orders
    let rounds = ctx.n(6, 40);
    for r in 0..rounds {
        let threads = 2 + (r % 7);
        let barrier = std::sync::Barrier::new(threads);
        let bads = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| {
            for k in 0..threads {
                let (barrier, bads, texts, reference) = (&barrier, &bads, &texts, &reference);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let mut idx: Vec<usize> = (0..texts.len()).collect();
                    let mut rng = Rng::new(mix(seed + r as u64, if r % 2 == 0 { k as u64 } else { 0 }));
                    rng.shuffle(&mut idx);
                    barrier.wait();
                    for i in idx {
                        if digest(&texts[i]).unwrap_or(0) != reference[i] { bads.lock().unwrap().push(i); }
                        if rng.pct(1) { std::thread::yield_now(); }
                    }
                }).unwrap();
            }
        });
        ctx.count("concurrent_comparisons", (threads * n) as u64);
        ctx.count("concurrent_rounds", 1);
        for i in bads.into_inner().unwrap() { bad(ctx, i, &format!("{threads} concurrent threads")); }
    }
    ctx.sample(json!({"input": cut(&texts[5], 200), "digest": format!("{:x}", reference[5])}));
}

// ------------------------------------------------------------------ C05
pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "distinct texts for which at least one syntax error was returned and checked".into();
    let n = ctx.n(400_000, 1_200_000);
    let seed = ctx.seed;
    let chunk = 500;
    let fixed: Vec<String> = corpus::SNIPPETS.iter().flat_map(|s| ["", " ", "\n\n", " ü", "\r\n", "<p></p>", "{{ a }}"].map(|x| format!("{s}{x}"))).collect();
    let total = n + fixed.len();
    let res = par_map(total.div_ceil(chunk), |c| {
        let mut v = vec![];
        for i in c * chunk..((c + 1) * chunk).min(total) {
            let t = if i < n { corpus::hostile(mix(seed ^ 5, i as u64)).1 } else { fixed[i - n].clone() };
            let Some(p) = parse(&t) else { continue };
            let mut bad: Option<String> = None;
            // token boundaries of the tree
            let toks: std::collections::BTreeMap<usize, (usize, SyntaxKind)> = p.root.descendants_with_tokens().filter_map(|e| e.into_token())
                .map(|t| (usize::from(t.text_range().start()), (usize::from(t.text_range().end()), t.kind()))).collect();
            let last = toks.iter().next_back().map(|(a, (b, _))| (*a, *b));
            let mut prev = 0usize;
            for e in &p.errors {
                let (a, b) = (usize::from(e.range.start()), usize::from(e.range.end()));
                let m = e.expected_message();
                if b > t.len() || a > b { bad = Some(format!("location {a}..{b} is outside the text of {} bytes", t.len())); break; }
                if !t.is_char_boundary(a) || !t.is_char_boundary(b) { bad = Some(format!("location {a}..{b} is not on character boundaries")); break; }
                if e.expected.trim().is_empty() || !m.starts_with("expected ") { bad = Some(format!("message says nothing: {m:?}")); break; }
                // the location lies within one token of the text and the message names what was found there
                let at = toks.range(..=a).next_back().map(|(x, (y, k))| (*x, *y, *k));
                match (e.found, at) {
                    (Some(f), Some((_, tb, _))) => {
                        if b > tb || a == b { bad = Some(format!("location {a}..{b} is not a token of the text")); break; }
                        let s = f.to_string();
                        let found_text = &t[a..b];
                        // tokens with a fixed spelling are named by it
                        let letters = s.chars().any(|c| c.is_ascii_alphabetic());
                        let fixed = (!letters && !s.is_empty()) || (s != "DOCTYPE" && corpus::VOCAB.contains(&s.as_str()));
                        let text_fixed = !found_text.chars().any(|c| c.is_ascii_alphanumeric()) && corpus::VOCAB.contains(&found_text) && found_text.is_ascii() && found_text.chars().all(|c| c.is_ascii_punctuation());
                        if (fixed || text_fixed) && !s.eq_ignore_ascii_case(found_text) && s != "unknown" && s != "number" && s != "word" { bad = Some(format!("message {m:?} but the text at {a}..{b} is {found_text:?}")); break; }
                        if f.is_trivia() || found_text.bytes().all(|c| matches!(c, b' ' | b'\t' | b'\n')) { bad = Some(format!("error located at whitespace: {m:?}")); break; }
                    }
                    (None, _) => {
                        if b != t.len() || last.is_none_or(|l| a < l.0) { bad = Some(format!("end of file error located at {a}..{b} instead of the last token {last:?}")); break; }
                    }
                    (Some(_), None) => { bad = Some(format!("location {a}..{b} is not a token of the text")); break; }
                }
                if a < prev { bad = Some(format!("errors do not follow the text: an error at {a} after one at {prev}")); break; }
                prev = a;
            }
            let err_nodes = p.root.descendants().filter(|n| n.kind() == SyntaxKind::ERROR).count();
            if bad.is_none() && err_nodes > 0 && p.errors.is_empty() { bad = Some(format!("{err_nodes} error regions but no syntax error was reported")); }
            // same text again: same errors in the same order
            if bad.is_none() && i % 4 == 0 {
                if let Some(q) = parse(&t) { if errs(&q.errors) != errs(&p.errors) { bad = Some("errors differ between two parses".into()); } }
            }
            let es = errs(&p.errors);
            v.push((hash(&t), p.errors.len(), err_nodes, bad.map(|b| (b, t.clone(), es)), t.is_ascii()));
        }
        v
    });
    for (h, ne, en, bad, ascii) in res.into_iter().flatten() {
        ctx.evals += 1;
        if ne > 0 { ctx.distinct.insert(h); }
        ctx.count("errors_checked", ne as u64);
        ctx.count("error_regions_checked", en as u64);
        if !ascii && ne > 0 { ctx.count("erroneous_non_ascii_inputs", 1); }
        if let Some((b, t, e)) = bad { ctx.violation(&b, json!({"input": t, "errors": e})); }
    }
    ctx.sample(json!({"input": "{% if %}", "errors": parse("{% if %}").map(|p| errs(&p.errors))}));
}

// ------------------------------------------------------------------ structure
pub fn show_diff(d: &Doc, p: &Parsed) -> Option<String> {
    if !p.errors.is_empty() {
        return Some(format!("syntax errors for a well-formed document: {}", errs(&p.errors)[0]));
    }
    let got = sk::of_node(&p.root);
    if got == d.tree { None } else { Some(format!("structure differs (expected first, parsed second): {}", sk::diff(&d.tree, &got).unwrap_or_default())) }
}

fn structural(ctx: &mut Ctx, n: usize, make: &(dyn Fn(u64) -> Doc + Sync), interesting: &[&str]) {
    let seed = ctx.seed;
    let res = par_map(n.div_ceil(100), |c| {
        let mut v = vec![];
        for i in c * 100..((c + 1) * 100).min(n) {
            let d = make(mix(seed, i as u64));
            let Some(p) = parse(&d.text) else { v.push((hash(&d.text), None, None, d.text.clone())); continue };
            let mut k = BTreeMap::new();
            d.tree.kinds(&mut k);
            v.push((hash(&d.text), Some(k), show_diff(&d, &p), d.text));
        }
        v
    });
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for (h, k, bad, text) in res.into_iter().flatten() {
        let Some(k) = k else { ctx.count("panicked_inputs", 1); continue };
        ctx.evals += 1;
        if interesting.is_empty() || k.keys().any(|x| interesting.iter().any(|y| x.starts_with(y))) { ctx.distinct.insert(h); }
        for (a, b) in k { *kinds.entry(a).or_default() += b; }
        if ctx.samples.is_empty() && text.len() < 300 { ctx.sample(json!({"document": text})); }
        if let Some(b) = bad { ctx.violation(&b, json!({"document": text})); }
    }
    let mut all: BTreeMap<String, u64> = ctx.extra.get("nodes_compared_by_kind").and_then(|v| serde_json::from_value(v.clone()).ok()).unwrap_or_default();
    for (a, b) in kinds { *all.entry(a).or_default() += b; }
    ctx.extra.insert("nodes_compared_by_kind".into(), json!(all));
}

fn nm(s: &str) -> E { E::Name(s.into()) }

/// all combinations of two binary operators, in both association orders, with unary, test and postfix operands
fn expr_matrix() -> Vec<E> {
    use docgen::{bin, un, test, BINOPS};
    let mut v = vec![];
    let post = |e: E| E::Filter(Box::new(e), "f".into(), None);
    for (a, ..) in BINOPS {
        for (b, ..) in BINOPS {
            v.push(bin(b, bin(a, nm("x"), nm("y")), nm("z")));
            v.push(bin(a, nm("x"), bin(b, nm("y"), nm("z"))));
            v.push(bin(a, un("-", nm("x")), bin(b, un("not", nm("y")), post(nm("z")))));
            for (c, ..) in [("or", 0), ("==", 0), ("+", 0), ("**", 0), ("??", 0), ("~", 0)] {
                v.push(bin(c, bin(b, bin(a, nm("w"), nm("x")), nm("y")), nm("z")));
                v.push(bin(a, nm("w"), bin(b, nm("x"), bin(c, nm("y"), nm("z")))));
            }
        }
        for t in ["defined", "same as", "null"] {
            for neg in [false, true] {
                let args = (t == "same as").then(|| vec![docgen::Arg::Pos(nm("q"))]);
                v.push(test(bin(a, nm("x"), nm("y")), neg, t, args.clone(), None));
                v.push(bin(a, test(nm("x"), neg, t, args.clone(), None), nm("y")));
                v.push(bin(a, nm("x"), test(nm("y"), neg, t, args.clone(), None)));
                if t == "same as" {
                    v.push(bin(a, test(nm("x"), neg, t, None, Some(nm("q"))), nm("y")));
                    v.push(test(nm("x"), neg, t, None, Some(bin(a, nm("q"), nm("y")))));
                }
            }
        }
        for u in ["not", "-", "+"] {
            v.push(un(u, bin(a, nm("x"), nm("y"))));
            v.push(bin(a, un(u, nm("x")), nm("y")));
            v.push(bin(a, nm("x"), un(u, nm("y"))));
        }
        let c = |c: E, t: E, f: E| E::Cond(Box::new(c), Some(Box::new(t)), Some(Box::new(f)));
        v.push(c(bin(a, nm("x"), nm("y")), bin(a, nm("p"), nm("q")), bin(a, nm("r"), nm("s"))));
        v.push(c(nm("a"), nm("b"), c(bin(a, nm("x"), nm("y")), nm("c"), nm("d"))));
        v.push(E::Filter(Box::new(E::Paren(Box::new(bin(a, nm("x"), nm("y"))))), "f".into(), Some(vec![docgen::Arg::Pos(bin(a, nm("x"), nm("y")))])));
        v.push(E::Hash(vec![(docgen::Key::Word("k".into()), Some(bin(a, nm("x"), nm("y")))), (docgen::Key::Expr(bin(a, nm("x"), nm("y"))), Some(nm("z")))]));
        v.push(E::Arr(vec![bin(a, nm("x"), nm("y")), c(nm("a"), nm("b"), nm("c")), nm("z")]));
        v.push(E::Index(Box::new(nm("x")), Box::new(bin(a, nm("x"), nm("y")))));
        v.push(E::Slice(Box::new(nm("x")), Some(Box::new(bin(a, nm("x"), nm("y")))), Some(Box::new(bin(a, nm("x"), nm("y"))))));
    }
    for w in docgen::NAMES.iter().chain(docgen::KW_NAMES) {
        v.push(nm(w));
        v.push(bin("and", nm(w), un("not", nm(w))));
        v.push(bin("in", nm(w), nm(w)));
        v.push(test(nm(w), true, "defined", None, None));
        v.push(E::Acc(Box::new(nm(w)), (*w).to_string()));
        v.push(E::Call((*w).to_string(), vec![docgen::Arg::Named((*w).to_string(), nm(w))]));
        v.push(E::Meth(Box::new(nm("o")), (*w).to_string(), vec![docgen::Arg::Arrow(vec![(*w).to_string()], false, nm(w))]));
        v.push(E::Hash(vec![(docgen::Key::Word((*w).to_string()), Some(nm(w))), (docgen::Key::Word((*w).to_string()), None)]));
        v.push(E::Cond(Box::new(nm(w)), Some(Box::new(nm(w))), Some(Box::new(nm(w)))));
        v.push(E::Paren(Box::new(nm(w))));
        v.push(E::Filter(Box::new(nm(w)), (*w).to_string(), None));
    }
    v
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "distinct expressions parsed without errors whose tree was compared node by node with the generated one".into();
    let m = expr_matrix();
    ctx.extra.insert("operator_matrix_expressions".into(), json!(m.len()));
    // the matrix, in three layouts
    let lay = [Cfg { wild: false, ..Cfg::default() }, Cfg::default(), Cfg { nl: Some("\r\n"), ..Cfg::default() }];
    let base = ctx.seed;
    let cases: Vec<(usize, usize)> = (0..m.len()).flat_map(|i| (0..3).map(move |l| (i, l))).collect();
    let res = par_map(cases.len().div_ceil(200), |c| {
        cases[c * 200..((c + 1) * 200).min(cases.len())].iter().map(|(i, l)| {
            let d = docgen::expr_document(7, mix(base, *i as u64), &lay[*l], &m[*i]);
            let bad = parse(&d.text).and_then(|p| show_diff(&d, &p));
            (d.text, bad)
        }).collect::<Vec<_>>()
    });
    for (t, bad) in res.into_iter().flatten() {
        ctx.eval(&t);
        if let Some(b) = bad { ctx.violation(&b, json!({"document": t})); }
    }
    let n = ctx.n(250_000, 800_000);
    structural(ctx, n, &|s| {
        let mut r = Rng::new(s);
        let mut cfg = corpus::random_cfg(&mut r);
        cfg.unicode = true;
        let depth = r.range(1, 6);
        let mut g = docgen::Gen::new(s, 1, &cfg);
        let e = g.gen_expr(depth);
        docgen::expr_document(mix(s, 2), mix(s, 3), &cfg, &e)
    }, &[]);
    ctx.assumptions.push("operators next to names are separated by blanks where gluing would form another word or operator".into());
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "distinct well-formed documents with Twig tags whose tree was compared node by node with the generated one".into();
    let n = ctx.n(125_000, 400_000);
    structural(ctx, n, &|s| {
        let mut r = Rng::new(s);
        let mut cfg = corpus::random_cfg(&mut r);
        cfg.html = r.pct(60);
        docgen::document(mix(s, 1), mix(s, 2), &cfg)
    }, &["TWIG_", "SHOPWARE_"]);
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "distinct well-formed HTML fragments whose tree was compared node by node with the generated one".into();
    let n = ctx.n(125_000, 400_000);
    structural(ctx, n, &|s| {
        let mut r = Rng::new(s);
        let mut cfg = corpus::random_cfg(&mut r);
        cfg.html = true;
        cfg.html_heavy = true;
        docgen::document(mix(s, 1), mix(s, 2), &cfg)
    }, &["HTML_TAG", "HTML_COMMENT"]);
}

// ------------------------------------------------------------------ C10
pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "distinct re-spaced variants of a document whose structure was compared with the original's".into();
    let n = ctx.n(30_000, 120_000);
    let seed = ctx.seed;
    let res = par_map(n.div_ceil(50), |c| {
        let mut v = vec![];
        for i in c * 50..((c + 1) * 50).min(n) {
            let mut r = Rng::new(mix(seed ^ 10, i as u64));
            let mut cfg = corpus::random_cfg(&mut r);
            cfg.wild = true;
            cfg.html = r.pct(80);
            let ss = r.next();
            let mut plain = cfg.clone();
            plain.wild = false;
            plain.nl = Some("\n");
            let base = docgen::document(ss, 1, &plain);
            let Some(bp) = parse(&base.text) else { continue };
            let bt = sk::of_node(&bp.root);
            let mut bad = None;
            let mut hs = vec![];
            for k in 0..6u64 {
                cfg.nl = [Some("\n"), Some("\r\n"), None][(k % 3) as usize];
                let d = docgen::document(ss, mix(k, 77), &cfg);
                let Some(p) = parse(&d.text) else { continue };
                hs.push(hash(&d.text));
                if bp.errors.is_empty() != p.errors.is_empty() {
                    bad = Some((format!("re-spacing changed the syntax errors: {:?} / {:?}", errs(&bp.errors).first(), errs(&p.errors).first()), base.text.clone(), d.text));
                    break;
                }
                let t = sk::of_node(&p.root);
                if t != bt {
                    bad = Some((format!("re-spacing changed the structure: {}", sk::diff(&bt, &t).unwrap_or_default()), base.text.clone(), d.text));
                    break;
                }
            }
            // line endings only
            if bad.is_none() && !base.text.contains('\r') {
                let d = base.text.replace('\n', "\r\n");
                if let Some(p) = parse(&d) {
                    hs.push(hash(&d));
                    let t = sk::of_node(&p.root);
                    if t != bt || p.errors.len() != bp.errors.len() { bad = Some((format!("CRLF changed the result: {:?} {}", errs(&p.errors).first(), sk::diff(&bt, &t).unwrap_or_default()), base.text.clone(), d)); }
                }
            }
            v.push((hs, bad));
        }
        v
    });
    for (hs, bad) in res.into_iter().flatten() {
        ctx.evals += hs.len() as u64;
        ctx.distinct.extend(hs);
        ctx.count("documents", 1);
        if let Some((b, x, y)) = bad { ctx.violation(&b, json!({"original": x, "variant": y})); }
    }
    let d = docgen::document(5, 9, &Cfg { fuel: 8, ..Cfg::default() });
    ctx.sample(json!({"variant": d.text}));
}

// ------------------------------------------------------------------ C03
/// (name, prefix, unit, suffix)
pub fn c03_families() -> Vec<(String, String, String, String)> {
    let mut v: Vec<(String, String, String, String)> = vec![];
    let mut add = |n: &str, p: &str, u: &str, s: &str| v.push((n.to_string(), p.to_string(), u.to_string(), s.to_string()));
    // siblings
    for u in [
        "<br>", "<p>a</p>", "<p class=\"a b\" :c='d' e>a</p>\n", "a ", "a\n", "\n", " ", "\r\n", "\t \n", "ü", "ü ", "&amp;", "{{ a }}", "{{ a }}\n", "{% set a = 1 %}\n", "<!-- a -->", "{# a #}", "{# ludtwig-ignore a #}",
        "{% if a %}b{% endif %}", "{% if a %}b{% elseif c %}d{% else %}e{% endif %}\n", "{% for a in b %}c{% else %}d{% endfor %}", "{% block a %}b{% endblock %}\n", "{% include 'a' with {b: c} only %}\n", "<twig:A:b c=\"d\"/>", "<twig:A>b</twig:A>",
        "<script>a</script>", "<script>if (a < b) { c(); }</script>\n", "<textarea>{{ a }}</textarea>", "{{ \"a#{b}c\" }}", "{{ {a: [b, c]|f(d)} }}", "{{ a is same as(b) ? c : d }}", "{% macro a(b, c = 1) %}d{% endmacro %}", "{% trans %}a{% endtrans %}", "{% verbatim %}a{% endverbatim %}",
        "{% sw_include 'a' %}", "{% sw_icon 'a' style { b: c } %}", "{% embed 'a' %}{% block b %}c{% endblock %}{% endembed %}", "<!DOCTYPE html>",
    ] { add(&format!("siblings {u}"), "", u, ""); add(&format!("children {u}"), "<div>{% block x %}", u, "{% endblock %}</div>"); }
    // inside attribute lists and values
    for u in [" a", " a=\"b\"", " a=b", "\n    :a=\"b\"", " {{ a }}", " {% if a %}b{% endif %}", " {% if a %}b=\"c\"{% else %}d{% endif %}", " {# a #}", " a=\"{{ b }}\""] { add(&format!("attributes{u}"), "<div", u, ">x</div>"); add(&format!("component attributes{u}"), "<twig:A", u, "/>"); }
    for u in ["a ", "{{ a }}", "{% if a %}b{% endif %} ", " ", "\n", "'", "ü"] { add(&format!("attribute value {u}"), "<div a=\"", u, "\">x</div>"); }
    // raw text and comments
    for u in ["a ", "\n", "<a>", "</a>", "<", "</", "{{ a }}", "{% if a %}b{% endif %}", "\"", "{# a #}", "<!--", "{", "ü"] {
        add(&format!("script {u}"), "<script>", u, "</script>");
        add(&format!("textarea {u}"), "<textarea>", u, "</textarea>");
    }
    for u in ["a ", "\n", "<a>", "{{", "--", "->", "%}", "ludtwig-ignore ", "a, "] { add(&format!("html comment {u}"), "<!-- ", u, "-->"); add(&format!("twig comment {u}"), "{# ", u, "#}"); }
    add("ignore list", "{# ludtwig-ignore x", ", a", " #}");
    add("ignore list without commas", "{# ludtwig-ignore x", " a", " #}");
    // lists and chains
    for (p, u, s) in [
        ("{{ [x", ", a", "] }}"), ("{{ [x", ", [a]", "] }}"), ("{{ {x: y", ", a: b", "} }}"), ("{{ {x: y", ",\n  'a': {b: c}", "} }}"), ("{{ {x: y", ", (a): b", "} }}"), ("{{ {x", ", a", "} }}"), ("{{ f(x", ", a", ") }}"), ("{{ f(x", ", a = b", ") }}"), ("{{ f(x", ", a => b", ") }}"), ("{{ f(x", ", (a, b) => c", ") }}"),
        ("{{ f((x", ", a", ") => b) }}"), ("{{ \"", "a ", "\" }}"), ("{{ \"", "#{a}", "\" }}"), ("{{ \"", "#{a} b\n", "\" }}"), ("{{ '", "a\\'", "' }}"), ("{{ '", "\\", "x' }}"), ("{{ '", "ü ", "' }}"), ("{{ '", "{{ }} <a> {% %} ", "' }}"),
        ("{% set x", ", a", " = 1 %}"), ("{% set x = 1", ", a", " %}"), ("{% from 'a' import x", ", b as c", " %}"), ("{% macro a(x", ", b = 1", ") %}c{% endmacro %}"), ("{% use 'a' with x as y", ", b as c", " %}"), ("{% props x", ", a = 1", " %}"), ("{% if a %}", "{% elseif b %}c", "{% endif %}"),
        ("{% apply a", "|b", " %}c{% endapply %}"), ("{% apply a", "|b(c, d)", " %}c{% endapply %}"),
    ] { add(&format!("list {p}..{u}"), p, u, s); }
    for o in docgen::BINOPS.iter().map(|b| b.0) { add(&format!("statements with chains {o}"), "", &format!("{{{{ x{} }}}}\n", format!(" {o} a").repeat(12)), ""); }
    for u in ["|f", "|f(a)", ".a", ".a()", "[a]", "[a:b]", ".0", " is defined", " is not null", "|f|g(x => y)", "(a)"] { add(&format!("statements with postfix chains {u}"), "", &format!("{{{{ x{} }}}}\n", u.repeat(12)), ""); }
    add("filter chain in arguments", "{{ f(x", ", a|b|c.d", ") }}");
    add("conditional chain in a list", "{{ [x", ", a ? b : c", "] }}");
    // broken constructs and unterminated openers
    for u in [
        "<div ", "</div>", "</", "<!", "<a b=", ">", "/>", "\"", "'", "{{", "{{ ", "}}", "{%", "{% ", "%}", "{% foo %}", "{% foo", "{% if %}", "{% endif %}", "{% endif", "{% else %}", "{% endblock %}", "{{ a", "{{ a b }}", "{{ ] }}", "{% set = %}", "{% for %}{% endfor %}", "{% block %}{% endblock %}",
        "{% include", "{% include %}", "{% set a", "{% extends", "{#", "#}", "<!--", "-->", "=", "==", "&", "{", "}", "(", ")", "[", "]", "\\", "#{", "<1", "< ", "<ü", "~", "|", ",", ":", ".", "\u{0}", "\u{1F600}", "$", "@", "`", "^", "{{ a. }}", "{{ a| }}", "{{ a[ }}", "{{ ( }}", "{{ [ }}", "{{ { }}",
        "{{ \" }}", "{{ ' }}", "{{ a + }}", "{{ a ? }}", "{{ a ? b }}", "{{ f(a }}", "{{ a is }}", "<div a=\">", "<a \" b>", "{% from %}", "{% use 'a' with %}", "{% macro %}{% endmacro %}", "{% sw_extends { %}", "{# ludtwig-ignore , #}", "{% if a %}<b>{% endif %}</b>", "<b>{% if a %}</b>{% endif %}",
    ] { add(&format!("broken {u}"), "", u, ""); add(&format!("broken after text {u}"), "x <p>y</p> {{ z }} ", &format!("{u} "), ""); }
    for (p, us) in [("{{ ", ["] ", "a ", ", ", "| ", "\" ", "' ", "( ", "{ "]), ("{% if ", ["] ", "a ", ", ", "= ", "\" ", "' ", ": ", "< "]), ("{% set a = \"", ["a ", "#{ ", "' ", "\\ ", "{{ ", "%} ", "<b ", "\n"]), ("<div ", ["= ", "\" ", "' ", "{ ", "| ", "( ", "/ ", "1 "]), ("<div a=\"", ["= ", "{{ ", "{% ", "' ", "< ", "> ", "{# ", "a "]), ("<script>", ["{{ ", "{% ", "{% if ", "</ ", "</b> ", "{# ", "\" ", "< "]), ("{% foo ", ["a ", "\" ", "{ ", "( ", "] ", ". ", "| ", "ü "]), ("{# ludtwig-ignore ", ["a ", ", ", ": ", "\" ", "{ ", "- ", "1 ", "ü "])] {
        for u in us { add(&format!("unterminated {p}{u}"), p, u, ""); }
    }
    v
}
/// nested families: (prefix, open, middle, close)
fn c03_text(kind: &str, idx: usize, n: usize) -> String {
    if kind == "flat" {
        let f = c03_families();
        let (_, p, u, s) = &f[idx];
        format!("{p}{}{s}", u.repeat(n))
    } else if kind == "chain" {
        (0..30).map(|i| format!("{{{{ x{i}{} }}}}\n", c03_chains()[idx].repeat(n))).collect()
    } else {
        let f = nest_families();
        let (p, o, m, c) = f[idx];
        let tail = match p { "{{ " => " }}", "{% set a = " => " %}", "<a " => ">x</a>", "<a b=\"" => "\">x</a>", "<script>" => "</script>", _ => "" };
        // the whole is repeated so that the work of the levels stands out
        let closed = kind == "nest";
        if closed { format!("{p}{}{m}{}{tail}\n", o.repeat(n), c.repeat(n)) } else { format!("{p}{}{m}\n", o.repeat(n)) }
    }
}
pub fn c03_worker(a: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let (kind, idx, n) = (a[0].clone(), a[1].parse::<usize>().unwrap(), a[2].parse::<usize>().unwrap());
    if a[0] == "screen" {
        let reps = a[3].parse().unwrap();
        let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || screen_worker(idx, n, reps)).unwrap();
        let _ = h.join();
        std::process::exit(0);
    }
    // deep chains give deep trees
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let t = c03_text(&kind, idx, n);
        let r = std::panic::catch_unwind(|| ludtwig_parser::parse(&t)).map(|p| { let e = p.errors.len(); std::mem::forget(p); e });
        println!("{} {:?}", t.len(), r.ok());
    }).unwrap();
    let _ = h.join();
    std::process::exit(0);
}
/// instructions executed by the worker, counted by valgrind; None when it did not finish in time
fn instructions(args: &[String], secs: u64) -> Option<u64> {
    use std::io::Read;
    let mut ch = std::process::Command::new("valgrind")
        .args(["--tool=cachegrind", "--vgdb=no", "--cache-sim=no", "--cachegrind-out-file=/dev/null", "--main-stacksize=8388608", "--max-stackframe=4000000000", "--log-fd=2"])
        .arg(std::env::current_exe().unwrap()).arg("worker-c03").args(args)
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).spawn().expect("valgrind");
    let start = std::time::Instant::now();
    loop {
        if ch.try_wait().unwrap().is_some() { break; }
        if start.elapsed().as_secs() > secs { let _ = ch.kill(); let _ = ch.wait(); return None; }
        std::thread::sleep(std::time::Duration::from_millis(15));
    }
    let mut s = String::new();
    ch.stderr.take().unwrap().read_to_string(&mut s).unwrap();
    let l = s.lines().find(|l| l.contains("I refs") || l.contains("I   refs"))?;
    l.rsplit(':').next()?.trim().replace(',', "").parse().ok()
}
fn thread_cpu_ns() -> u64 {
    #[repr(C)]
    struct Ts { s: i64, n: i64 }
    unsafe extern "C" { fn clock_gettime(c: i32, t: *mut Ts) -> i32; }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) }; // CLOCK_THREAD_CPUTIME_ID
    t.s as u64 * 1_000_000_000 + t.n as u64
}
/// families whose repetition nests instead of following each other; they are measured as nesting
fn tree_depth(root: &SyntaxNode) -> usize {
    let (mut d, mut m) = (0usize, 0usize);
    for e in root.preorder() {
        match e {
            rowan_walk::Enter(_) => { d += 1; m = m.max(d); }
            rowan_walk::Leave(_) => d -= 1,
        }
    }
    m
}
use ludtwig_parser::syntax::untyped::WalkEvent as rowan_walk;
/// (family, units, ratio, nests, bytes) measured by a worker; None when it does not return
fn screen(i: usize, len4: usize, reps: usize) -> Option<(usize, usize, f64, bool, usize)> {
    use std::io::Read;
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["worker-c03", "screen", &i.to_string(), &len4.to_string(), &reps.to_string()])
        .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let start = std::time::Instant::now();
    let done = loop {
        if ch.try_wait().unwrap().is_some() { break true; }
        if start.elapsed().as_secs() > 100 { let _ = ch.kill(); let _ = ch.wait(); break false; }
        std::thread::sleep(std::time::Duration::from_millis(5));
    };
    if !done { return None; }
    let mut s = String::new();
    ch.stdout.take().unwrap().read_to_string(&mut s).unwrap();
    let f: Vec<f64> = s.split_whitespace().map(|x| x.parse().unwrap_or(0.0)).collect();
    if f.len() != 4 { return None; }
    Some((i, f[0] as usize, f[1], f[2] > 0.0, f[3] as usize))
}
fn screen_worker(i: usize, len4: usize, reps: usize) {
    // keep memory mapped between the measurements
    unsafe extern "C" { fn mallopt(p: i32, v: i32) -> i32; }
    unsafe { mallopt(-3, 1 << 30); mallopt(-1, i32::MAX); }
    let u = c03_families()[i].2.clone();
    let deep = parse(&c03_text("flat", i, 60)).is_none_or(|p| tree_depth(&p.root) > 60);
    if deep { println!("0 0 1 0"); return; }
    let n = (len4 / 4 / u.len()).clamp(300, 20_000);
    let texts: Vec<String> = [1, 2, 4].iter().map(|k| c03_text("flat", i, n * k)).collect();
    let mut best = [u64::MAX; 3];
    for rep in 0..reps {
        // a slow one is clear after one measurement
        if rep > 0 && best[2] > 1_500_000_000 { break; }
        for (k, t) in texts.iter().enumerate() {
            let s = thread_cpu_ns();
            let p = std::panic::catch_unwind(|| ludtwig_parser::parse(t));
            best[k] = best[k].min(thread_cpu_ns() - s);
            drop(p);
        }
    }
    let r = (best[2] as f64 - best[1] as f64) / (best[1] as f64 - best[0] as f64).max(1.0);
    // counting instructions is about fifty times slower, a size at which the growth stands out is enough
    let n = if best[2] > 500_000_000 { ((n as f64 * (5e8 / best[2] as f64).sqrt()) as usize).max(50) } else { n };
    println!("{n} {r} 0 {}", texts[2].len());
}
/// instruction counts of one family at three sizes
fn confirm(kind: &str, i: usize, sizes: &[usize], base: u64) -> Vec<u64> {
    let mut c = vec![];
    for n in sizes {
        match instructions(&[kind.to_string(), i.to_string(), n.to_string()], 100) {
            Some(x) => c.push(x.saturating_sub(base)),
            None => break,
        }
    }
    c
}
pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "distinct input families whose parsing work was measured at several sizes".into();
    let fams = c03_families();
    let base = instructions(&["flat".into(), "0".into(), "0".into()], 60).expect("instruction counts of valgrind");
    let len4 = ctx.n(120_000, 600_000);
    let reps = ctx.n(5, 9);
    // screening by processor time at large sizes, decision by executed instructions; in processes of
    // their own, since a construct whose work explodes would never return
    let screened = par_map(fams.len(), |i| screen(i, len4, reps));
    // constructs which did not come back: the small sizes decide
    let hung: Vec<usize> = screened.iter().enumerate().filter(|s| s.1.is_none()).map(|s| s.0).collect();
    for (i, c) in par_map(hung.len().min(16), |k| (hung[k], confirm("flat", hung[k], &[0, 4, 8, 12], base))) {
        let growth = if c.len() == 4 { (c[3] as f64 - c[2] as f64) / (c[2] as f64 - c[1] as f64).max(1.0) } else { f64::INFINITY };
        ctx.violation(&format!("parsing a repeated construct did not finish; four more repetitions cost {growth:.1} times as much as the four before"), json!({"family": fams[i].0, "prefix": fams[i].1, "unit": fams[i].2, "suffix": fams[i].3, "instructions_at_0_4_8_12": c}));
    }
    let screened: Vec<_> = screened.into_iter().flatten().collect();
    let mut suspects: Vec<(usize, usize, f64)> = vec![];
    let mut worst: Vec<(f64, String)> = vec![];
    for (i, n, r, deep, len) in screened {
        if deep { ctx.count("families_that_nest", 1); continue; }
        ctx.eval(&fams[i].0);
        ctx.count("families_screened_by_time", 1);
        ctx.count("bytes_screened", len as u64);
        worst.push((r, fams[i].0.clone()));
        if r > 2.3 { suspects.push((i, n, r)); }
    }
    suspects.sort_by(|a, b| b.2.total_cmp(&a.2));
    let mut suspects: Vec<(usize, usize)> = suspects.into_iter().map(|s| (s.0, s.1)).collect();
    worst.sort_by(|a, b| b.0.total_cmp(&a.0));
    ctx.extra.insert("largest_time_ratios".into(), json!(worst.iter().take(8).map(|w| json!([w.1, (w.0 * 1000.0).round() / 1000.0])).collect::<Vec<_>>()));
    // every family in the thorough tier, a sample in the quick one
    let nsus = suspects.len();
    for i in 0..fams.len() {
        if (ctx.thorough || i % 9 == (ctx.seed % 9) as usize) && worst.iter().any(|w| w.1 == fams[i].0) && !suspects.iter().any(|s| s.0 == i) {
            suspects.push((i, (len4 / 12 / fams[i].2.len()).clamp(300, 6000)));
        }
    }
    ctx.extra.insert("suspects_after_screening".into(), json!(nsus));
    let mut worst: Vec<(f64, String)> = vec![];
    // in batches: once a violation is decided the others only take time
    let mut from = 0;
    let mut confirmed: Vec<(usize, Vec<u64>)> = vec![];
    while from < suspects.len() || !confirmed.is_empty() {
        if confirmed.is_empty() {
            if ctx.violations > 0 { break; }
            let batch = &suspects[from..(from + 16).min(suspects.len())];
            confirmed = par_map(batch.len(), |k| (from + k, confirm("flat", batch[k].0, &[batch[k].1, batch[k].1 * 2, batch[k].1 * 4], base)));
            from += batch.len();
        }
        let Some((k, c)) = confirmed.pop() else { break };
        let (i, n) = suspects[k];
        let d = json!({"family": fams[i].0, "prefix": fams[i].1, "unit": fams[i].2, "suffix": fams[i].3, "n": n, "instructions_at_n_2n_4n": c});
        if c.len() < 3 {
            ctx.violation("parsing a repeated construct did not finish", d);
            continue;
        }
        ctx.count("families_decided_by_instructions", 1);
        ctx.count("instructions_counted", c.iter().sum());
        let (d1, d2) = ((c[1] as f64 - c[0] as f64).max(1.0), c[2] as f64 - c[1] as f64);
        let ratio = d2 / d1;
        worst.push((ratio, fams[i].0.clone()));
        // 2.0 when linear, 4.0 when quadratic; a few instructions per byte (copying) do not count
        let per_byte = d2 / (2 * n * fams[i].2.len()) as f64;
        if ratio > 2.6 && per_byte > 60.0 { ctx.violation(&format!("work grows faster than the input: the instructions added by doubling grow by {ratio:.2} instead of 2"), d); }
    }
    worst.sort_by(|a, b| b.0.total_cmp(&a.0));
    ctx.extra.insert("largest_instruction_ratios".into(), json!(worst.iter().take(8).map(|w| json!([w.1, (w.0 * 1000.0).round() / 1000.0])).collect::<Vec<_>>()));
    // nesting and chains
    let nf = nest_families();
    let cf = c03_chains();
    let mut cases: Vec<(usize, &str, [usize; 4])> = (0..nf.len()).flat_map(|i| [(i, "nest", [0, 4, 8, 12]), (i, "open", [0, 4, 8, 12])]).collect();
    cases.extend((0..cf.len()).map(|i| (i, "chain", [0, 16, 32, 48])));
    let mut worst: Vec<(f64, String)> = vec![];
    let mut from = 0;
    let mut res: Vec<(usize, Vec<u64>)> = vec![];
    while from < cases.len() || !res.is_empty() {
        if res.is_empty() {
            if ctx.violations > 0 { break; }
            let n = (cases.len() - from).min(48);
            res = par_map(n, |k| { let (i, kind, sizes) = cases[from + k]; (from + k, confirm(kind, i, &sizes, base)) });
            from += n;
        }
        let Some((k, c)) = res.pop() else { break };
        let (i, kind, _) = cases[k];
        let sizes = cases[k].2;
        let name = if kind == "chain" { format!("chain {}", cf[i]) } else { format!("{kind} {}{}", nf[i].0, nf[i].1) };
        ctx.eval(&name);
        let d = json!({"family": name, "example": c03_text(kind, i, 2), "levels": sizes, "instructions": c});
        if c.len() < 4 { ctx.violation("parsing a nested or chained construct did not finish", d); continue; }
        ctx.count("nested_families_decided_by_instructions", 1);
        let (a, b) = ((c[2] as f64 - c[1] as f64).max(1.0), c[3] as f64 - c[2] as f64);
        worst.push((b / a, name));
        // constant work per level gives 1, work proportional to the depth 1.7, doubling per level far more
        if b / a > 3.0 && b > 100_000.0 { ctx.violation(&format!("work multiplies with nesting: further levels cost {:.1} times as much as the same number before", b / a), d); }
    }
    worst.sort_by(|a, b| b.0.total_cmp(&a.0));
    ctx.extra.insert("largest_nesting_ratios".into(), json!(worst.iter().take(8).map(|w| json!([w.1, (w.0 * 1000.0).round() / 1000.0])).collect::<Vec<_>>()));
    ctx.sample(json!({"family": fams[3].0, "unit": fams[3].2}));
    ctx.assumptions.push("work is the number of instructions valgrind counts for one parse; processor time only selects the families to decide".into());
}
/// links of chains
fn c03_chains() -> Vec<String> {
    let mut v: Vec<String> = docgen::BINOPS.iter().map(|b| format!(" {} a", b.0)).collect();
    v.extend(["|f", "|f(a)", ".a", ".a()", "[a]", "[a:b]", " is defined", " is not null", "|f|g(x => y)", " ? b : c", "|f(a|g)"].map(String::from));
    v
}

// ------------------------------------------------------------------ C09
/// does the text behind a removed piece legitimately take its place?
fn ambiguous(d: &Doc, pc: &docgen::Piece) -> bool {
    let after = &d.text[pc.end..];
    let before = d.text[..pc.start].trim_end();
    let next = after.trim_start();
    let nc = next.chars().next().unwrap_or(' ');
    let last_word = before.rsplit(|c: char| !c.is_ascii_alphanumeric() && c != '_').next().unwrap_or("");
    // what can begin an operand
    let starts_operand = nc.is_ascii_alphanumeric() || nc == '_' || "([{+-\"'".contains(nc) || next.starts_with("...") || !nc.is_ascii();
    let word: String = next.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
    match pc.kind {
        "closer" => {
            let p = &d.text[pc.start..pc.end];
            // the comment simply goes on to the next closer
            (p.ends_with("#}") && after.contains("#}")) || (p == "-->" && after.contains("-->"))
        }
        "comma" => "([+-.".contains(nc),
        "endtag" => {
            let name = d.text[pc.start..pc.end].trim_start_matches("</").trim_end_matches('>').trim().to_string();
            after.contains(&format!("</{name}")) || after.contains("</") && crate::corpus::RAW.iter().any(|r| name.eq_ignore_ascii_case(r))
        }
        // a keyword operator would be taken as a name, which only fits where another operator or a bracket follows
        "operand" => starts_operand && !(["and", "or", "is", "in"].contains(&word.as_str()) && plain_name_follows(&next[word.len()..])) && !(nc == '-' && (next.starts_with("-%}") || next.starts_with("-}}"))),
        "tagexpr" => last_word == "autoescape" || (starts_operand && !(nc == '-' && (next.starts_with("-%}") || next.starts_with("-}}")))),
        "tagname" => last_word == "block" && !next.starts_with("%}") && !next.starts_with("-%}") && !next.starts_with("~%}"),
        _ => false,
    }
}
fn plain_name_follows(t: &str) -> bool {
    let t = t.trim_start();
    let w: String = t.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
    w.starts_with(|c: char| c.is_ascii_alphabetic()) && !["and", "or", "is", "in", "not", "b", "matches", "starts", "ends"].contains(&w.as_str())
}
fn context(t: &str, a: usize, b: usize) -> String {
    let x = corpus::boundary(t, a.saturating_sub(60));
    let y = corpus::boundary(t, b + 60).max(b);
    format!("{}⟦{}⟧{}", &t[x..a], &t[a..b], &t[b..y])
}
/// an element cut apart by Twig tags: (text)
fn cut_apart(r: &mut Rng) -> String {
    let tags = [("{% if a %}", "{% endif %}"), ("{% block a %}", "{% endblock %}"), ("{% for a in b %}", "{% endfor %}"), ("{% apply a %}", "{% endapply %}"), ("{% autoescape %}", "{% endautoescape %}"), ("{% embed 'a' %}", "{% endembed %}"),
        ("{% sandbox %}", "{% endsandbox %}"), ("{% macro a() %}", "{% endmacro %}"), ("{% with %}", "{% endwith %}"), ("{% cache a %}", "{% endcache %}"), ("{% set a %}", "{% endset %}"), ("{% component a %}", "{% endcomponent %}"), ("{% trans %}", "{% endtrans %}"),
        ("{% verbatim %}", "{% endverbatim %}"), ("{% sw_silent_feature_call 'a' %}", "{% endsw_silent_feature_call %}"), ("{% sw_embed 'a' %}", "{% sw_end_embed %}"), ("{% if a %}b{% else %}", "{% endif %}"), ("{% if a %}b{% elseif c %}", "{% endif %}"), ("{% for a in b %}c{% else %}", "{% endfor %}"),
        ("{%- if a -%}", "{%~ endif ~%}")];
    let els = ["div", "p", "a", "span", "my-el", "twig:A", "script", "textarea", "style", "title", "pre", "ul", "H1"];
    let (o, c) = *r.pick(&tags);
    let e = *r.pick(&els);
    let at = *r.pick(&["", " class=\"x\"", " {{ y }}", " {% if y %}z{% endif %}"]);
    let g = |r: &mut Rng| *r.pick(&["", " ", "\n", "text", "{{ v }}", "<br>", "<b>x</b>", "{# c #}", "{% if q %}w{% endif %}", " ü "]);
    let (g1, g2, g3, g4) = (g(r), g(r), g(r), g(r));
    let raw = corpus::RAW.contains(&e);
    let g = |x: &'static str| if raw && x.starts_with('<') { "" } else { x };
    match r.below(5) {
        // closed behind the Twig tag that opened it
        0 => format!("{o}{g1}<{e}{at}>{}{c}{}</{e}>{g4}", g(g2), g(g3)),
        // opened outside, closed inside
        1 => format!("<{e}{at}>{}{o}{}</{e}>{g3}{c}{g4}", g(g1), g(g2)),
        // inside another element
        2 => format!("<main>{o}{g1}<{e}{at}>{}{c}{}</{e}>{g4}</main>", g(g2), g(g3)),
        3 => format!("<main>{g1}{o}{g2}</main>{g3}{c}{g4}"),
        // nested tag
        _ => format!("{{% if outer %}}{o}<{e}{at}>{}{c}{{% endif %}}{}</{e}>{g4}", g(g2), g(g3)),
    }
}
pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "distinct documents with one structural piece missing for which the reported errors were counted".into();
    let n = ctx.n(60_000, 200_000);
    let seed = ctx.seed;
    let res = par_map(n.div_ceil(20), |c| {
        let mut v = vec![];
        for i in c * 20..((c + 1) * 20).min(n) {
            let mut r = Rng::new(mix(seed ^ 9, i as u64));
            let mut cfg = corpus::random_cfg(&mut r);
            cfg.fuel = *r.pick(&[6, 12, 20]);
            let d = docgen::document(r.next(), r.next(), &cfg);
            let Some(p) = parse(&d.text) else { continue };
            if !p.errors.is_empty() { continue; }
            for pc in &d.pieces {
                if ambiguous(&d, pc) { v.push(("skipped", 0, None)); continue; }
                let mut t = String::with_capacity(d.text.len() + 1);
                t.push_str(&d.text[..pc.start]);
                t.push(' ');
                t.push_str(&d.text[pc.end..]);
                let Some(q) = parse(&t) else { continue };
                let bad = q.errors.is_empty().then(|| (context(&d.text, pc.start, pc.end), t.clone()));
                v.push((pc.kind, hash(&t), bad));
            }
        }
        v
    });
    for (k, h, bad) in res.into_iter().flatten() {
        if k == "skipped" { ctx.count("skipped_ambiguous", 1); continue; }
        ctx.evals += 1;
        ctx.distinct.insert(h);
        ctx.count(&format!("removed_{k}"), 1);
        if let Some((c, t)) = bad { ctx.violation(&format!("no error although the {k} in double brackets is missing: {c}"), json!({"document": t})); }
    }
    let m = ctx.n(80_000, 200_000);
    let res = par_map(m.div_ceil(500), |c| {
        (c * 500..((c + 1) * 500).min(m)).map(|i| {
            let t = cut_apart(&mut Rng::new(mix(seed ^ 99, i as u64)));
            let silent = parse(&t).is_some_and(|p| p.errors.is_empty());
            (t, silent)
        }).collect::<Vec<_>>()
    });
    for (t, silent) in res.into_iter().flatten() {
        ctx.eval(&t);
        ctx.count("elements_cut_apart", 1);
        if silent { ctx.violation("no error although an element is cut apart by a Twig tag", json!({"document": t})); }
    }
    // required parts of tags, one by one
    for t in C09_REQUIRED {
        ctx.eval(t);
        ctx.count("tags_without_a_required_part", 1);
        for w in [format!("{t}"), format!("<div>\n    {t}\n</div>"), t.replace(' ', "\r\n  "), t.replace("{%", "{%-").replace("%}", "~%}")] {
            if parse(&w).is_some_and(|p| p.errors.is_empty()) { ctx.violation("no error although a required part is missing", json!({"document": w})); }
        }
    }
    // ... in every context, with other names and blanks
    let m = ctx.n(120_000, 300_000);
    let res = par_map(m.div_ceil(500), |c| {
        (c * 500..((c + 1) * 500).min(m)).map(|i| {
            let mut r = Rng::new(mix(seed ^ 0x9e, i as u64));
            let t = if i % 3 == 0 { set_miscounted(&mut r) } else { rename(C09_REQUIRED[i % C09_REQUIRED.len()], &mut r) };
            let (o, cl) = loop {
                let x = *r.pick(C11_CONTEXTS);
                if !(t.contains("{% else %}") && (x.0.contains("{% if") || x.0.contains("{% for"))) { break x; }
            };
            let (b, e) = (*r.pick(&["", "x ", "{{ y }}\n", "<br>", "\n"]), *r.pick(&["", " x", "\n{{ y }}", "<br>", "\n"]));
            let t = format!("{o}{b}{t}{e}{cl}");
            let silent = parse(&t).is_some_and(|p| p.errors.is_empty());
            (t, silent, i % 3 == 0)
        }).collect::<Vec<_>>()
    });
    for (t, silent, set) in res.into_iter().flatten() {
        ctx.eval(&t);
        ctx.count(if set { "set_tags_with_unequal_counts" } else { "tags_without_a_required_part_in_context" }, 1);
        if silent { ctx.violation("no error although a required part is missing", json!({"document": t})); }
    }
    ctx.sample(json!({"cut_apart": cut_apart(&mut Rng::new(5)), "set": set_miscounted(&mut Rng::new(5))}));
    ctx.assumptions.push("pieces whose removal leaves another well-formed template (the following text takes their place) are skipped and counted".into());
}
const C09_NAMES: &[&str] = &["foo", "bar_baz", "x1", "_y", "a", "camelCase", "sw_x", "my_end", "onlyA", "inner", "island", "order"];
/// single letters become other names
fn rename(t: &str, r: &mut Rng) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    for i in 0..b.len() {
        let alone = |k: Option<usize>| k.and_then(|k| b.get(k)).is_none_or(|c| !(c.is_ascii_alphanumeric() || *c == '_'));
        // names of elements stay, since end tags go by name
        let twig = t.starts_with('{');
        if twig && matches!(b[i], 'a' | 'b' | 'c') && alone(i.checked_sub(1)) && alone(Some(i + 1)) { o.push_str(r.pick(C09_NAMES)) } else { o.push(b[i]) }
    }
    match r.below(4) {
        0 if twig_only(&o) => o.replace(' ', *r.pick(&["  ", "\n", "\t", "\r\n   "])),
        1 if !o.contains("{{ -") => o.replace("{{ ", *r.pick(&["{{- ", "{{~ "])).replace("{% ", *r.pick(&["{%- ", "{%~ "])).replace(" %}", *r.pick(&[" -%}", " ~%}"])).replace(" }}", *r.pick(&[" -}}", " ~}}"])),
        _ => o,
    }
}
fn twig_only(t: &str) -> bool { t.starts_with('{') && !t.contains(['\'', '"', '<']) }
/// a set tag whose names and values differ in number
fn set_miscounted(r: &mut Rng) -> String {
    let vals = ["1", "'v'", "a.b", "f(x, y)", "[1, 2]", "{k: v, l: w}", "x ? y : z", "a + b", "\"t\"", "not a", "a|b(c, d)", "(x, y) => z", "null"];
    loop {
        let (n, m) = (r.below(5), r.below(5));
        let names: Vec<&str> = (0..n).map(|_| *r.pick(C09_NAMES)).collect();
        let values: Vec<&str> = (0..m).map(|_| *r.pick(&vals)).collect();
        let sep = *r.pick(&[", ", ",", " ,\n", "\t,\t"]);
        let capture = r.pct(40);
        if capture {
            if n == 1 { continue; }
            return format!("{{% set {} %}}{}{{% endset %}}", names.join(sep), r.pick(&["", "x", "{{ a }}", "<b>y</b>"]));
        }
        if n == m && n > 0 { continue; }
        return format!("{{% set {} = {} %}}", names.join(sep), values.join(sep));
    }
}
const C09_REQUIRED: &[&str] = &[
    "{% block %}{% endblock %}", "{% block a %}", "{% if %}a{% endif %}", "{% if a %}", "{% if a %}b{% elseif %}c{% endif %}", "{% set %}", "{% set a = %}", "{% set = 1 %}", "{% set a %}",
    "{% for in b %}{% endfor %}", "{% for a b %}{% endfor %}", "{% for a in %}{% endfor %}", "{% for a in b %}", "{% extends %}", "{% include %}", "{% include 'a' with %}", "{% use %}", "{% use 'a' with %}", "{% use 'a' with b as %}",
    "{% from %}", "{% from 'a' %}", "{% from 'a' import %}", "{% from 'a' import b as %}", "{% import %}", "{% import 'a' %}", "{% import 'a' as %}", "{% embed %}{% endembed %}", "{% embed 'a' %}", "{% embed 'a' with %}{% endembed %}",
    "{% apply %}a{% endapply %}", "{% apply a %}b", "{% deprecated %}", "{% do %}", "{% macro %}{% endmacro %}", "{% macro a %}{% endmacro %}", "{% macro a() %}", "{% macro a(b=) %}{% endmacro %}", "{% with { a: } %}{% endwith %}", "{% with %}", "{% sandbox %}", "{% verbatim %}", "{% autoescape %}",
    "{% cache %}{% endcache %}", "{% cache a %}", "{% cache a ttl() %}{% endcache %}", "{% cache a tags() %}{% endcache %}", "{% trans %}", "{% component %}{% endcomponent %}", "{% component a %}", "{% component a with %}{% endcomponent %}",
    "{% sw_extends %}", "{% sw_include %}", "{% sw_icon %}", "{% sw_icon 'a' style %}", "{% sw_thumbnails %}", "{% sw_thumbnails 'a' with %}", "{% sw_silent_feature_call %}{% endsw_silent_feature_call %}", "{% sw_silent_feature_call 'a' %}", "{% sw_embed %}{% sw_end_embed %}", "{% sw_embed 'a' %}", "{% sw_use %}", "{% sw_from 'a' %}", "{% sw_import 'a' %}",
    "{% else %}", "{% endif %}", "{% endblock %}", "{% endfor %}", "{% nonsense %}", "{% %}", "{{ }}", "{{ a", "{% if a", "{# a", "<!-- a", "<div", "<div>", "</div>", "<div a=>b</div>", "<div a=\"b>c</div>", "<div></span>", "<a><b></a></b>", "<script>", "<textarea>a</textarea", "<title>a</titl>", "<twig:A>", "<twig:A></twig:B>", "<div></div", "<br", "<br a=\"",
    "{{ a + }}", "{{ a ? }}", "{{ ? b : c }}", "{{ a ? b : }}", "{{ a and }}", "{{ or a }}", "{{ not }}", "{{ a is }}", "{{ a is not }}", "{{ a in }}", "{{ a ?? }}", "{{ - }}", "{{ a. }}", "{{ a| }}", "{{ a[] }}", "{{ a[ }}", "{{ a[b }}", "{{ (a }}", "{{ a) }}", "{{ () }}", "{{ f(a }}", "{{ f(a b) }}", "{{ [a b] }}", "{{ [a }}", "{{ a] }}", "{{ {a: b }}", "{{ {a: } }}", "{{ {a b} }}", "{{ 'a }}", "{{ \"a }}", "{{ \"#{a\" }}", "{{ \"#{}\" }}", "{{ a b }}", "{{ a, b }}", "{{ f(a => ) }}", "{{ f((a, b) ) }}", "{{ f(a=) }}", "{{ a **  }}", "{{ a starts with }}", "{{ a .. }}",
];

// ------------------------------------------------------------------ C11
const C11_GARBAGE: &[&str] = &["a", "b", "1", "2.5", "+", "-", "*", "/", "//", "%", "~", "|", "||", ".", "..", ",", ":", "?", "??", "=", "==", "!=", "=>", "(", ")", "[", "]", "and", "or", "not", "in", "is", "is not", "b-or", "matches", "starts with", "null", "true", "if", "for", "set", "block", "with", "only", "as", "import", "endif_", "\\", "&", "!", "$", "@", ";", "^", "ü", "!==", "&&", "...", "**", "{", "}", ">", ">=", "<=", "<=>", "#", "?:", "'x'", "\"y\"", "'{{ }}'", "\"%}\"", "'x' }", "{a: 1}", "{a: ", "[1]", "(a)", "f(", "a|", "a.", "a[", "/>", "true}", "only", "else", "word"];
const C11_CONTEXTS: &[(&str, &str)] = &[
    ("", ""), ("<div>", "</div>"), ("{% block a %}", "{% endblock %}"), ("{% if a %}", "{% endif %}"), ("{% if a %}x{% else %}", "{% endif %}"), ("{% if a %}", "{% else %}x{% endif %}"), ("{% for a in b %}", "{% endfor %}"), ("<main><section>", "</section></main>"),
    ("{% block a %}<div>{% if b %}", "{% endif %}</div>{% endblock %}"), ("{% embed 'a' %}{% block b %}", "{% endblock %}{% endembed %}"), ("{% apply f %}", "{% endapply %}"), ("<twig:A>", "</twig:A>"), ("{% set a %}", "{% endset %}"), ("{% macro a() %}", "{% endmacro %}"), ("<ul><li>", "</li></ul>"),
];
/// children of the slot: the path of last/only bodies is found by the marker elements
fn slot_children(t: &Sk) -> Option<&[Sk]> {
    // the node whose children contain the marker comment
    fn go(t: &Sk) -> Option<&[Sk]> {
        if t.kids().iter().any(is_marker) { return Some(t.kids()); }
        t.kids().iter().find_map(go)
    }
    go(t)
}
fn is_marker(t: &Sk) -> bool { t.kind() == "HTML_COMMENT" && t.show().contains("MARKER") }
fn replace_slot(t: &Sk) -> Sk {
    match t {
        Sk::T(s) => Sk::T(s.clone()),
        Sk::N(k, c) => if c.iter().any(is_marker) { Sk::N(k.clone(), vec![]) } else { Sk::N(k.clone(), c.iter().map(replace_slot).collect()) },
    }
}
const C11_PAIRED: &[(&str, &str)] = &[
    ("block a", "endblock"), ("if a", "endif"), ("if a|else", "endif"), ("if a|elseif b", "endif"), ("for a in b", "endfor"), ("for a in b|else", "endfor"), ("set a", "endset"), ("embed 'a'", "endembed"), ("apply f", "endapply"), ("autoescape", "endautoescape"),
    ("sandbox", "endsandbox"), ("verbatim", "endverbatim"), ("macro a()", "endmacro"), ("with", "endwith"), ("with {a: b}", "endwith"), ("cache 'a'", "endcache"), ("trans", "endtrans"), ("component A", "endcomponent"), ("sw_silent_feature_call 'a'", "endsw_silent_feature_call"),
];
/// a broken construct that is closed by its own delimiter
fn contained_error(r: &mut Rng) -> (&'static str, String) {
    let k = r.range(0, 4);
    let g = |r: &mut Rng| { let sp = *r.pick(&[" ", " ", "\n  ", "\t"]); (0..k).map(|_| *r.pick(C11_GARBAGE)).collect::<Vec<_>>().join(sp) };
    let wo = *r.pick(&["", "-", "~"]);
    let wc = *r.pick(&["", "-", "~"]);
    let gg = g(r);
    match r.below(5) {
        3 | 4 => {
            let (st, en) = *r.pick(C11_PAIRED);
            let mut place = r.below(if st.contains('|') { 3 } else { 2 });
            // a value makes these a tag of its own without an end
            if place == 0 && (st == "block a" || st == "set a" && gg.contains('=')) { place = 1 }
            let (a, b) = st.split_once('|').unwrap_or((st, ""));
            let mut g = |i: usize| if i == place { gg.clone() } else { String::new() };
            let inner = *r.pick(&["", "x", " x ", "<b>x</b>", "{{ x }}"]);
            let middle = if b.is_empty() { String::new() } else { format!("{{%{wo} {b} {} {wc}%}}{inner}", g(2)) };
            (["start of a paired tag", "end of a paired tag", "middle of a paired tag"][place], format!("{{%{wo} {a} {} {wc}%}}{inner}{middle}{{%{wo} {en} {} {wc}%}}", g(0), g(1)))
        }
        0 => ("output", format!("{{{{{wo} {gg} {wc}}}}}")),
        1 => {
            let t = *r.pick(&["set a =", "include", "do", "extends", "deprecated", "return", "sw_include", "sw_extends", "use", "from", "import", "sw_icon", "flush", "include 'a' with", "use 'a' with", "from 'a' import", "import 'a' as", "sw_thumbnails", "props"]);
            ("tag", format!("{{%{wo} {t} {gg} {wc}%}}"))
        }
        _ => {
            let t = *r.pick(&["unknown", "foo", "endunknown", "my_tag", "stopwatch", "form_theme", "BLOCK", "endif_", "ifx"]);
            // keep clear of what is not text outside of the delimiters
            let g2: Vec<&str> = gg.split_whitespace().filter(|x| x.chars().all(|c| c.is_ascii_alphanumeric())).collect();
            ("unknown tag", format!("{{%{wo} {t} {} {wc}%}}", g2.join(" ")))
        }
    }
}
pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "distinct broken documents whose undamaged parts were compared with the same parts parsed without the damage".into();
    let seed = ctx.seed;
    let n = ctx.n(120_000, 1_000_000);
    let res = par_map(n.div_ceil(100), |c| {
        let mut v = vec![];
        for i in c * 100..((c + 1) * 100).min(n) {
            let mut r = Rng::new(mix(seed ^ 11, i as u64));
            let mut cfg = corpus::random_cfg(&mut r);
            cfg.fuel = *r.pick(&[3, 8, 15]);
            let b1 = docgen::document(r.next(), r.next(), &cfg).text;
            if i % 3 == 0 {
                // everything before a broken construct
                let x = match r.below(4) {
                    0 => corpus::hostile(r.next()).1,
                    1 => (*r.pick(corpus::SNIPPETS)).to_string(),
                    2 => corpus::edit(&b1, &mut r),
                    _ => corpus::soup(&mut r, 8),
                };
                let head = format!("{b1}\n<!-- MARKER -->\n");
                let t = format!("{head}{x}");
                let (Some(h), Some(p)) = (parse(&head), parse(&t)) else { continue };
                if !h.errors.is_empty() { continue; }
                let (ht, pt) = (sk::of_node(&h.root), sk::of_node(&p.root));
                let k = ht.kids().len();
                let mut bad = None;
                if pt.kids().len() < k || pt.kids()[..k] != *ht.kids() {
                    let cut = Sk::N("ROOT".into(), pt.kids()[..k.min(pt.kids().len())].to_vec());
                    bad = Some(format!("what precedes the broken construct parses differently: {}", sk::diff(&ht, &cut).unwrap_or_default()));
                } else if let Some(e) = p.errors.iter().find(|e| usize::from(e.range.end()) + 1 < head.len() && usize::from(e.range.end()) <= b1.len()) {
                    bad = Some(format!("an error is reported before the broken construct: {e}"));
                }
                v.push(("before", hash(&t), bad.map(|b| (b, t.clone(), head.clone()))));
                continue;
            }
            let b2 = docgen::document(r.next(), r.next(), &cfg).text;
            let b3 = docgen::document(r.next(), r.next(), &cfg).text;
            let (kind, x) = contained_error(&mut r);
            // (`else` in a broken `if` or `for` tag is where the parser resumes, on purpose)
            if i % 8 == 4 && !x.contains(['<', '>', '"', '&', '=', '\'', '/']) && !x.split("%}").any(|t| t.contains("else") && !t.trim_start_matches(|c: char| !c.is_alphabetic()).starts_with("else")) {
                // between attributes
                let t0 = format!("{b1}<main><div lv-probe=\"a  b\" {{{{ MARKER }}}} id='c' {{% if x %}}d{{% endif %}}><i>k</i></div>{b2}</main><hr>{b3}");
                let t1 = t0.replacen("{{ MARKER }}", &x, 1);
                let (Some(p0), Some(p1)) = (parse(&t0), parse(&t1)) else { continue };
                if !p0.errors.is_empty() { continue; }
                // what stands between the first and the last two entries of the list is the broken construct
                fn emptied(t: &Sk) -> Sk {
                    match t {
                        Sk::T(s) => Sk::T(s.clone()),
                        Sk::N(k, c) if k == "HTML_ATTRIBUTE_LIST" && c.len() >= 4 && c[0].show().contains("lv-probe") => Sk::N(k.clone(), vec![c[0].clone(), c[c.len() - 2].clone(), c[c.len() - 1].clone()]),
                        Sk::N(k, c) => Sk::N(k.clone(), c.iter().map(emptied).collect()),
                    }
                }
                let (a, b) = (emptied(&sk::of_node(&p0.root)), emptied(&sk::of_node(&p1.root)));
                let bad = (a != b).then(|| format!("what surrounds the broken construct between attributes parses differently: {}", sk::diff(&a, &b).unwrap_or_default()));
                v.push(("attribute list", hash(&t1), bad.map(|b| (b, t1.clone(), t0.clone()))));
                continue;
            }
            if i % 8 == 1 && !x.contains(['<', '>', '"', '&', '=']) {
                // in an attribute value
                let t0 = format!("{b1}<main><div class=\"a  b\" id='c'><i>k</i></div>{b2}</main><hr>{b3}");
                let t1 = format!("{b1}<main><div class=\"a {x} b\" id='c'><i>k</i></div>{b2}</main><hr>{b3}");
                let (Some(p0), Some(p1)) = (parse(&t0), parse(&t1)) else { continue };
                if !p0.errors.is_empty() { continue; }
                fn blank_value(t: &Sk) -> Sk {
                    match t {
                        Sk::T(s) => Sk::T(s.clone()),
                        Sk::N(k, c) => if k == "HTML_ATTRIBUTE" && c.first() == Some(&Sk::T("class=".into())) { Sk::N(k.clone(), vec![]) } else { Sk::N(k.clone(), c.iter().map(blank_value).collect()) },
                    }
                }
                let (a, b) = (blank_value(&sk::of_node(&p0.root)), blank_value(&sk::of_node(&p1.root)));
                let bad = (a != b).then(|| format!("what surrounds the broken construct in an attribute value parses differently: {}", sk::diff(&a, &b).unwrap_or_default()));
                v.push(("attribute value", hash(&t1), bad.map(|b| (b, t1.clone(), t0.clone()))));
                continue;
            }
            let (o, cl) = *r.pick(C11_CONTEXTS);
            let t0 = format!("{o}{b1}<!-- MARKER 1 --><!-- MARKER 2 -->{b2}{cl}<hr>{b3}");
            let pre = format!("{o}{b1}<!-- MARKER 1 -->{x}");
            let t1 = format!("{pre}<!-- MARKER 2 -->{b2}{cl}<hr>{b3}");
            let (Some(p0), Some(p1)) = (parse(&t0), parse(&t1)) else { continue };
            if !p0.errors.is_empty() { continue; }
            let (k0, k1) = (sk::of_node(&p0.root), sk::of_node(&p1.root));
            let (Some(s0), Some(s1)) = (slot_children(&k0), slot_children(&k1)) else {
                v.push((kind, hash(&t1), Some(("a construct next to the broken one vanished".into(), t1, t0))));
                continue;
            };
            let m0: Vec<usize> = (0..s0.len()).filter(|i| is_marker(&s0[*i])).collect();
            let m1: Vec<usize> = (0..s1.len()).filter(|i| is_marker(&s1[*i])).collect();
            let mut bad = None;
            if m1.len() != 2 {
                bad = Some("what follows the broken construct is no longer next to it".to_string());
            } else if s0[..=m0[0]] != s1[..=m1[0]] {
                bad = Some("what precedes the broken construct parses differently".into());
            } else if s0[m0[1]..] != s1[m1[1]..] {
                let (x, y) = (Sk::N("SLOT".into(), s0[m0[1]..].to_vec()), Sk::N("SLOT".into(), s1[m1[1]..].to_vec()));
                bad = Some(format!("what follows the broken construct parses differently: {}", sk::diff(&x, &y).unwrap_or_default()));
            } else if replace_slot(&k0) != replace_slot(&k1) && !o.is_empty() {
                bad = Some("the surroundings of the broken construct parse differently".into());
            } else if let Some(e) = p1.errors.iter().find(|e| usize::from(e.range.start()) > pre.len() + 5 || usize::from(e.range.end()) < pre.len() - x.len()) {
                bad = Some(format!("an error is reported outside of the broken construct: {e}"));
            }
            v.push((kind, hash(&t1), bad.map(|b| (b, t1.clone(), t0.clone()))));
        }
        v
    });
    for (k, h, bad) in res.into_iter().flatten() {
        ctx.evals += 1;
        ctx.distinct.insert(h);
        ctx.count(&format!("cases_{}", k.replace(' ', "_")), 1);
        if let Some((b, t, u)) = bad { ctx.violation(&b, json!({"document": t, "without_the_damage": u})); }
    }
    let x: Vec<String> = (0..4).map(|i| contained_error(&mut Rng::new(i)).1).collect();
    ctx.sample(json!({"broken_constructs": x}));
}

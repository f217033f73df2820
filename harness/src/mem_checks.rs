//! C13: memory safety of parsing, traversing, sharing and dropping, observed by sanitizers and Miri.
use crate::corpus;
use crate::gen_ as docgen;
use crate::util::*;
use ludtwig_parser::syntax::untyped::{GreenNode, Language, SyntaxElement, SyntaxKind, SyntaxNode, TemplateLanguage};
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::process::Command;

/// counts the live heap bytes of each thread
pub struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn add(n: i64) { let _ = LIVE.try_with(|l| l.set(l.get() + n)); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as i64); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); unsafe { System.dealloc(p, l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as i64); unsafe { System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as i64 - l.size() as i64); unsafe { System.realloc(p, l, n) } }
}
fn live() -> i64 { LIVE.with(Cell::get) }

fn text(seed: u64, i: usize, small: bool) -> String {
    let mut r = Rng::new(mix(seed ^ 13, i as u64));
    if small {
        let t = match r.below(4) {
            0 | 1 => (*r.pick(corpus::SNIPPETS)).to_string(),
            2 => { let s = (*r.pick(corpus::SNIPPETS)).to_string(); corpus::edit(&s, &mut r) }
            _ => corpus::soup(&mut r, 6),
        };
        let b = corpus::boundary(&t, t.len().min(90));
        return t[..b].to_string();
    }
    match r.below(3) {
        0 => { let cfg = corpus::random_cfg(&mut r); docgen::document(r.next(), r.next(), &cfg).text }
        1 => { let cfg = corpus::random_cfg(&mut r); let d = docgen::document(r.next(), r.next(), &cfg).text; corpus::edit(&d, &mut r) }
        _ => corpus::hostile(r.next()).1,
    }
}
/// look at everything: nodes, tokens, texts, kinds, errors, sub-trees
fn walk(root: &SyntaxNode, r: &mut Rng) -> (u64, u64) {
    let (mut n, mut t) = (0u64, 0u64);
    let mut keep: Vec<SyntaxNode> = vec![];
    for e in root.descendants_with_tokens() {
        match e {
            SyntaxElement::Node(x) => {
                n += 1;
                if r.below(20) == 0 { keep.push(x.clone()); }
                if let Some(f) = x.first_token() { std::hint::black_box(f.text().len()); }
                std::hint::black_box(format!("{:?}", x.kind()).len());
            }
            SyntaxElement::Token(x) => {
                t += 1;
                std::hint::black_box(x.text().bytes().fold(0u8, u8::wrapping_add));
                std::hint::black_box(x.next_token().map(|y| y.text().len()));
            }
        }
    }
    r.shuffle(&mut keep);
    for k in keep { std::hint::black_box((k.parent().map(|p| p.children().count()), k.text().to_string().len())); }
    (n, t)
}

/// `mode seed n threads`: parse on one thread, hand the tree to others, traverse, drop in any order
pub fn c13_worker(a: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let (small, seed, n, threads): (bool, u64, usize, usize) = (a[0] == "small", a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    use std::sync::mpsc::{channel, Receiver, Sender};
    use std::sync::{Arc, Mutex};
    type G = GreenNode;
    type Ch = (Vec<Sender<(usize, G)>>, Vec<Mutex<Option<Receiver<(usize, G)>>>>);
    let (tx, rx): Ch = (0..threads).map(|_| { let (a, b) = channel(); (a, Mutex::new(Some(b))) }).unzip();
    let stats = Arc::new(Mutex::new((0u64, 0u64, 0u64, 0u64, 0u64)));
    let rx = Arc::new(rx);
    let hs: Vec<_> = (0..threads).map(|k| {
        let tx = tx.clone();
        let rx = rx.clone();
        let stats = stats.clone();
        std::thread::Builder::new().stack_size(if small { 8 << 20 } else { 512 << 20 }).spawn(move || {
            let mine = rx[k].lock().unwrap().take().unwrap();
            let mut r = Rng::new(mix(seed, k as u64));
            let mut s = (0u64, 0u64, 0u64, 0u64, 0u64);
            let mut old: Vec<G> = vec![];
            for i in 0..n {
                // neighbouring threads also parse the same text at about the same time
                let t = text(seed, (i + k / 2 * n) % (n * threads), small);
                let Ok(p) = std::panic::catch_unwind(|| ludtwig_parser::parse(&t)) else { continue };
                s.0 += 1;
                s.4 += p.errors.len() as u64;
                std::hint::black_box(p.errors.iter().map(|e| e.to_string().len() + e.expected_message().len()).sum::<usize>());
                let g = p.green_node.clone();
                let _ = tx[(k + 1) % threads].send((i, g.clone()));
                if r.below(3) == 0 { let _ = tx[(k + threads - 1) % threads].send((i, g)); }
                let (root, _) = p.split();
                let (a, b) = walk(&root, &mut r);
                s.1 += a;
                s.2 += b;
                drop(root);
                while let Ok((_, g)) = mine.try_recv() {
                    s.3 += 1;
                    if r.below(2) == 0 { old.push(g.clone()); }
                    let root = SyntaxNode::new_root(g);
                    walk(&root, &mut r);
                }
                if old.len() > 8 { r.shuffle(&mut old); old.truncate(4); }
            }
            drop(tx);
            for (_, g) in mine {
                s.3 += 1;
                walk(&SyntaxNode::new_root(g), &mut r);
            }
            let mut t = stats.lock().unwrap();
            *t = (t.0 + s.0, t.1 + s.1, t.2 + s.2, t.3 + s.3, t.4 + s.4);
        }).unwrap()
    }).collect();
    drop(tx);
    for h in hs { h.join().unwrap(); }
    let s = stats.lock().unwrap();
    println!("OBSERVED parses={} nodes={} tokens={} handed_over={} errors={}", s.0, s.1, s.2, s.3, s.4);
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "distinct texts parsed, traversed, shared between threads and dropped under a memory error detector or allocation accounting".into();
    let seed = ctx.seed;
    // 1. every allocation made while parsing and reading is returned when the tree is dropped
    let n = ctx.n(10_000, 100_000);
    let res = par_map(n.div_ceil(100), |c| {
        let mut v = vec![];
        for i in c * 100..((c + 1) * 100).min(n) {
            let t = text(seed, i, false);
            let go = || std::panic::catch_unwind(|| { let (root, e) = ludtwig_parser::parse(&t).split(); let mut r = Rng::new(i as u64); let w = walk(&root, &mut r); drop(e); w.1 }).ok();
            if go().is_none() { continue; }
            let _ = go();
            // lazily created process-wide state is allowed to appear once, so take the best of three
            let leak = (0..3).map(|_| { let a = live(); let _ = go(); live() - a }).min_by_key(|x| x.abs()).unwrap();
            v.push((hash(&t), (leak != 0).then_some((leak, t))));
        }
        v
    });
    for (h, bad) in res.into_iter().flatten() {
        ctx.evals += 1;
        ctx.distinct.insert(h);
        ctx.count("allocation_balances", 1);
        if let Some((l, t)) = bad { ctx.violation(&format!("{l} bytes stay allocated after parsing and dropping everything"), json!({"document": t})); }
    }
    // 2. the unchecked conversion from raw kinds
    let mut accepted = 0u64;
    for raw in 0..=u16::MAX {
        let mut rk = TemplateLanguage::kind_to_raw(SyntaxKind::ROOT);
        rk.0 = raw;
        let r = std::panic::catch_unwind(|| TemplateLanguage::kind_from_raw(rk));
        let top = SyntaxKind::ROOT as u16;
        match r {
            Ok(k) => {
                accepted += 1;
                if raw > top || TemplateLanguage::kind_to_raw(k).0 != raw {
                    ctx.violation(&format!("kind_from_raw({raw}) makes a kind that does not exist"), json!({"raw": raw, "highest": top}));
                    break;
                }
            }
            Err(_) => if raw <= top { ctx.count("refused_existing_kinds", 1); },
        }
    }
    ctx.count("raw_kinds_accepted", accepted);
    // 3. sanitizers and Miri
    let mut jobs: Vec<(&str, String, Vec<String>)> = vec![];
    for (tool, var, runs, size, th, small) in [
        ("AddressSanitizer", "LV_ASAN", ctx.n(4, 16), ctx.n(1500, 8000), 4usize, false),
        ("ThreadSanitizer", "LV_TSAN", ctx.n(4, 16), ctx.n(600, 3000), 4, false),
        ("Miri", "LV_MIRI", ctx.n(8, 48), ctx.n(7, 30), 2, true),
    ] {
        let Ok(bin) = std::env::var(var) else { eprintln!("ERROR: {var} is not set"); std::process::exit(3) };
        for k in 0..runs {
            jobs.push((tool, bin.clone(), vec!["worker-c13".into(), if small { "small" } else { "big" }.into(), mix(seed, k as u64).to_string(), size.to_string(), th.to_string()]));
        }
    }
    let thorough = ctx.thorough;
    let res = par_map(jobs.len(), |i| {
        let (tool, bin, args) = &jobs[i];
        let mut it = bin.split(' ');
        let mut c = Command::new(it.next().unwrap());
        c.args(it).args(args);
        if *tool == "Miri" {
            c.current_dir(verif_dir().join("harness"))
                .env("MIRIFLAGS", format!("-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-seed={i} -Zmiri-preemption-rate=0.05"))
                .env("RUSTUP_TOOLCHAIN", "nightly").env("CARGO_TARGET_DIR", verif_dir().join("target/miri"));
        }
        c.env("ASAN_OPTIONS", "detect_leaks=1:detect_stack_use_after_return=0").env("TSAN_OPTIONS", "halt_on_error=0:second_deadlock_stack=1");
        let _ = thorough;
        c.output()
    });
    for (i, o) in res.into_iter().enumerate() {
        let tool = jobs[i].0;
        let o = match o { Ok(o) => o, Err(e) => { eprintln!("ERROR: cannot run {}: {e}", jobs[i].1); std::process::exit(3) } };
        let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
        let report = ["ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "Undefined Behavior", "memory leaked", "Data race"].iter().any(|w| err.contains(w));
        if report {
            let at = err.lines().position(|l| l.contains("Sanitizer") || l.starts_with("error")).unwrap_or(0);
            let l: Vec<&str> = err.lines().skip(at).take(40).collect();
            ctx.violation(&format!("{tool} reports a memory error"), json!({"command": jobs[i].2, "report": l}));
        } else if let Some(l) = out.lines().find(|l| l.starts_with("OBSERVED")) {
            ctx.count(&format!("{tool}_runs"), 1);
            for f in l.split(' ').skip(1) {
                if let Some((k, v)) = f.split_once('=') { ctx.count(&format!("{tool}_{k}"), v.parse().unwrap_or(0)); }
            }
            ctx.evals += 1;
            ctx.distinct.insert(hash(&format!("{tool}{i}")));
        } else if o.status.code().is_none() || err.contains("LeakSanitizer has encountered a fatal error") {
            eprintln!("ERROR: {tool} could not run: {}", cut(&err, 2000));
            std::process::exit(3);
        } else {
            ctx.violation(&format!("the process under {tool} ended abnormally ({:?})", o.status), json!({"command": jobs[i].2, "stderr": cut(&err, 4000)}));
        }
    }
    ctx.sample(json!({"small": text(seed, 3, true), "big": cut(&text(seed, 4, false), 300)}));
    ctx.assumptions.push("Miri runs without the experimental aliasing model, which the third-party rowan crate itself does not follow".into());
}

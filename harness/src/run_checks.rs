//! Whole runs: which files are scanned, written and configured how, under faults, schedules and settings.
use crate::cli::*;
use crate::fix_checks::{any_conf, damaged, joined};
use crate::gen_::{self, Cfg};
use crate::lint_checks::*;
use crate::oracle;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------ recorded runs
pub fn shim() -> String {
    std::env::var("LV_SHIM").unwrap_or_else(|_| "/verif/target/shim.so".into())
}
#[derive(Clone, Debug)]
pub struct Op {
    pub op: String,
    pub ret: i64,
    pub path: String,
}
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}
/// runs with the recorder preloaded; `aux` is a directory outside of what the program sees
pub fn recorded(cmd: Cmd, aux: &Path, faults: &[String], delay: Option<(usize, u64)>) -> (Run, Vec<Op>) {
    std::fs::create_dir_all(aux).unwrap();
    let (log, fl) = (aux.join("log"), aux.join("faults"));
    let _ = std::fs::remove_file(&log);
    std::fs::write(&fl, faults.iter().map(|f| format!("{f}\n")).collect::<String>()).unwrap();
    let mut cmd = cmd.env("LD_PRELOAD", &shim()).env("LV_SHIM_LOG", &log.to_string_lossy()).env("LV_SHIM_FAULTS", &fl.to_string_lossy());
    if let Some((us, seed)) = delay {
        cmd = cmd.env("LV_SHIM_DELAY", &format!("{us}:{}", seed as u32 | 1));
    }
    let run = cmd.run();
    let ops = std::fs::read_to_string(&log).unwrap_or_default().lines().filter_map(|l| {
        let mut it = l.splitn(3, '\t');
        Some(Op { op: it.next()?.into(), ret: it.next()?.parse().ok()?, path: decode(it.next()?) })
    }).collect();
    (run, ops)
}
pub fn fault(op: &str, path: &str, errno: i32, skip: i64, count: i64, limit: i64) -> String {
    format!("{op}\t{path}\t{errno}\t{skip}\t{count}\t{limit}")
}

/// everything about the entries below a directory that a run could change
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    pub data: Vec<u8>,
    pub mode: u32,
    pub ino: u64,
    pub mtime: (i64, i64),
}
pub fn snapshot(d: &Path) -> BTreeMap<PathBuf, Entry> {
    let mut m = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() {
        let Ok(md) = std::fs::symlink_metadata(&p) else { continue };
        let data = if md.is_file() { std::fs::read(&p).unwrap_or_default() } else if md.is_symlink() { std::fs::read_link(&p).map(|x| x.as_os_str().as_bytes().to_vec()).unwrap_or_default() } else { b"dir".to_vec() };
        if md.is_dir() {
            for e in std::fs::read_dir(&p).unwrap().flatten() {
                todo.push(e.path());
            }
        }
        m.insert(p.strip_prefix(d).unwrap().to_path_buf(), Entry { data, mode: md.mode(), ino: md.ino(), mtime: (md.mtime(), md.mtime_nsec()) });
    }
    m
}
/// entries which differ
pub fn changes(a: &BTreeMap<PathBuf, Entry>, b: &BTreeMap<PathBuf, Entry>) -> Vec<(PathBuf, String)> {
    let mut v = vec![];
    for (p, e) in a {
        match b.get(p) {
            None => v.push((p.clone(), "removed".into())),
            Some(f) if f.data != e.data => v.push((p.clone(), "content".into())),
            Some(f) if f != e => v.push((p.clone(), format!("mode {:o} inode {} time {:?} became mode {:o} inode {} time {:?}", e.mode, e.ino, e.mtime, f.mode, f.ino, f.mtime))),
            _ => {}
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) { v.push((p.clone(), "created".into())) }
    }
    v
}

// ------------------------------------------------------------------ C21
struct Pat {
    neg: bool,
    dir_only: bool,
    anchored: bool,
    glob: String,
}
fn pats(t: &str) -> Vec<Pat> {
    t.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| {
        let (neg, l) = l.strip_prefix('!').map_or((false, l), |x| (true, x));
        let (dir_only, l) = l.strip_suffix('/').map_or((false, l), |x| (true, x));
        let anchored = l.contains('/') && !l.starts_with("**/");
        let glob = l.strip_prefix('/').unwrap_or(l).to_string();
        Pat { neg, dir_only, anchored, glob }
    }).collect()
}
fn glob(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') if p.get(1) == Some(&'*') => (0..=s.len()).any(|k| glob(&p[2..], &s[k..])),
        Some('*') => (0..=s.len()).take_while(|&k| !s[..k].contains(&'/')).any(|k| glob(&p[1..], &s[k..])),
        Some('?') => s.first().is_some_and(|c| *c != '/') && glob(&p[1..], &s[1..]),
        Some('[') => {
            let e = p.iter().position(|c| *c == ']').unwrap();
            s.first().is_some_and(|c| p[1..e].contains(c)) && glob(&p[e + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}
/// Some(true): ignored, Some(false): explicitly not ignored
fn verdict(ps: &[Pat], rel: &str, is_dir: bool) -> Option<bool> {
    ps.iter().rev().find_map(|p| {
        if p.dir_only && !is_dir { return None }
        let g = p.glob.strip_prefix("**/").unwrap_or(&p.glob);
        let subject = if p.anchored { rel } else { rel.rsplit('/').next().unwrap() };
        let (g, s): (Vec<char>, Vec<char>) = (g.chars().collect(), subject.chars().collect());
        glob(&g, &s).then_some(!p.neg)
    })
}
struct Tree {
    root: PathBuf,
    /// path relative to the root -> id of the file, or none for directories
    nodes: BTreeMap<PathBuf, Option<usize>>,
    ignores: BTreeMap<(PathBuf, &'static str), Vec<Pat>>,
    git: BTreeSet<PathBuf>,
    excludes: BTreeMap<PathBuf, Vec<Pat>>,
}
const TEMPLATE_EXT: &[&str] = &[".twig", ".html", ".htm", ".ejs"];
impl Tree {
    fn rel(&self, dir: &Path, p: &Path) -> String {
        p.strip_prefix(dir).unwrap().to_string_lossy().into_owned()
    }
    /// paths are relative to the root
    fn ignored(&self, p: &Path, is_dir: bool, cwd: &Path) -> Option<bool> {
        let mut m: [Option<bool>; 4] = [None; 4];
        let dirs: Vec<&Path> = p.ancestors().skip(1).collect();
        let any_git = dirs.iter().any(|d| self.git.contains(*d));
        let mut saw = false;
        for d in &dirs {
            let r = self.rel(d, p);
            for (k, name) in [".ludtwig-ignore", ".ignore", ".gitignore"].into_iter().enumerate() {
                if m[k].is_none() && (k < 2 || (any_git && !saw)) {
                    if let Some(ps) = self.ignores.get(&(d.to_path_buf(), name)) {
                        m[k] = verdict(ps, &r, is_dir);
                    }
                }
            }
            if m[3].is_none() && any_git && !saw {
                if let Some(ps) = self.excludes.get(*d) { m[3] = verdict(ps, &r, is_dir) }
            }
            saw |= self.git.contains(*d);
        }
        let mut out = m[0].or(m[1]).or(m[2]).or(m[3]);
        if out.is_none() {
            // the file in the working directory applies everywhere
            if let Some(ps) = self.ignores.get(&(cwd.to_path_buf(), ".ludtwig-ignore")) {
                if !p.starts_with(cwd) || p == cwd {
                    out = verdict(&ps.iter().filter(|p| !p.anchored).map(|p| Pat { neg: p.neg, dir_only: p.dir_only, anchored: false, glob: p.glob.clone() }).collect::<Vec<_>>(), &p.to_string_lossy(), is_dir);
                }
            }
        }
        out
    }
    /// ids that must be scanned, and ids that may be
    fn expected(&self, args: &BTreeSet<PathBuf>, cwd: &Path) -> (BTreeSet<usize>, BTreeSet<usize>) {
        let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
        for a in args {
            match self.nodes.get(a) {
                Some(Some(id)) => { must.insert(*id); }
                _ => self.walk(a, args, cwd, &mut must, &mut may),
            }
        }
        (must, may)
    }
    fn walk(&self, dir: &Path, args: &BTreeSet<PathBuf>, cwd: &Path, must: &mut BTreeSet<usize>, may: &mut BTreeSet<usize>) {
        for (p, id) in self.nodes.iter().filter(|(p, _)| p.parent() == Some(dir)) {
            if args.contains(p) { continue }
            let v = self.ignored(p, id.is_none(), cwd);
            if v == Some(true) { continue }
            let name = p.file_name().unwrap().to_string_lossy().into_owned();
            let hidden = name.starts_with('.');
            match id {
                None if hidden && v.is_none() => {}
                None => self.walk(p, args, cwd, must, may),
                Some(id) if TEMPLATE_EXT.iter().any(|e| p.as_os_str().as_bytes().ends_with(e.as_bytes())) => {
                    if hidden { may.insert(*id); } else { must.insert(*id); }
                }
                _ => {}
            }
        }
    }
}
const DIRS: &[&str] = &["a", "views", "b dir", "deep", "skip", "node_modules", "sub.twig", "x.html", "-dash", "ünï", "it's", "#h", "[br]", ".hid", ".cache", "vendor", "A", "storefront"];
const STEMS: &[&str] = &["index", "base", "a", "page layout", "it's", "dash-", "-lead", "ünïcode", "x#y", "p%20q", "[z]", "keep", "skipme", "tab\tx", "semi;colon", "q\"uote", "star*", "back\\slash", "dot.dot", "{x}", "日本", "e\u{301}", "$HOME", "~t", "nl\nx", "ex1", "exam", "lock"];
const EXTS: &[&str] = &[".twig", ".html.twig", ".twig", ".html", ".htm", ".ejs", ".txt", ".js", ".TWIG", ".twig.bak", ".html~", "", ".xhtml", ".htmlx", ".php", ".twig.dist", ".md", ".xml"];
const PATTERNS: &[&str] = &["skip", "skip/", "*.html", "*.twig", "keep*", "skipme.*", "/views", "/a/", "views/*", "a/b dir", "**/deep", "deep/**", "ex?.twig", "[ab].twig", "*.htm", "node_modules/", "vendor", "/index.twig", "/*.ejs", "page*", "index.*", "storefront/", "A", "nothing.here"];

fn build_tree(r: &mut Rng, root: &Path, size: usize) -> Tree {
    let mut t = Tree { root: root.into(), nodes: BTreeMap::new(), ignores: BTreeMap::new(), git: BTreeSet::new(), excludes: BTreeMap::new() };
    let mut dirs = vec![PathBuf::new(), PathBuf::from("proj")];
    t.nodes.insert("proj".into(), None);
    let mut id = 0;
    let deep = r.pct(20);
    for _ in 0..size {
        let d = if deep { dirs[dirs.len() - 1 - r.below(dirs.len().min(3))].clone() } else { r.pick(&dirs).clone() };
        if r.pct(30) && d.as_os_str().len() < 700 {
            let n = d.join(*r.pick(DIRS));
            if t.nodes.insert(n.clone(), None).is_none() { dirs.push(n) }
        } else {
            let mut name = OsString::new();
            if r.pct(6) { name.push(".") }
            name.push(*r.pick(STEMS));
            if r.pct(4) { name.push(OsString::from_vec(vec![0xff, b'z', 0xc3])) }
            if r.pct(40) { name.push(format!("{}", r.below(5))) }
            name.push(*r.pick(EXTS));
            let p = d.join(name);
            if !t.nodes.contains_key(&p) {
                id += 1;
                t.nodes.insert(p, Some(id));
            }
        }
    }
    // far down, in long names, many in one place
    if r.pct(4) {
        let mut d = r.pick(&dirs).clone();
        let n = *r.pick(&[33usize, 65, 66, 100, 129, 200, 257, 520]);
        let long = r.pct(20);
        for _ in 0..if long { 12 } else { n } {
            if d.as_os_str().len() > 3000 { break }
            let c = if long { "l".repeat(*r.pick(&[100usize, 200, 255])) } else { r.pick(&["n", "n", "m"]).to_string() };
            d.push(c);
            t.nodes.insert(d.clone(), None);
            if r.pct(5) { id += 1; t.nodes.insert(d.join("mid.twig"), Some(id)); }
        }
        id += 1;
        t.nodes.insert(d.join("bottom.html.twig"), Some(id));
        id += 1;
        t.nodes.insert(d.join(format!("{}.twig", "f".repeat(*r.pick(&[1usize, 100, 200, 250])))), Some(id));
    }
    if r.pct(2) {
        let d = r.pick(&dirs).clone();
        let n = *r.pick(&[130usize, 260, 600, 1030]);
        for k in 0..n { id += 1; t.nodes.insert(d.join(format!("many{k}{}", r.pick(&[".twig", ".html", ".htm", ".ejs", ".html.twig", ".css"]))), Some(id)); }
    }
    let big = r.pct(4);
    for (p, id) in &t.nodes {
        let a = root.join(p);
        match id {
            None => std::fs::create_dir_all(a).unwrap(),
            Some(i) => {
                std::fs::create_dir_all(a.parent().unwrap()).unwrap();
                let mut s = format!("{{% block Id{i}X %}}{{% endblock %}}\n");
                // large files
                if big && r.pct(12) {
                    let n = *r.pick(&[4096usize, 8192, 65_536, 70_000, 131_073, 262_145, 524_289, 1_048_577, 1_100_000, 2_100_000, 4_300_000]);
                    let w = "x".repeat(n.min(200_000) - 1) + "\n";
                    while s.len() < n { s.push_str(&w) }
                }
                std::fs::write(a, s).unwrap();
            }
        }
    }
    for d in &dirs {
        if r.pct(if d.as_os_str().is_empty() { 20 } else { 12 }) {
            std::fs::create_dir_all(root.join(d).join(".git/info")).unwrap();
            id += 1;
            std::fs::write(root.join(d).join(".git/hook.twig"), format!("{{% block Id{id}X %}}{{% endblock %}}\n")).unwrap();
            t.nodes.insert(d.join(".git"), None);
            t.nodes.insert(d.join(".git/info"), None);
            t.nodes.insert(d.join(".git/hook.twig"), Some(id));
            t.git.insert(d.clone());
            if r.pct(30) {
                let s = pattern_file(r);
                std::fs::write(root.join(d).join(".git/info/exclude"), &s).unwrap();
                t.excludes.insert(d.clone(), pats(&s));
            }
        }
        for (name, pc) in [(".ludtwig-ignore", 22), (".ignore", 12), (".gitignore", 22)] {
            if r.pct(pc) {
                let s = pattern_file(r);
                std::fs::write(root.join(d).join(name), &s).unwrap();
                t.ignores.insert((d.clone(), name), pats(&s));
            }
        }
    }
    t
}
fn pattern_file(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        if r.pct(10) { s.push_str("# *.twig\n\n") }
        if r.pct(20) { s.push('!') }
        s.push_str(*r.pick(PATTERNS));
        s.push('\n');
    }
    s
}
fn relative(from: &Path, to: &Path) -> PathBuf {
    let common = from.components().zip(to.components()).take_while(|(a, b)| a == b).count();
    let mut p = PathBuf::new();
    for _ in from.components().skip(common) { p.push("..") }
    for c in to.components().skip(common) { p.push(c) }
    if p.as_os_str().is_empty() { p.push(".") }
    p
}
pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "a random directory tree with ignore files is scanned by one run; every file carries a finding with its own number, and the numbers reported (and how often) are compared with those an independent model of the selection rules expects; runs which scan at least one and skip at least one file count".into();
    let nb = ctx.n(2500, 40000);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C21-{b}"));
        let root = base.join("w");
        std::fs::create_dir_all(root.join("proj")).unwrap();
        let size = *r.pick(&[5usize, 15, 40, 40, 120]);
        let t = build_tree(r, &root, size);
        let conf = Conf::defaults().with_rules(&["twig-block-name-snake-case"]);
        std::fs::write(base.join("conf.toml"), conf.toml()).unwrap();
        // symbolic links to directories are not followed
        if r.pct(30) {
            std::fs::create_dir_all(base.join("out")).unwrap();
            std::fs::write(base.join("out/z.twig"), "{% block Id0X %}{% endblock %}\n").unwrap();
            let _ = std::os::unix::fs::symlink("../../out", root.join("proj/linkdir"));
            let _ = std::os::unix::fs::symlink(".", root.join("proj/loopdir"));
        }
        let dirs: Vec<PathBuf> = t.nodes.iter().filter(|n| n.1.is_none()).map(|n| n.0.clone()).collect();
        let files: Vec<PathBuf> = t.nodes.iter().filter(|n| n.1.is_some()).map(|n| n.0.clone()).collect();
        let cwd = if r.pct(75) { PathBuf::from("proj") } else { r.pick(&dirs).clone() };
        let mut args: BTreeSet<PathBuf> = BTreeSet::new();
        let mut list: Vec<OsString> = vec![];
        for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3, 6]) {
            let p = match r.below(10) {
                0..=3 => cwd.clone(),
                4 | 5 => r.pick(&dirs).clone(),
                6 => PathBuf::new(),
                _ if !files.is_empty() => r.pick(&files).clone(),
                _ => cwd.clone(),
            };
            args.insert(p.clone());
            for _ in 0..*r.pick(&[1usize, 1, 1, 2]) {
                let mut a: OsString = if r.pct(30) { root.join(&p).into() } else {
                    let q = relative(&cwd, &p);
                    if q.as_os_str().as_bytes().starts_with(b"-") || (r.pct(25) && !q.starts_with(".") && !q.starts_with("..")) { Path::new("./").join(q).into() } else { q.into() }
                };
                if t.nodes.get(&p).is_none_or(Option::is_none) && r.pct(20) { a.push("/") }
                list.push(a);
            }
        }
        for i in (1..list.len()).rev() {
            let j = r.below(i + 1);
            list.swap(i, j);
        }
        let (must, may) = t.expected(&args, &cwd);
        let mut c = Cmd::new(&root.join(&cwd)).args(&["-c", &base.join("conf.toml").to_string_lossy()]);
        c.os_args = list.clone();
        if r.pct(30) { c = c.env("RAYON_NUM_THREADS", *r.pick(&["1", "2", "16"])) }
        let run = c.run();
        let mut seen: BTreeMap<usize, usize> = BTreeMap::new();
        for l in run.stderr.lines() {
            if let Some(k) = l.find("{% block Id") {
                let n: String = l[k + 11..].chars().take_while(char::is_ascii_digit).collect();
                *seen.entry(n.parse().unwrap_or(0)).or_default() += 1;
            }
        }
        let name = |i: &usize| t.nodes.iter().find(|n| *n.1 == Some(*i)).map_or("a file that must not be seen".to_string(), |n| n.0.to_string_lossy().into_owned());
        let detail = || {
            let mut ig = BTreeMap::new();
            for (d, n) in t.ignores.keys() { ig.insert(d.join(n).to_string_lossy().into_owned(), std::fs::read_to_string(t.root.join(d).join(n)).unwrap_or_default()); }
            for d in &t.git { ig.insert(d.join(".git").to_string_lossy().into_owned(), std::fs::read_to_string(t.root.join(d).join(".git/info/exclude")).unwrap_or_default()); }
            json!({"args": list.iter().map(|a| a.to_string_lossy()).collect::<Vec<_>>(), "cwd": cwd, "files": files.iter().map(|a| a.to_string_lossy()).collect::<Vec<_>>(), "ignore_files": ig, "stdout": run.stdout, "stderr": cut(&run.stderr, 1500)})
        };
        if let Some(e) = run.bad() {
            o.bad(e, detail());
        } else {
            for (i, n) in &seen {
                if *n > 1 { o.bad(format!("{:?} was scanned {n} times", name(i)), detail()) }
                if !must.contains(i) && !may.contains(i) { o.bad(format!("{:?} was scanned although it is not selected", name(i)), detail()) }
            }
            for i in &must {
                if !seen.contains_key(i) { o.bad(format!("{:?} was not scanned", name(i)), detail()) }
            }
            let n = run.summary.as_ref().map(|s| s.files);
            if n != Some(seen.values().sum::<usize>() as u64) {
                o.bad(format!("{n:?} files scanned, but {} reported something", seen.len()), detail());
            }
        }
        rm(&base);
        o.add("files_in_trees", files.len());
        o.add("files_scanned", seen.len());
        o.add("ignore_files", t.ignores.len() + t.excludes.len());
        o.add("paths_given", list.len());
        o.evals.push((format!("{b} {files:?} {list:?}"), !must.is_empty() && must.len() < files.len()));
        if b < 3 { o.samples.push(json!({"args": list.iter().map(|a| a.to_string_lossy()).collect::<Vec<_>>(), "cwd": cwd, "files": files.len(), "scanned": seen.len()})) }
    });
}

// ------------------------------------------------------------------ C22
/// a directory with templates and other files
fn project(r: &mut Rng, dir: &Path, conf: &Conf, n: usize) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    std::fs::write(dir.join("ludtwig-config.toml"), conf.toml()).unwrap();
    let ds = docs(r, n, |r, c| { c.plain_extends = true; c.fuel = *r.pick(&[10i64, 25, 60]); c.rules = true; if r.pct(20) { c.directives = 10; c.file_dirs = 20 } });
    for (i, d) in ds.into_iter().enumerate() {
        let t = match r.below(10) {
            0 => damaged(r),
            1 => "{{ a }}\n".to_string(),
            2 => String::new(),
            // large enough for several calls
            3 => d.text.repeat(1 + 12_000 / d.text.len().max(1)),
            _ => d.text,
        };
        let sub = *r.pick(&["", "", "sub/", "sub/deeper/", "o d d/"]);
        let name = format!("{sub}f{i}{}", r.pick(&[".twig", ".html.twig", ".html"]));
        std::fs::create_dir_all(dir.join(&name).parent().unwrap()).unwrap();
        std::fs::write(dir.join(&name), &t).unwrap();
        m.insert(name, t);
    }
    // what must be left alone
    std::fs::write(dir.join("note.txt"), "{% block A %}{% endblock %}\n").unwrap();
    std::fs::write(dir.join(".ludtwig-ignore"), "ignored.twig\n").unwrap();
    std::fs::write(dir.join("ignored.twig"), "{% block A %}{% endblock %}\n").unwrap();
    for p in snapshot(dir).keys() {
        let mode = *r.pick(&[0o644u32, 0o600, 0o444, 0o755]);
        let q = dir.join(p);
        if q.is_file() { let _ = std::fs::set_permissions(&q, std::os::unix::fs::PermissionsExt::from_mode(mode)); }
    }
    m
}
/// files that have much in common: name, size, beginning, all of their content
fn twins(r: &mut Rng, dir: &Path, files: &mut BTreeMap<String, String>) -> Vec<String> {
    let mut names = vec![];
    let base: Vec<String> = files.values().cloned().collect();
    for i in 0..r.range(1, 4) {
        let t = r.pick(&base).clone();
        let rule = *r.pick(crate::oracle::RULES);
        let (a, b) = match r.below(7) {
            0 => (format!("{{# ludtwig-ignore-file #}}{t}"), format!("{{# ludtwig ignore-file #}}{t}")),
            1 => (format!("{{# ludtwig-ignore-file {rule} #}}{t}"), format!("{{# ludtwig ignore-file {rule} #}}{t}")),
            2 => (format!("{{# ludtwig-ignore #}}{t}"), format!("{{# ludtwig ignore #}}{t}")),
            3 => (format!("{t}{{% block Aa %}}{{% endblock %}}<p id='x'></p>"), format!("{t}{{% block aa %}}{{% endblock %}}<p id=\"y\"></p>")),
            4 => (t.clone(), t.clone()),
            5 => (format!("{t}<p>"), format!("{t}<p/>")),
            _ => (format!("{t}\r\n{{{{ a }}}}"), format!("{t}\n\n{{{{ a }}}}")),
        };
        let (x, y) = match r.below(4) {
            0 => (format!("tw{i}/a/same.html.twig"), format!("tw{i}/b/same.html.twig")),
            1 => (format!("tw{i}/same.html.twig"), format!("tw{i}/same.html")),
            2 => (format!("same{i}.twig"), format!("tw{i}/same{i}.twig")),
            _ => (format!("tw{i}a.twig"), format!("tw{i}b.twig")),
        };
        let (a, b) = if r.pct(50) { (a, b) } else { (b, a) };
        for (n, t) in [(x, a), (y, b)] {
            std::fs::create_dir_all(dir.join(&n).parent().unwrap()).unwrap();
            std::fs::write(dir.join(&n), &t).unwrap();
            files.insert(n.clone(), t);
            names.push(n);
        }
    }
    names
}
fn writes(ops: &[Op]) -> Vec<&Op> {
    ops.iter().filter(|o| o.op.starts_with("openw") || o.op.starts_with("change:") || o.op.starts_with("write")).collect()
}
/// what fixing makes of a text, in a directory of its own
fn fixed_alone(dir: &Path, conf: &Conf, name: &str, text: &str) -> Option<String> {
    let _ = std::fs::remove_dir_all(dir);
    let f = dir.join(name);
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    std::fs::write(dir.join("ludtwig-config.toml"), conf.toml()).unwrap();
    std::fs::write(&f, text).unwrap();
    let run = Cmd::new(dir).args(&["--fix", name]).env("RAYON_NUM_THREADS", "1").run();
    if run.bad().is_some() { return None }
    std::fs::read_to_string(&f).ok()
}
pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "a run over a directory with templates and other files is observed from inside the process: every opening for writing, write and other change of the file system is recorded and the directory is compared before and after, with and without fixing; runs in which at least one file could be fixed count".into();
    let nb = ctx.n(400, 7000);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C22-{b}"));
        let dir = base.join("w");
        std::fs::create_dir_all(&dir).unwrap();
        let conf = any_conf(r);
        let n = *r.pick(&[1usize, 4, 10]);
        let files = project(r, &dir, &conf, n);
        let aux = base.join("aux");
        let detail = |ops: &[Op], x: Value| json!({"config": conf.toml(), "files": files, "calls": writes(ops).iter().take(60).map(|o| format!("{} {} {}", o.op, o.ret, o.path)).collect::<Vec<_>>(), "what": x});
        // without the option
        let before = snapshot(&dir);
        let mut modes: Vec<Vec<&str>> = vec![vec!["."], vec!["-v", "."], vec!["-i", "."]];
        modes.push(files.keys().map(String::as_str).collect());
        for m in [r.below(3), 3] {
            let (run, ops) = recorded(Cmd::new(&dir).args(&modes[m]), &aux, &[], None);
            if let Some(e) = run.bad() { o.bad(e, detail(&ops, json!(modes[m]))) }
            let w = writes(&ops);
            if let Some(x) = w.first() { o.bad(format!("{} of {:?} without fixing", x.op, x.path), detail(&ops, json!(modes[m]))) }
            for (p, c) in changes(&before, &snapshot(&dir)) { o.bad(format!("{} was changed without fixing: {c}", p.display()), detail(&ops, json!(modes[m]))) }
            o.add("runs_without_fixing", 1);
            o.add("files_read", ops.iter().filter(|x| x.op == "openr").count());
        }
        // with it
        let args: Vec<&str> = if r.pct(60) { vec!["--fix", "."] } else { std::iter::once("-f").chain(files.keys().map(String::as_str)).collect() };
        let (run, ops) = recorded(Cmd::new(&dir).args(&args), &aux, &[], None);
        if let Some(e) = run.bad() { o.bad(e, detail(&ops, json!(args))) }
        let after = snapshot(&dir);
        let norm = |p: &str| p.trim_start_matches("./").to_string();
        let opened: Vec<String> = ops.iter().filter(|x| x.op.starts_with("openw")).map(|x| norm(&x.path)).collect();
        let mut written = 0;
        for (f, t) in &files {
            let now = std::fs::read_to_string(dir.join(f)).unwrap_or_default();
            let want = fixed_alone(&base.join("alone"), &conf, f, t);
            if want.as_ref() != Some(&now) {
                o.bad(format!("{f} does not have the fixed text"), detail(&ops, json!({"file": f, "written": now, "fixed_alone": want})));
            }
            let k = opened.iter().filter(|p| *p == f).count();
            if k != usize::from(now != *t) {
                o.bad(format!("{f} was opened for writing {k} times and its text was {}", if now == *t { "not changed" } else { "changed" }), detail(&ops, json!(f)));
            }
            let bytes: i64 = ops.iter().filter(|x| x.op == "write" && norm(&x.path) == *f).map(|x| x.ret).sum();
            if now != *t && bytes != now.len() as i64 {
                o.bad(format!("{bytes} bytes were written to {f}, its text has {}", now.len()), detail(&ops, json!(f)));
            }
            if now != *t { written += 1 }
            let told = run.fixed.iter().filter(|p| norm(p) == *f).count();
            if told != usize::from(now != *t) { o.bad(format!("{f} is {told} times said to be fixed"), detail(&ops, json!(run.stdout))) }
        }
        for p in &opened {
            if !files.contains_key(p) { o.bad(format!("{p:?} was opened for writing"), detail(&ops, json!(null))) }
        }
        if let Some(x) = ops.iter().find(|x| x.op.starts_with("change:")) {
            o.bad(format!("{} of {:?}", x.op, x.path), detail(&ops, json!(null)));
        }
        for (p, c) in changes(&before, &after) {
            let f = p.to_string_lossy().into_owned();
            if !(c == "content" && files.contains_key(&f)) {
                o.bad(format!("{f} was changed: {c}"), detail(&ops, json!(null)));
            }
            let (x, y) = (&before[&p], &after[&p]);
            if x.mode != y.mode || x.ino != y.ino { o.bad(format!("{f} was replaced or its mode changed"), detail(&ops, json!(null))) }
        }
        // again: nothing left to write
        let (_, ops) = recorded(Cmd::new(&dir).args(&args), &aux, &[], None);
        if let Some(x) = writes(&ops).first() { o.bad(format!("{} of {:?} when fixing again", x.op, x.path), detail(&ops, json!(null))) }
        rm(&base);
        o.add("files_written", written);
        o.add("files_not_written", files.len() - written);
        o.evals.push((format!("{b} {files:?}"), written > 0));
        if b < 2 { o.samples.push(json!({"files": files.keys().collect::<Vec<_>>(), "written": opened, "args": args})) }
    });
}

// ------------------------------------------------------------------ C23
const EIO: i32 = 5;
const EINTR: i32 = 4;
pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "a run in which some files fail (missing permission, I/O error when opening, reading or writing, disk full, not UTF-8, dangling or looping link, vanished, malformed, not fixable) is compared with the same run without these files: findings and fixed texts of all other files must be the same, each failure reported, and the exit status 1; interrupted and partial calls must not be noticed at all; runs with at least one fault that was hit count".into();
    let nb = ctx.n(700, 12000);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C23-{b}"));
        let (dir, twin) = (base.join("w"), base.join("twin"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut conf = any_conf(r);
        if r.pct(50) && !conf.has("twig-use-is-same-as") { conf.rules.push("twig-use-is-same-as".into()) }
        let n = *r.pick(&[2usize, 5, 12]);
        let good = project(r, &dir, &conf, n);
        std::fs::create_dir_all(&twin).unwrap();
        std::fs::write(twin.join("ludtwig-config.toml"), conf.toml()).unwrap();
        std::fs::write(twin.join(".ludtwig-ignore"), "ignored.twig\n").unwrap();
        for (f, t) in &good {
            std::fs::create_dir_all(twin.join(f).parent().unwrap()).unwrap();
            std::fs::write(twin.join(f), t).unwrap();
        }
        let fix = r.pct(60);
        let mut faults = vec![];
        let mut failing: BTreeMap<String, &'static str> = BTreeMap::new();
        let mut malformed = vec![];
        let fixable = "{% block BadName %}\n    {{ a && b }}\n{% endblock %}\n<p ID='x'>\n\n\n  </p>\n".to_string();
        let sure = ["twig-block-name-snake-case", "twig-logic-and"].iter().any(|x| conf.has(x));
        for k in 0..r.range(1, 4) {
            let f = format!("{}bad{k}.twig", r.pick(&["", "", "sub/"]));
            let p = dir.join(&f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            let big = fixable.repeat(300);
            let text = if r.pct(30) { &big } else { &fixable };
            let mut put = |t: &[u8]| std::fs::write(&p, t).unwrap();
            let what = match r.below(14) {
                0 => { put(text.as_bytes()); faults.push(fault("openr", &f, *r.pick(&[13, EIO, 2, 24, 40]), 0, -1, 0)); "open" }
                1 => { put(text.as_bytes()); faults.push(fault("read", &f, *r.pick(&[EIO, 13, 116]), 0, -1, 0)); "read" }
                2 => { put(big.as_bytes()); faults.push(fault("read", &f, EIO, 1, -1, 0)); faults.push(fault("read", &f, 0, 0, -1, 900)); "later read" }
                3 => { put(&[text.as_bytes(), &[0xff, 0xfe]].concat()); "not UTF-8" }
                4 => { put(&[b"{{ a", &[0xc3, 0x28][..], text.as_bytes()].concat()); "not UTF-8" }
                5 => { std::os::unix::fs::symlink("nowhere", &p).unwrap(); "dangling link" }
                6 => { std::os::unix::fs::symlink(p.file_name().unwrap(), &p).unwrap(); "looping link" }
                7 => { std::os::unix::fs::symlink("/dev", &p).unwrap(); "link to a directory" }
                8 => { malformed.push(f.clone()); put(b"<div>{% block BadName %}{{ a && }}{% if %}\n"); continue }
                9 if fix && conf.has("twig-use-is-same-as") => { let mut e = "a0".to_string(); for i in 1..14 { e = format!("a{i} === ({e})") } put(format!("{{{{ {e} }}}}\n").as_bytes()); "not fixable" }
                _ if fix && sure => {
                    put(text.as_bytes());
                    match r.below(3) {
                        0 => { faults.push(fault("openw", &f, *r.pick(&[13, 30, 26, EIO]), 0, -1, 0)); "open for writing" }
                        1 => { faults.push(fault("write", &f, *r.pick(&[28, EIO, 27]), 0, -1, 0)); "write" }
                        _ => { faults.push(fault("write", &f, 28, 1, -1, 0)); faults.push(fault("write", &f, 0, 0, 1, 10)); "later write" }
                    }
                }
                _ => { put(text.as_bytes()); faults.push(fault("openr", &f, 13, 0, -1, 0)); "open" }
            };
            failing.insert(f, what);
        }
        // a directory that cannot be listed
        if r.pct(10) {
            std::fs::create_dir_all(dir.join("locked")).unwrap();
            std::fs::write(dir.join("locked/x.twig"), &fixable).unwrap();
            faults.push(fault("opendir", "/locked", 13, 0, -1, 0));
            failing.insert("locked".into(), "directory");
        }
        let mode: &[&str] = if fix { &["--fix", "."] } else { &["."] };
        let (want, _) = recorded(Cmd::new(&twin).args(mode), &base.join("aux2"), &[], None);
        let (run, ops) = recorded(Cmd::new(&dir).args(mode), &base.join("aux"), &faults, None);
        let detail = |x: Value| json!({"config": conf.toml(), "files": good, "failing": failing, "faults": faults, "args": mode, "stdout": run.stdout, "stderr": cut(&run.stderr, 4000), "what": x});
        let hit = ops.iter().filter(|x| x.op == "fault").count();
        if let Some(e) = run.bad() {
            o.bad(e, detail(json!(null)));
        } else {
            if run.code != Some(1) && (!failing.is_empty() || !malformed.is_empty()) { o.bad(format!("exit status {:?} although files failed", run.code), detail(json!(null))) }
            let (x, y) = (run.by_path(), want.by_path());
            for f in good.keys() {
                if x.get(f) != y.get(f) { o.bad(format!("the findings of {f} differ because of other files that fail"), detail(json!({"with": format!("{:?}", x.get(f)), "without": format!("{:?}", y.get(f))}))) }
                let (p, q) = (std::fs::read_to_string(dir.join(f)).unwrap_or_default(), std::fs::read_to_string(twin.join(f)).unwrap_or_default());
                if p != q { o.bad(format!("the text of {f} differs because of other files that fail"), detail(json!({"with": p, "without": q}))) }
                let told = |r: &Run| r.fixed.iter().filter(|p| p.trim_start_matches("./") == f).count();
                if told(&run) != told(&want) { o.bad(format!("{f} is reported as fixed differently because of other files that fail"), detail(json!(null))) }
                o.add("other_files_compared", 1);
            }
            for (f, what) in &failing {
                let n = run.errors.iter().filter(|e| e.contains(f.as_str())).count();
                // (the message for a file that cannot be fixed does not name it)
                let ok = if *what == "not fixable" { run.errors.iter().any(|e| e.contains("iteration")) } else { n == 1 };
                if !ok { o.bad(format!("{f} fails ({what}), which is reported {n} times"), detail(json!(run.errors))) }
                o.add(&format!("failure_{}", what.replace(' ', "_")), 1);
            }
            for f in &malformed {
                if !run.diags.iter().any(|d| d.path == *f && d.code == "SyntaxError" && d.sev == Sev::Error) { o.bad(format!("{f} is malformed, which is not reported"), detail(json!(null))) }
                o.add("failure_malformed", 1);
            }
            // every failure counts as an error
            if let Some(s) = &run.summary {
                let e = run.diags.iter().filter(|d| d.sev == Sev::Error).count() + failing.len();
                if s.errors != e as u64 { o.bad(format!("{} errors in the summary, {e} were expected", s.errors), detail(json!(null))) }
            } else { o.bad("no summary was printed", detail(json!(null))) }
        }
        o.evals.push((format!("{b}{failing:?}{faults:?}"), hit > 0 || !failing.is_empty() || !malformed.is_empty()));
        o.add("faults_hit", hit);
        if b < 3 { o.samples.push(json!({"failing": failing, "args": mode, "errors": run.errors})) }
        // interruptions and partial calls are no failures
        if r.pct(40) {
            for f in good.keys() {
                std::fs::write(dir.join(f), &good[f]).unwrap();
            }
            for f in failing.keys().chain(&malformed) {
                let _ = std::fs::remove_file(dir.join(f));
                if f == "locked" { let _ = std::fs::remove_dir_all(dir.join(f)); }
            }
            let mut fl = vec![];
            for f in good.keys() {
                match r.below(4) {
                    0 => { fl.push(fault("read", f, EINTR, 0, 2, 0)); fl.push(fault("write", f, EINTR, 0, 1, 0)) }
                    1 => { fl.push(fault("read", f, 0, 0, -1, *r.pick(&[1i64, 7, 100]))); fl.push(fault("write", f, 0, 0, -1, *r.pick(&[1i64, 13, 1000]))) }
                    2 => { fl.push(fault("openr", f, EINTR, 0, 1, 0)); fl.push(fault("write", f, EINTR, 1, 2, 0)); fl.push(fault("write", f, 0, 0, -1, 50)) }
                    _ => {}
                }
            }
            let (run, ops) = recorded(Cmd::new(&dir).args(mode), &base.join("aux"), &fl, None);
            let d2 = |x: Value| json!({"config": conf.toml(), "files": good, "faults": fl, "args": mode, "stderr": cut(&run.stderr, 3000), "what": x});
            let mut s1 = run.diags.clone();
            let mut s2 = want.diags.clone();
            s1.sort();
            s2.sort();
            if let Some(e) = run.bad() { o.bad(e, d2(json!(null))) }
            else if s1 != s2 || run.summary != want.summary || run.code != want.code || !run.errors.is_empty() { o.bad("interrupted or partial calls changed the report", d2(json!(format!("{:?} {:?}", run.summary, want.summary)))) }
            for f in good.keys() {
                let (p, q) = (std::fs::read_to_string(dir.join(f)).unwrap_or_default(), std::fs::read_to_string(twin.join(f)).unwrap_or_default());
                if p != q { o.bad(format!("interrupted or partial calls changed what was written to {f}"), d2(json!({"with": cut(&p, 3000), "without": cut(&q, 3000)}))) }
            }
            o.add("interruptions_and_partial_calls", ops.iter().filter(|x| x.op == "limit" || x.op == "fault").count());
        }
        rm(&base);
    });
}

/// files that are unusual but fine (odd names, control characters, NUL, byte order mark, other line
/// breaks, enormous lines) must be treated like the same text in an ordinary file
pub fn odd_files(ctx: &mut Ctx, fix: bool) {
    use std::ffi::OsString;
    use std::os::unix::ffi::{OsStrExt, OsStringExt};
    let nb = ctx.n(120, 1500);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("odd-{b}"));
        let (dir, twin) = (base.join("w"), base.join("twin"));
        let conf = any_conf(r);
        for d in [&dir, &twin] {
            std::fs::create_dir_all(d).unwrap();
            std::fs::write(d.join("ludtwig-config.toml"), conf.toml()).unwrap();
        }
        let mut names: Vec<(OsString, String)> = vec![];
        let mut texts = vec![];
        for i in 0..r.range(2, 8) {
            let stem: Vec<u8> = match r.below(14) {
                0 => vec![b'a', 0xff, b'b'],
                1 => vec![0xc3, 0x28, b'x'],
                2 => "ü💧\u{202e}é\u{301}".as_bytes().to_vec(),
                3 => b"with space ".to_vec(),
                4 => b"co:lon:3:4".to_vec(),
                5 => b"'quo\"te`$HOME".to_vec(),
                6 => b"*?[x]{a,b}!#~".to_vec(),
                7 => b"back\\slash%20%s".to_vec(),
                8 => vec![b'n'; 200],
                9 => b"-fix".to_vec(),
                10 => vec![0xed, 0xa0, 0x80],
                11 => b"error[SyntaxError] x".to_vec(),
                12 => b"..a.twig.bak.".to_vec(),
                _ => b"plain".to_vec(),
            };
            let ext: &str = *r.pick(&["twig", "html", "html.twig", "htm", "ejs"]);
            let sub: &[u8] = if r.pct(25) { *r.pick(&[&b"d\xfe/"[..], b"s p/", b"x.twig/", b"d\xfe/\xfd.html/"]) } else { b"" };
            let name = OsString::from_vec([sub, format!("{i}").as_bytes(), &stem, format!(".{ext}").as_bytes()].concat());
            let c = plan(r);
            let mut t = crate::gen_::document(r.next(), r.next(), &c).text;
            let place = |r: &mut Rng, t: &str| { let k = r.below(t.len() + 1); crate::corpus::boundary(t, k) };
            match r.below(9) {
                0 => t = "{% block BadName %}\n  {{ a && b }}\n{% endblock %}\n\n\n<p ID='x'>  </p>".into(),
                1 => { for _ in 0..r.range(1, 3) { let k = place(r, &t); t.insert(k, '\0') } }
                2 => { let k = place(r, &t); t.insert_str(k, *r.pick(&["\u{1}", "\u{7f}", "\u{1a}", "\u{c}", "\u{b}", "\u{85}", "\u{2028}", "\u{a0}", "\u{200b}", "\u{fffd}", "\u{10ffff}"])) }
                3 => t.insert(0, '\u{feff}'),
                4 => t = t.replace('\n', "\r\n"),
                5 => { t.push_str(&"x".repeat(*r.pick(&[70_000usize, 300_000]))); t.push_str("{{ a && b }}") }
                6 => { t.insert_str(0, *r.pick(&["\x7fELF", "\u{89}PNG", "%PDF-1.4\n", "#!/bin/sh\n", "PK\u{3}\u{4}", "<?php echo 1; ?>\n", "<?xml version=\"1.0\"?>\n"])) }
                _ => {}
            }
            let p = dir.join(&name);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, &t).unwrap();
            let plain = format!("f{i}.{ext}");
            std::fs::write(twin.join(&plain), &t).unwrap();
            names.push((name, plain));
            texts.push(t);
        }
        let explicit = r.pct(40);
        let cmd = |d: &Path, odd: bool| {
            let mut c = Cmd::new(d);
            if fix { c = c.arg("--fix") }
            if explicit {
                c = c.arg("--");
                c.os_args = names.iter().map(|(n, p)| if odd { n.clone() } else { p.into() }).collect();
                c
            } else { c.arg(".") }
        };
        let (run, want) = (cmd(&dir, true).run(), cmd(&twin, false).run());
        let detail = |x: Value| json!({"config": conf.toml(), "files": names.iter().zip(&texts).map(|((n, _), t)| (format!("{n:?}"), cut(t, 5000))).collect::<Vec<_>>(), "fix": fix, "stderr": cut(&run.stderr, 4000), "what": x});
        if let Some(e) = run.bad() { o.bad(e, detail(json!(null))) }
        else {
            if run.summary != want.summary || run.code != want.code || run.errors.len() != want.errors.len() {
                o.bad(format!("with unusual names the run ends with {:?} and status {:?}, with ordinary ones with {:?} and {:?}", run.summary, run.code, want.summary, want.code), detail(json!(run.errors)));
            }
            let (x, y) = (run.by_path(), want.by_path());
            for ((n, p), t) in names.iter().zip(&texts) {
                let shown = n.to_string_lossy().into_owned();
                let mut a = x.get(&shown).cloned().unwrap_or_default();
                for d in &mut a { d.path = p.clone() }
                let e = y.get(p).cloned().unwrap_or_default();
                if a != e { o.bad(format!("the file {n:?} has other findings than the same text under an ordinary name"), detail(json!({"found": format!("{a:?}"), "ordinary": format!("{e:?}")}))) }
                // and those of the parser
                if !fix {
                    let n = ludtwig_parser::parse(t).errors.len();
                    let m = a.iter().filter(|d| d.code == "SyntaxError").count();
                    if n != m { o.bad(format!("{shown:?}: the parser finds {n} errors, {m} are reported"), detail(json!(null))) }
                }
                if std::fs::read(dir.join(n)).ok() != std::fs::read(twin.join(p)).ok() { o.bad(format!("the file {n:?} is written differently from the same text under an ordinary name"), detail(json!(null))) }
                let told = |r: &Run, n: &str| r.fixed.iter().filter(|p| p.trim_start_matches("./") == n).count();
                if told(&run, &shown) != told(&want, p) { o.bad(format!("{n:?} is reported as fixed differently from the same text under an ordinary name"), detail(json!(null))) }
                o.add("unusual_files_compared", 1);
                o.add("findings_in_unusual_files", a.len());
                if std::str::from_utf8(n.as_bytes()).is_err() { o.add("names_that_are_not_unicode", 1) }
            }
        }
        o.evals.push((format!("odd {b} {names:?}"), !run.diags.is_empty()));
        rm(&base);
    });
}

// ------------------------------------------------------------------ C36
fn fingerprint(run: &Run) -> (BTreeMap<String, Vec<Diag>>, Option<Summary>, Option<i32>, Vec<String>) {
    let mut e = run.errors.clone();
    e.sort();
    (run.by_path(), run.summary.clone(), run.code, e)
}
/// the files in the order in which their findings were printed; an error if those of one are apart
fn order(run: &Run) -> Result<Vec<String>, String> {
    let mut v: Vec<String> = vec![];
    for d in &run.diags {
        if v.last() != Some(&d.path) {
            if v.contains(&d.path) { return Err(d.path.clone()) }
            v.push(d.path.clone());
        }
    }
    Ok(v)
}
pub fn c36(ctx: &mut Ctx) {
    ctx.rule = "the same files are linted and fixed under different numbers of worker threads, processor sets, injected delays, orders of paths and alone; findings per file in their order, summary, exit status and written texts must be the same each time and the findings of a file be printed in one piece; a build with ThreadSanitizer runs over them as well; runs over at least two files with findings count".into();
    let nb = ctx.n(60, 900);
    let orders = std::sync::Mutex::new(BTreeSet::new());
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C36-{b}"));
        let dir = base.join("w");
        std::fs::create_dir_all(&dir).unwrap();
        let conf = any_conf(r);
        let n = *r.pick(&[2usize, 6, 20, 60]);
        let mut files = project(r, &dir, &conf, n);
        let related = if r.pct(60) { twins(r, &dir, &mut files) } else { vec![] };
        let names: Vec<String> = files.keys().cloned().collect();
        let aux = base.join("aux");
        let restore = || for (f, t) in &files { std::fs::write(dir.join(f), t).unwrap() };
        let detail = |x: Value| json!({"config": conf.toml(), "files": files, "what": x});
        let read = || -> BTreeMap<String, String> { names.iter().map(|f| (f.clone(), std::fs::read_to_string(dir.join(f)).unwrap_or_default())).collect() };
        let mut reference: [Option<(_, _)>; 2] = [None, None];
        let mut alone: BTreeMap<String, Vec<Diag>> = BTreeMap::new();
        for round in 0..14 {
            let fix = round % 2 == 1;
            restore();
            let mut c = Cmd::new(&dir);
            let threads = *r.pick(&["1", "2", "3", "8", "32"]);
            if round >= 2 { c = c.env("RAYON_NUM_THREADS", threads) }
            let cores = *r.pick(&["", "", "0", "0,1", "0-3"]);
            if round >= 2 && !cores.is_empty() { c = c.prefix(&["taskset", "-c", cores]) }
            if fix { c = c.arg("--fix") }
            let mut order_given = vec![];
            if round < 2 || r.pct(40) { c = c.arg(".") } else {
                order_given = names.clone();
                r.shuffle(&mut order_given);
                if r.pct(30) { let x = order_given[0].clone(); order_given.push(x) }
                c = c.args(&order_given.iter().map(String::as_str).collect::<Vec<_>>());
            }
            let delay = if round >= 4 && r.pct(60) { Some((*r.pick(&[20usize, 200, 2000]), r.next())) } else { None };
            let (run, _) = recorded(c, &aux, &[], delay);
            let how = json!({"fix": fix, "threads": threads, "cores": cores, "delay": delay.map(|d| d.0), "paths": order_given});
            if let Some(e) = run.bad() {
                o.bad(e, detail(how));
                break;
            }
            match order(&run) {
                Ok(v) => { let h = hash(&v.join("\n")); orders.lock().unwrap().insert((b, h)); }
                Err(f) => o.bad(format!("the findings of {f} are not printed together"), detail(json!({"how": how, "stderr": cut(&run.stderr, 20_000)}))),
            }
            if !run.odd.is_empty() { o.bad(format!("something else is printed: {:?}", run.odd), detail(how.clone())) }
            let now = (fingerprint(&run), read());
            match &reference[usize::from(fix)] {
                None => reference[usize::from(fix)] = Some(now),
                Some(r0) => {
                    if r0.0 != now.0 {
                        let f = names.iter().find(|f| r0.0.0.get(*f) != now.0.0.get(*f));
                        o.bad(format!("the report differs ({:?} and {:?}, file {f:?})", r0.0.1, now.0.1), detail(json!({"how": how, "first": f.map(|f| format!("{:?}", r0.0.0.get(f))), "now": f.map(|f| format!("{:?}", now.0.0.get(f)))})));
                    }
                    if let Some(f) = names.iter().find(|f| r0.1[*f] != now.1[*f]) { o.bad(format!("the text of {f} differs"), detail(json!({"how": how, "first": r0.1[f], "now": now.1[f]}))) }
                }
            }
            o.add("runs_compared", 1);
        }
        // each file alone
        if let (Some(lint), Some(fixed)) = (&reference[0], &reference[1]) {
            restore();
            for f in related.iter().chain(names.iter().filter(|n| !related.contains(n)).take(6)) {
                let run = Cmd::new(&dir).arg(f).run();
                alone.insert(f.clone(), run.diags.clone());
                if lint.0.0.get(f).cloned().unwrap_or_default() != run.diags { o.bad(format!("{f} alone gives other findings than together with other files"), detail(json!(format!("{:?}", run.diags)))) }
                let t = fixed_alone(&base.join("alone"), &conf, f, &files[f]);
                if t.as_ref() != Some(&fixed.1[f]) { o.bad(format!("{f} alone is fixed differently than together with other files"), detail(json!({"alone": t, "together": fixed.1[f]}))) }
                o.add("single_file_runs", 1);
            }
            o.evals.push((format!("{b}{names:?}{}", hash(&files.values().cloned().collect::<String>())), lint.0.0.len() >= 2));
        }
        rm(&base);
    });
    let distinct = orders.lock().unwrap().len();
    ctx.count("distinct_output_orders", distinct as u64);
    // data races
    let Ok(tsan) = std::env::var("LV_LUDTWIG_TSAN") else {
        eprintln!("no ThreadSanitizer build");
        std::process::exit(3);
    };
    let nb = ctx.n(12, 150);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C36-t{b}"));
        let dir = base.join("w");
        std::fs::create_dir_all(&dir).unwrap();
        let conf = any_conf(r);
        let files = project(r, &dir, &conf, 30);
        std::fs::write(dir.join("bad.twig"), [b'a', 0xff]).unwrap();
        for fix in [false, true] {
            let mut c = Cmd::new(&dir);
            c.bin = PathBuf::from(&tsan);
            if fix { c = c.arg("--fix") }
            let run = c.arg(".").arg("nowhere").env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 report_thread_leaks=1").env("RAYON_NUM_THREADS", "8").run();
            if run.stderr.contains("WARNING: ThreadSanitizer") || run.stderr.contains("ERROR: ThreadSanitizer") || run.code == Some(66) {
                let at = run.stderr.find("ThreadSanitizer").unwrap_or(0);
                o.bad(format!("ThreadSanitizer: {}", cut(run.stderr[at..].lines().next().unwrap_or(""), 200)), json!({"config": conf.toml(), "files": files, "report": cut(&run.stderr[at..], 6000)}));
            } else if let Some(e) = run.bad() {
                o.bad(e, json!({"config": conf.toml(), "files": files}));
            } else if run.summary.is_none() {
                o.bad("the instrumented program printed no summary", json!({"stderr": cut(&run.stderr, 3000)}));
            }
            o.add("runs_with_thread_sanitizer", 1);
        }
        rm(&base);
        o.evals.push((format!("t{b}{}", hash(&files.values().cloned().collect::<String>())), true));
    });
}

// ------------------------------------------------------------------ C37
fn key_values(c: &Conf) -> Vec<(&'static str, &'static str, String)> {
    let list = |v: &[String]| format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "));
    let q = |c: char| if c == '"' { "\"double\"".to_string() } else { "\"single\"".to_string() };
    vec![
        ("general", "active-rules", list(&c.rules)),
        ("format", "line-ending", if c.line_ending == "\n" { "\"unix_LF\"" } else { "\"windows_CRLF\"" }.into()),
        ("format", "indentation-mode", if c.mode == ' ' { "\"space\"" } else { "\"tab\"" }.into()),
        ("format", "indentation-count", c.count.to_string()),
        ("format", "indent-children-of-blocks", c.indent_blocks.to_string()),
        ("format", "linebreaks-around-blocks", c.lb_blocks.to_string()),
        ("format", "twig-quotation", q(c.tq)),
        ("format", "html-quotation", q(c.hq)),
        ("twig", "valid-filters", list(&c.filters)),
        ("twig", "valid-tests", list(&c.tests)),
        ("twig", "valid-functions", list(&c.functions)),
    ]
}
/// a configuration file with some of the values, in one of TOML's spellings
fn toml_of(r: &mut Rng, kv: &[(&'static str, &'static str, String)]) -> String {
    let mut s = String::new();
    // the version of the file is only commented on
    if r.pct(60) { s.push_str(&format!("version = \"{}\"\n", version())) } else if r.pct(30) { s.push_str(&format!("version = {:?}\n", r.pick(&["0.1.0", "99.0.0", "", "next", "0.13.0-beta"]))) }
    match r.below(3) {
        0 => {
            // dotted keys
            let mut v = kv.to_vec();
            r.shuffle(&mut v);
            for (a, k, x) in v { s.push_str(&format!("{a}.{k} = {x} # comment\n")) }
        }
        1 => {
            // inline tables
            for sec in ["twig", "general", "format"] {
                let v: Vec<String> = kv.iter().filter(|x| x.0 == sec).map(|x| format!("{} = {}", x.1, x.2)).collect();
                if !v.is_empty() { s.push_str(&format!("{sec} = {{ {} }}\n", v.join(", "))) }
            }
        }
        _ => {
            let mut secs = vec!["general", "format", "twig"];
            r.shuffle(&mut secs);
            for sec in secs {
                let v: Vec<String> = kv.iter().filter(|x| x.0 == sec).map(|x| format!("{}={}\n", x.1, x.2.replace(", ", ",\n  "))).collect();
                if !v.is_empty() || r.pct(30) { s.push_str(&format!("[{sec}]\n{}", v.concat())) }
            }
        }
    }
    if r.pct(20) { s = s.replace('\n', "\r\n") }
    s
}
fn env_name(k: &(&'static str, &'static str, String)) -> (String, String) {
    (format!("LUDTWIG_{}__{}", k.0.to_uppercase(), k.1.replace('-', "_").to_uppercase()), k.2.clone())
}
const INVALID: &[&str] = &[
    "[general", "x = ", "version = \"1", "[format]\nindentation-count = \"four\"\n", "[format]\nindentation-count = -1\n", "[format]\nindentation-count = 256\n", "[format]\nindentation-count = 1.5\n",
    "[format]\nindentation-count = true\n", "[general]\nactive-rules = \"indentation\"\n", "[general]\nactive-rules = [1]\n", "[format]\nline-ending = \"LF\"\n", "[format]\nline-ending = \"UnixLF\"\n",
    "[format]\nindentation-mode = \"tabs\"\n", "[format]\nindentation-mode = 4\n", "[format]\ntwig-quotation = \"'\"\n", "[format]\nhtml-quotation = \"Double\"\n", "[format]\nindent-children-of-blocks = \"yes\"\n",
    "[format]\nlinebreaks-around-blocks = 1\n", "[twig]\nvalid-filters = \"x\"\n", "[twig]\nvalid-tests = [true]\n", "general = 3\n", "format = \"x\"\n", "version = 3\n",
    "[general]\nactive-rules = [\"indentatio\"]\n", "[general]\nactive-rules = [\"\"]\n", "[general]\nactive-rules = [\"indentation\", \"Indentation\"]\n", "[general]\nactive-rules = [\"twig-logic-and \"]\n",
    "[general]\nactive-rules = [\"indentation\", \"indentation\", \"all\"]\n", "[general]\nactive-rules = [\"twig-logic-and\"]\n[general]\n", "a = 1\na = 2\n", "[format]\nindentation-count = 2\nindentation-count = 2\n",
];
pub fn c37(ctx: &mut Ctx) {
    ctx.rule = "a random configuration reaches the program as complete or partial file in any TOML spelling, found or given explicitly, through environment variables or mixed, next to files that must not be used; findings must be those the generator expects under the values of that configuration, fixing must give the same texts each time; invalid configurations must end the run before any template is opened; the generated default must behave like none and never overwrite; configurations differing from the defaults and invalid ones count".into();
    let every: Vec<&'static str> = oracle::RULES.iter().copied().chain(["SyntaxError"]).collect();
    let nb = ctx.n(250, 4000);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C37-{b}"));
        let dir = base.join("up/w");
        std::fs::create_dir_all(dir.join("t")).unwrap();
        std::fs::create_dir_all(base.join("etc")).unwrap();
        let conf = if r.pct(12) { Conf::defaults() } else { any_conf(r) };
        let defaults = Conf::defaults();
        let ds = docs(r, 8, |r, c| { c.plain_extends = true; c.rules = r.pct(70); c.nl = *r.pick(&[Some("\n"), Some("\r\n"), None]); });
        let put = || for (i, d) in ds.iter().enumerate() { std::fs::write(dir.join("t").join(fname(i)), &d.text).unwrap() };
        let read = || -> Vec<String> { (0..ds.len()).map(|i| std::fs::read_to_string(dir.join("t").join(fname(i))).unwrap_or_default()).collect() };
        put();
        let kv = key_values(&conf);
        let dv = key_values(&defaults);
        let partial: Vec<_> = kv.iter().zip(&dv).filter(|(a, b)| a.2 != b.2).map(|x| x.0.clone()).collect();
        let other = any_conf(r);
        let ov = key_values(&other);
        let mut reference: Option<(BTreeMap<String, Vec<Diag>>, Option<Summary>, Option<i32>, Vec<String>)> = None;
        for channel in ["found", "explicit", "partial", "environment", "mixed", "explicit absolute", "below"] {
            if channel != "found" && r.pct(35) { continue }
            let clear = || { let _ = std::fs::remove_file(dir.join("ludtwig-config.toml")); let _ = std::fs::remove_file(base.join("up/ludtwig-config.toml")); };
            clear();
            let mut c = Cmd::new(&dir);
            let mut text = String::new();
            let mut env: Vec<(String, String)> = vec![];
            match channel {
                "found" => { text = toml_of(r, &kv); std::fs::write(dir.join("ludtwig-config.toml"), &text).unwrap() }
                "partial" => { text = toml_of(r, &partial); std::fs::write(dir.join("ludtwig-config.toml"), &text).unwrap() }
                "explicit" | "explicit absolute" => {
                    let whole = r.pct(50); text = toml_of(r, if whole { &kv } else { &partial });
                    std::fs::write(base.join("etc/my.conf"), &text).unwrap();
                    // the one in the working directory must not be used
                    std::fs::write(dir.join("ludtwig-config.toml"), if r.pct(30) { "[general".to_string() } else { other.toml() }).unwrap();
                    let abs = base.join("etc/my.conf").to_string_lossy().into_owned();
                    let p = if channel == "explicit" { "../../etc/my.conf" } else { &abs };
                    c = c.args(&[*r.pick(&["-c", "--config-path"]), p]);
                }
                "environment" => env = partial.iter().map(env_name).collect(),
                "mixed" => {
                    // the environment overrides the file, the file overrides the defaults
                    let mut file = vec![];
                    for (k, (a, d)) in kv.iter().zip(&dv).enumerate() {
                        match r.below(3) {
                            0 => { file.push(ov[k].clone()); env.push(env_name(a)) }
                            1 => file.push(a.clone()),
                            _ if a.2 != d.2 => env.push(env_name(a)),
                            _ => {}
                        }
                    }
                    text = toml_of(r, &file);
                    std::fs::write(dir.join("ludtwig-config.toml"), &text).unwrap();
                }
                _ => {
                    // a file above the working directory is not used
                    std::fs::write(base.join("up/ludtwig-config.toml"), other.toml()).unwrap();
                    if partial.is_empty() || r.pct(50) { env = partial.iter().map(env_name).collect() } else { text = toml_of(r, &partial); std::fs::write(dir.join("ludtwig-config.toml"), &text).unwrap() }
                }
            }
            let has_file = dir.join("ludtwig-config.toml").exists();
            for (k, v) in &env { c = c.env(k, v) }
            if r.pct(25) { c = c.arg("-v") }
            // variables that do not concern the program
            if r.pct(25) { c = c.odd_env(*r.pick(&[&b"FOO"[..], b"F\xc3", b"XLUDTWIG_FORMAT__LINE_ENDING"]), *r.pick(&[&b"\xff"[..], b"a\xe9b", b""])) }
            let lint = c.clone().arg("t").run();
            put();
            let fix = c.arg("--fix").arg("t").run();
            let fixed = read();
            put();
            let detail = |x: Value| json!({"channel": channel, "config": text, "env": env, "meant": conf.toml(), "other": other.toml(), "texts": ds.iter().map(|d| &d.text).collect::<Vec<_>>(), "stderr": cut(&lint.stderr, 3000), "x": x});
            let mut stop = false;
            for run in [&lint, &fix] {
                if let Some(e) = run.bad() { o.bad(format!("{channel}: {e}"), detail(json!(null))); stop = true }
                else if run.summary.is_none() { o.bad(format!("{channel}: the configuration was not accepted"), detail(json!(run.stderr))); stop = true }
            }
            clear();
            if stop { continue }
            let by = lint.by_path();
            for (i, d) in ds.iter().enumerate() {
                let exp = oracle::expected(d, &conf);
                o.add("findings_compared", exp.len());
                if let Some(m) = compare(d, &exp, &by.get(&format!("t/{}", fname(i))).cloned().unwrap_or_default(), &every) {
                    o.bad(format!("{channel}: {m}"), detail(json!(fname(i))));
                }
            }
            let now = (by, fix.summary.clone(), fix.code, fixed);
            match &reference {
                None => reference = Some(now),
                Some(x) => if *x != now { o.bad(format!("{channel}: the same values give another result than as a file in the working directory"), detail(json!({"first": x.3, "now": now.3, "summaries": format!("{:?} {:?}", x.1, now.1)}))) }
            }
            o.add(&format!("channel_{}", channel.replace(' ', "_")), 1);
            let loaded = lint.stdout.contains("Loaded configuration file");
            if loaded == lint.stdout.contains("Using default config") || loaded != has_file { o.bad(format!("{channel}: the program tells wrongly whether it loaded a file"), detail(json!(lint.stdout))) }
        }
        rm(&base);
        o.evals.push((conf.toml() + &ds[0].text, !partial.is_empty()));
        if b < 2 { o.samples.push(json!({"config": conf.toml()})) }
    });
    // the default configuration
    let nb = ctx.n(40, 600);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C37-d{b}"));
        let ds = docs(r, 8, |r, c| { c.plain_extends = true; c.rules = r.pct(70); c.unknown_names = 30; c.nl = *r.pick(&[Some("\n"), None]); });
        for (i, d) in ds.iter().enumerate() { std::fs::write(base.join(fname(i)), &d.text).unwrap() }
        std::fs::create_dir_all(base.join("sub")).unwrap();
        let before = snapshot(&base);
        let none = Cmd::new(&base).arg(".").run();
        let (args, target): (&[&str], &str) = *r.pick(&[(&["-C"][..], "ludtwig-config.toml"), (&["--create-config"], "ludtwig-config.toml"), (&["-C", "-c", "sub/other.toml"], "sub/other.toml")]);
        let detail = |x: Value| json!({"args": args, "texts": ds.iter().map(|d| &d.text).collect::<Vec<_>>(), "x": x});
        let made = Cmd::new(&base).args(args).run();
        let ch: Vec<_> = changes(&before, &snapshot(&base)).into_iter().filter(|c| c.0.to_string_lossy() != "sub" && !c.0.as_os_str().is_empty()).collect();
        if made.code != Some(0) || ch.len() != 1 || ch[0].0.to_string_lossy() != target || ch[0].1 != "created" { o.bad(format!("creating a configuration ended with {:?} and changed {ch:?}", made.code), detail(json!(made.stderr))) }
        let run = Cmd::new(&base).args(&["-c", target, "."]).run();
        if fingerprint(&run) != fingerprint(&none) || !run.odd.is_empty() { o.bad("the generated configuration does not behave like none", detail(json!({"none": cut(&none.stderr, 3000), "generated": cut(&run.stderr, 3000)}))) }
        if !run.stdout.contains("Loaded configuration file") || !none.stdout.contains("Using default config") { o.bad("the program tells wrongly whether it loaded a file", detail(json!(run.stdout))) }
        let by = none.by_path();
        for (i, d) in ds.iter().enumerate() {
            let exp = oracle::expected(d, &Conf::defaults());
            o.add("findings_compared", exp.len());
            if let Some(m) = compare(d, &exp, &by.get(&fname(i)).cloned().unwrap_or_default(), &every) { o.bad(format!("without configuration: {m}"), detail(json!(d.text))) }
        }
        // an existing file is never overwritten
        let old: &[u8] = *r.pick(&[&b""[..], b"# mine\n", b"[general]\nactive-rules = []\n", b"\xff\xfe", b"[broken"]);
        std::fs::write(base.join(target), old).unwrap();
        let before = snapshot(&base);
        let again = Cmd::new(&base).args(args).run();
        if again.code == Some(0) || !changes(&before, &snapshot(&base)).is_empty() { o.bad(format!("creating a configuration over an existing one ended with {:?} and changed {:?}", again.code, changes(&before, &snapshot(&base))), detail(json!(null))) }
        if again.bad().is_some() { o.bad("creating a configuration over an existing one failed badly", detail(json!(again.stderr))) }
        // where none can be written
        let before = snapshot(&base);
        let (run, _) = match r.below(3) {
            0 => (Cmd::new(&base).args(&["-C", "-c", "missing/x.toml"]).run(), vec![]),
            1 => recorded(Cmd::new(&base).args(&["-C", "-c", "new.toml"]), &base.join("aux"), &[fault("openw", "new.toml", 13, 0, -1, 0)], None),
            _ => recorded(Cmd::new(&base).args(&["-C", "-c", "new.toml"]), &base.join("aux"), &[fault("write", "new.toml", 28, 0, -1, 0)], None),
        };
        let ch: Vec<_> = changes(&before, &snapshot(&base)).into_iter().filter(|c| !c.0.starts_with("aux") && !c.0.starts_with("new.toml") && !c.0.as_os_str().is_empty()).collect();
        if run.code == Some(0) || run.bad().is_some() || run.stderr.is_empty() || !ch.is_empty() { o.bad(format!("creating a configuration that cannot be written ended with {:?} and changed {ch:?}", run.code), detail(json!(run.stderr))) }
        rm(&base);
        o.add("configurations_generated", 1);
        o.evals.push((format!("d{b}{}", ds[0].text), true));
    });
    // invalid configurations
    let nb = ctx.n(INVALID.len() * 6, INVALID.len() * 60);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C37-i{b}"));
        let dir = base.join("w");
        std::fs::create_dir_all(&dir).unwrap();
        let text = "{% block BadName %}{{ a && b }}{% endblock %}\n";
        std::fs::write(dir.join("a.twig"), text).unwrap();
        let explicit = r.pct(40);
        let file = if explicit { "my.toml" } else { "ludtwig-config.toml" };
        let mut faults = vec![];
        let mut env: Option<(&str, &str)> = None;
        let mut what = String::new();
        match r.below(8) {
            0 => { std::fs::write(dir.join(file), b"version = \"\xff\"\n").unwrap(); what = "not UTF-8".into() }
            1 => { std::fs::write(dir.join(file), Conf::defaults().toml()).unwrap(); faults.push(fault("openr", file, 13, 0, -1, 0)); what = "unreadable".into() }
            2 | 3 => { env = Some(*r.pick(&[("LUDTWIG_FORMAT__INDENTATION_COUNT", "abc"), ("LUDTWIG_FORMAT__INDENTATION_COUNT", "-3"), ("LUDTWIG_GENERAL__ACTIVE_RULES", "indentation"), ("LUDTWIG_GENERAL__ACTIVE_RULES", "[nosuchrule]"), ("LUDTWIG_FORMAT__TWIG_QUOTATION", "backtick"), ("LUDTWIG_FORMAT__LINE_ENDING", "mac_CR"), ("LUDTWIG_TWIG__VALID_FILTERS", "upper")])) }
            _ => { let t = INVALID[b % INVALID.len()]; std::fs::write(dir.join(file), t).unwrap(); what = t.into() }
        }
        let before = snapshot(&dir);
        let mut c = Cmd::new(&dir);
        if explicit && env.is_none() { c = c.args(&["-c", file]) }
        if let Some((k, v)) = env { c = c.env(k, v); what = format!("{k}={v}") }
        if r.pct(60) { c = c.arg("--fix") }
        let (run, ops) = recorded(c.arg("."), &base.join("aux"), &faults, None);
        let detail = || json!({"config": what, "stdout": run.stdout, "stderr": run.stderr});
        if run.code != Some(1) || run.bad().is_some() { o.bad(format!("an invalid configuration ends with {:?}", run.code), detail()) }
        if !run.stderr.contains("Error") { o.bad("an invalid configuration is not reported", detail()) }
        if !run.diags.is_empty() || run.summary.is_some() { o.bad("templates are checked in spite of an invalid configuration", detail()) }
        if ops.iter().any(|x| x.path.ends_with("a.twig")) || !changes(&before, &snapshot(&dir)).is_empty() { o.bad("templates are touched in spite of an invalid configuration", detail()) }
        rm(&base);
        o.add("invalid_configurations", 1);
        o.evals.push((format!("{what}{explicit}"), true));
    });
}

/// every value of every setting, one at a time
pub fn c37_values(ctx: &mut Ctx) {
    let every: Vec<&'static str> = oracle::RULES.iter().copied().chain(["SyntaxError"]).collect();
    let mut cases: Vec<(String, Conf)> = vec![];
    let d = Conf::defaults();
    for mode in [' ', '\t'] { for count in 0..=255usize { cases.push((format!("{count} {mode:?}"), Conf { mode, count, indent_blocks: count % 3 > 0, ..d.clone() }.with_rules(if count % 2 == 0 { &["indentation"] } else { &["twig-block-line-breaks", "indentation", "line-ending", "whitespace-between-line-breaks"] }))) } }
    for m in 0..128usize {
        let c = Conf { line_ending: if m & 1 > 0 { "\r\n" } else { "\n" }, mode: if m & 2 > 0 { '\t' } else { ' ' }, count: if m & 4 > 0 { 2 } else { 4 }, indent_blocks: m & 8 == 0, lb_blocks: m & 16 == 0, tq: if m & 32 > 0 { '"' } else { '\'' }, hq: if m & 64 > 0 { '\'' } else { '"' }, ..d.clone() };
        cases.push((format!("combination {m}"), c.clone()));
        cases.push((format!("layout {m}"), c.with_rules(&["indentation", "whitespace-between-line-breaks", "line-ending", "twig-block-line-breaks"])));
    }
    for (i, rule) in oracle::RULES.iter().enumerate() {
        cases.push((format!("only {rule}"), d.clone().with_rules(&[rule])));
        cases.push((format!("all but {rule}"), d.clone().with_rules(&oracle::RULES.iter().copied().filter(|x| x != rule).collect::<Vec<_>>())));
        cases.push((format!("{rule} twice"), d.clone().with_rules(&[oracle::RULES[(i + 7) % oracle::RULES.len()], rule])));
        cases.push((format!("up to {rule}"), d.clone().with_rules(&oracle::RULES[..i])));
        cases.push((format!("from {rule}"), d.clone().with_rules(&oracle::RULES[i..].iter().rev().copied().collect::<Vec<_>>())));
    }
    for n in [0usize, 1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2000] {
        for k in 0..3 {
            let names: Vec<String> = (0..n).map(|i| match i % 5 { 0 => format!("name{i}"), 1 => format!("aB_{i}"), 2 => format!("Upper{i}"), 3 => format!("_x{i}"), _ => format!("{}{i}", "y".repeat(i % 90 + 1)) }).collect();
            let mut c = d.clone();
            *[&mut c.filters, &mut c.tests, &mut c.functions][k] = names;
            cases.push((format!("{n} names in list {k}"), c));
        }
    }
    let cases = &cases;
    batches(ctx, cases.len(), |r, b, o| {
        let (name, conf) = &cases[b];
        let dir = scratch(&format!("C37-v{b}"));
        let mut ds = docs(r, 3, |r, c| { c.plain_extends = true; c.rules = r.pct(80); c.fuel = 120; c.unknown_names = 30; c.nl = *r.pick(&[Some("\n"), Some("\r\n"), None]); });
        ds.truncate(3);
        for (i, d) in ds.iter().enumerate() { std::fs::write(dir.join(fname(i)), &d.text).unwrap() }
        // a line per name around the list
        let lists = [&conf.filters, &conf.tests, &conf.functions];
        let k = b % 3;
        let mut names: Vec<(String, bool)> = lists[k].iter().filter(|n| plain(n)).map(|n| (n.clone(), true)).collect();
        names.extend(lists[k].iter().filter(|n| plain(n)).map(|n| (format!("{n}q"), lists[k].contains(&format!("{n}q")))));
        names.extend(names.clone().iter().filter(|n| n.0.len() > 1).map(|n| { let x = n.0[..n.0.len() - 1].to_string(); let y = lists[k].contains(&x); (x, y) }).filter(|n| !is_keyword(&n.0)));
        let rule = oracle::RULES.iter().find(|x| **x == ["twig-valid-filter", "twig-valid-test", "twig-valid-function"][k]).unwrap();
        let text: String = names.iter().map(|(n, _)| match k { 0 => format!("{{{{ a|{n} }}}}\n"), 1 => format!("{{{{ a is {n} }}}}\n"), _ => format!("{{{{ {n}() }}}}\n") }).collect();
        std::fs::write(dir.join("names.twig"), &text).unwrap();
        let kv = key_values(conf);
        let dv = key_values(&Conf::defaults());
        let partial: Vec<_> = kv.iter().zip(&dv).filter(|(a, b)| a.2 != b.2).map(|x| x.0.clone()).collect();
        let other = any_conf(r);
        let channel = *r.pick(&["file", "partial", "explicit", "environment", "over a file"]);
        let mut c = Cmd::new(&dir);
        let mut file = String::new();
        match channel {
            "file" => { file = toml_of(r, &kv); std::fs::write(dir.join("ludtwig-config.toml"), &file).unwrap() }
            "partial" => { file = toml_of(r, &partial); std::fs::write(dir.join("ludtwig-config.toml"), &file).unwrap() }
            "explicit" => { file = toml_of(r, &partial); std::fs::write(dir.join("x.conf"), &file).unwrap(); std::fs::write(dir.join("ludtwig-config.toml"), other.toml()).unwrap(); c = c.args(&["-c", "x.conf"]) }
            "environment" => for (k, v) in partial.iter().map(env_name) { c = c.env(&k, &v) },
            _ => {
                file = toml_of(r, &key_values(&other));
                std::fs::write(dir.join("ludtwig-config.toml"), &file).unwrap();
                for (k, v) in kv.iter().map(env_name) { c = c.env(&k, &v) }
            }
        }
        let lint = c.clone().arg(".").run();
        let fix = c.arg("--fix").arg(".").run();
        let detail = |x: Value| json!({"values": name, "channel": channel, "config": file, "meant": conf.toml(), "texts": ds.iter().map(|d| &d.text).collect::<Vec<_>>(), "stderr": cut(&lint.stderr, 2000), "x": x});
        for run in [&lint, &fix] {
            if let Some(e) = run.bad() { o.bad(e, detail(json!(null))); return rm(&dir); }
            if run.summary.is_none() { o.bad("the configuration was not accepted", detail(json!(run.stderr))); return rm(&dir); }
        }
        let by = lint.by_path();
        for (i, d) in ds.iter().enumerate() {
            let exp = oracle::expected(d, conf);
            o.add("findings_compared", exp.len());
            if let Some(m) = compare(d, &exp, &by.get(&fname(i)).cloned().unwrap_or_default(), &every) { o.bad(m, detail(json!(fname(i)))) }
            // the layout that was asked for
            let layout = ["indentation", "whitespace-between-line-breaks", "line-ending", "twig-block-line-breaks"];
            if conf.rules.iter().all(|x| layout.contains(&x.as_str())) {
                let now = std::fs::read_to_string(dir.join(fname(i))).unwrap_or_default();
                let want = oracle::facts(d).laid_out(conf);
                o.add("fixed_layouts_compared", 1);
                if now != want { o.bad("the fixed text has not the configured layout", detail(json!({"got": now, "want": want}))) }
            }
        }
        let got: BTreeMap<usize, usize> = by.get("names.twig").into_iter().flatten().filter(|d| d.code == *rule).fold(BTreeMap::new(), |mut m, d| { *m.entry(d.line).or_default() += 1; m });
        for (i, (n, known)) in names.iter().enumerate() {
            let want = usize::from(!known && conf.has(rule));
            if got.get(&(i + 1)).copied().unwrap_or(0) != want { o.bad(format!("{n:?} is {} by {rule}, listed: {known}", if want == 0 { "reported" } else { "not reported" }), detail(json!(text))); break }
        }
        o.add("names_compared", names.len());
        // a nested text shows the width
        rm(&dir);
        o.add("single_values", 1);
        o.evals.push((name.clone(), !partial.is_empty()));
    });
}
fn plain(n: &str) -> bool {
    !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !is_keyword(n)
}
/// words that mean something else at the place of a name
fn is_keyword(n: &str) -> bool {
    gen_::BINOPS.iter().any(|b| b.0.split(' ').any(|w| w == n)) || ["not", "is", "same", "divisible", "true", "false", "null", "none", "only", "with", "as", "if", "by", "ignore", "missing", "style"].contains(&n.to_lowercase().as_str()) || n.chars().next().is_some_and(|c| c.is_ascii_digit())
}

// ------------------------------------------------------------------ C38
fn own_tree(n: &ludtwig_parser::syntax::untyped::SyntaxNode, depth: usize, out: &mut Vec<(String, Option<String>)>) {
    use ludtwig_parser::syntax::untyped::SyntaxElement;
    let r = n.text_range();
    out.push((format!("{}{:?}@{}..{}", "  ".repeat(depth), n.kind(), u32::from(r.start()), u32::from(r.end())), None));
    for c in n.children_with_tokens() {
        match c {
            SyntaxElement::Node(m) => own_tree(&m, depth + 1, out),
            SyntaxElement::Token(t) => {
                let r = t.text_range();
                out.push((format!("{}{:?}@{}..{} ", "  ".repeat(depth + 1), t.kind(), u32::from(r.start()), u32::from(r.end())), Some(t.text().to_string())));
            }
        }
    }
}
/// whether the printed lines show the tree of the text (long tokens are abbreviated)
fn shows(printed: &[String], text: &str) -> Result<usize, String> {
    let mut want = vec![];
    own_tree(&ludtwig_parser::syntax::untyped::SyntaxNode::new_root(ludtwig_parser::parse(text).green_node), 0, &mut want);
    if want.len() != printed.len() { return Err(format!("{} lines instead of {}", printed.len(), want.len())) }
    for ((w, tok), p) in want.iter().zip(printed) {
        let ok = match tok {
            None => w == p,
            Some(t) => p.strip_prefix(w.as_str()).is_some_and(|x| x == format!("{t:?}") || (t.len() >= 25 && (15..t.len()).any(|k| t.is_char_boundary(k) && x == format!("{:?}", format!("{} ...", &t[..k]))))),
        };
        if !ok { return Err(format!("{p:?} instead of {w:?} {tok:?}")) }
    }
    Ok(want.len())
}
fn printed_tree(d: &Diag) -> Vec<String> {
    let skip = d.body.first().and_then(|l| l.find("= ")).map_or(0, |p| p + 2);
    d.body.iter().map(|l| l.get(skip..).unwrap_or(l).to_string()).collect()
}
/// files with many, deep, long or wide pieces
fn extreme(r: &mut Rng) -> String {
    let n = *r.pick(&[30usize, 64, 65, 100, 128, 255, 256, 257, 1000, 1024, 5000, 10_001, 40_000]);
    match r.below(9) {
        0 => { let k = *r.pick(&[20usize, 60, 200]); joined(r, k) }
        1 => "<br>\n".repeat(n),
        2 => { let d = n.min(40); format!("{}x{}", "<div>\n".repeat(d), "</div>\n".repeat(d)) }
        3 => format!("{{{{ {} }}}}", "a".repeat(n)),
        4 => format!("{} {}", (*r.pick(&["ü", "a", "日", "'", "\"", "\\", "😀", "\t", "é"])).repeat(n), "x".repeat(r.below(60))),
        5 => format!("<!-- {} -->{{# {} #}}", "word \n".repeat(n / 4), "wörd ".repeat(n / 4)),
        6 => format!("<a {}>x</a>", "b='c'\n ".repeat(n.min(5000))),
        7 => format!("{{{{ '{}' }}}}", (*r.pick(&["a", "ü", "\n", "a b", "\\'"])).repeat(n)),
        _ => (0..n.min(300)).map(|k| format!("{}\n<i class=\"{}\">{}</i>", "x".repeat(k), "y".repeat(k), "ö".repeat(k))).collect(),
    }
}
pub fn c38(ctx: &mut Ctx) {
    ctx.rule = "files, well-formed, malformed and unreadable, are run with and without the inspect option; every printed tree is compared line by line with the tree of one of the files, each with that of its own; everything else must be as without the option; runs over non-empty files count".into();
    let nb = ctx.n(250, 4000);
    batches(ctx, nb, |r, b, o| {
        let base = scratch(&format!("C38-{b}"));
        let conf = any_conf(r);
        let n = *r.pick(&[1usize, 1, 4, 10]);
        let texts: Vec<String> = (0..n).map(|_| match r.below(30) { 0..=4 => damaged(r), 5..=9 => (*r.pick(&["", "\n", "x", "{{ a }}", "日本 {{ 'é' }}"])).to_string(), 10 | 11 => extreme(r), _ => gen_::document(r.next(), r.next(), &Cfg { plain_extends: true, directives: 5, file_dirs: 10, ..plan(r) }).text }).collect();
        let dir = base.join("w");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("ludtwig-config.toml"), conf.toml()).unwrap();
        for (i, t) in texts.iter().enumerate() { std::fs::write(dir.join(fname(i)), t).unwrap() }
        let broken = r.pct(20);
        if broken { std::fs::write(dir.join("nonutf.twig"), [b'a', 0xff]).unwrap() }
        let before = snapshot(&dir);
        let plain = Cmd::new(&dir).arg(".").run();
        let flag = *r.pick(&["-i", "--inspect"]);
        let (run, ops) = recorded(Cmd::new(&dir).args(&[flag, "."]), &base.join("aux"), &[], None);
        let detail = |x: Value| json!({"config": conf.toml(), "texts": texts, "stderr": cut(&run.stderr, 6000), "x": x});
        if let Some(e) = run.bad() {
            o.bad(e, detail(json!(null)));
            return rm(&base);
        }
        if let Some(x) = writes(&ops).first() { o.bad(format!("{} of {:?} when inspecting", x.op, x.path), detail(json!(null))) }
        let ch = changes(&before, &snapshot(&dir));
        if !ch.is_empty() { o.bad(format!("inspecting changed {ch:?}"), detail(json!(null))) }
        let judge = |run: &Run, texts: &[String], o: &mut Obs, what: &str| {
            let mut left: Vec<usize> = (0..texts.len()).collect();
            let mut k = 0;
            let mut pending: Vec<(Vec<String>, Option<String>)> = vec![];
            while k < run.diags.len() {
                if run.diags[k].code != "SyntaxTree" {
                    o.bad(format!("{what}: findings of {} are printed without its tree", run.diags[k].path), detail(json!(null)));
                    return;
                }
                if run.diags[k].sev != Sev::Info { o.bad(format!("{what}: the tree is printed as {:?}", run.diags[k].sev), detail(json!(null))) }
                let tree = printed_tree(&run.diags[k]);
                let mut path = None;
                k += 1;
                while k < run.diags.len() && run.diags[k].code != "SyntaxTree" {
                    let p = run.diags[k].path.clone();
                    if path.as_ref().is_some_and(|x| *x != p) {
                        o.bad(format!("{what}: findings of {p} follow those of {path:?} without its tree"), detail(json!(null)));
                        return;
                    }
                    path = Some(p);
                    k += 1;
                }
                pending.push((tree, path));
            }
            pending.sort_by_key(|p| p.1.is_none());
            for (tree, path) in pending {
                let hit = match &path {
                    Some(p) => left.iter().copied().find(|i| fname(*i) == *p).map(|i| (i, shows(&tree, &texts[i]))),
                    None => left.iter().copied().find(|i| shows(&tree, &texts[*i]).is_ok()).map(|i| (i, Ok(tree.len()))),
                };
                match hit {
                    Some((i, Ok(n))) => { left.retain(|x| *x != i); o.add("tree_lines_compared", n); o.add("trees_compared", 1) }
                    Some((i, Err(e))) => { left.retain(|x| *x != i); o.bad(format!("{what}: the tree printed for {} is not its tree: {e}", fname(i)), detail(json!(tree))) }
                    None => o.bad(format!("{what}: a tree is printed that is none of a file"), detail(json!(tree))),
                }
            }
            for i in left { o.bad(format!("{what}: no tree is printed for {}", fname(i)), detail(json!(null))) }
        };
        judge(&run, &texts, o, "inspecting");
        let mut rest: Vec<Diag> = run.diags.iter().filter(|d| d.code != "SyntaxTree").cloned().collect();
        let mut all = plain.diags.clone();
        rest.sort();
        all.sort();
        if rest != all { o.bad(format!("{} findings when inspecting, {} without", rest.len(), all.len()), detail(json!(plain.stderr))) }
        if run.errors.len() != plain.errors.len() || run.code != plain.code { o.bad(format!("inspecting ends with {:?} and {} failures, without with {:?} and {}", run.code, run.errors.len(), plain.code, plain.errors.len()), detail(json!(plain.stderr))) }
        let want = plain.summary.clone().map(|s| Summary { infos: s.infos + n as u64, total: s.total + n as u64, ..s });
        if want != run.summary { o.bad(format!("summary {:?} instead of {want:?}", run.summary), detail(json!(plain.stderr))) }
        // the tree of what a fixed file contains now
        if r.pct(40) {
            let run = Cmd::new(&dir).args(&["-i", "--fix", "."]).run();
            if run.bad().is_none() && run.errors.len() == usize::from(broken) {
                let now = (0..n).map(|i| std::fs::read_to_string(dir.join(fname(i))).unwrap_or_default()).collect::<Vec<_>>();
                judge(&run, &now, o, "inspecting while fixing");
            }
        }
        rm(&base);
        o.evals.push((texts.concat(), texts.iter().any(|t| !t.is_empty())));
        if b < 2 { o.samples.push(json!({"texts": texts.iter().map(|t| cut(t, 100)).collect::<Vec<_>>(), "summary": format!("{:?}", run.summary)})) }
    });
}

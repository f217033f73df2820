//! Runs the built program and turns what it prints back into events.
use crate::util::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sev {
    Error,
    Warning,
    Help,
    Info,
}

/// one diagnostic as printed
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Diag {
    pub sev: Sev,
    pub code: String,
    pub msg: String,
    pub path: String,
    pub line: usize,
    pub col: usize,
    /// everything below the location line, verbatim
    pub body: Vec<String>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Summary {
    pub files: u64,
    pub errors: u64,
    pub warnings: u64,
    pub helps: u64,
    pub infos: u64,
    pub total: u64,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
    pub stdout: String,
    pub stderr: String,
    pub diags: Vec<Diag>,
    /// lines `Error: …`
    pub errors: Vec<String>,
    /// lines `fixed … in N iterations`: the path
    pub fixed: Vec<String>,
    pub summary: Option<Summary>,
    /// something that is neither of the above
    pub odd: Vec<String>,
}

pub fn ludtwig() -> PathBuf {
    PathBuf::from(std::env::var("LV_LUDTWIG").unwrap_or_else(|_| "/verif/target/cli/release/ludtwig".into()))
}

#[derive(Clone)]
pub struct Cmd {
    pub bin: PathBuf,
    pub cwd: PathBuf,
    pub args: Vec<String>,
    /// after the others
    pub os_args: Vec<std::ffi::OsString>,
    pub env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
    pub prefix: Vec<String>,
    pub timeout: u64,
}
impl Cmd {
    pub fn new(cwd: &Path) -> Self {
        Cmd { bin: ludtwig(), cwd: cwd.into(), args: vec![], os_args: vec![], env: vec![], prefix: vec![], timeout: 120 }
    }
    pub fn arg(mut self, a: &str) -> Self {
        self.args.push(a.into());
        self
    }
    pub fn args(mut self, a: &[&str]) -> Self {
        self.args.extend(a.iter().map(|x| (*x).to_string()));
        self
    }
    pub fn env(mut self, k: &str, v: &str) -> Self {
        self.env.push((k.into(), v.into()));
        self
    }
    /// an environment variable that is not unicode
    pub fn odd_env(mut self, k: &[u8], v: &[u8]) -> Self {
        use std::os::unix::ffi::OsStringExt;
        self.env.push((std::ffi::OsString::from_vec(k.into()), std::ffi::OsString::from_vec(v.into())));
        self
    }
    pub fn prefix(mut self, a: &[&str]) -> Self {
        self.prefix = a.iter().map(|x| (*x).to_string()).collect();
        self
    }
    pub fn run(&self) -> Run {
        let mut c = if self.prefix.is_empty() {
            Command::new(&self.bin)
        } else {
            let mut c = Command::new(&self.prefix[0]);
            c.args(&self.prefix[1..]).arg(&self.bin);
            c
        };
        c.args(&self.args).args(&self.os_args).current_dir(&self.cwd).env_clear();
        c.env("PATH", "/usr/bin:/bin").env("NO_COLOR", "1").env("TERM", "dumb").env("HOME", &self.cwd).env("RUST_BACKTRACE", "0").env("LC_ALL", "C.UTF-8");
        for (k, v) in &self.env {
            c.env(k, v);
        }
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut ch = c.spawn().unwrap_or_else(|e| panic!("cannot start {}: {e}", self.bin.display()));
        let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
        let to = std::thread::spawn(move || { let mut b = vec![]; let _ = std::io::Read::read_to_end(&mut o, &mut b); b });
        let te = std::thread::spawn(move || { let mut b = vec![]; let _ = std::io::Read::read_to_end(&mut e, &mut b); b });
        let st = Instant::now();
        let mut timeout = false;
        let status = loop {
            match ch.try_wait().unwrap() {
                Some(s) => break s,
                None => {
                    let el = st.elapsed();
                    if el > Duration::from_secs(self.timeout) {
                        let _ = ch.kill();
                        timeout = true;
                        break ch.wait().unwrap();
                    }
                    std::thread::sleep(if el < Duration::from_millis(50) { Duration::from_micros(500) } else { Duration::from_millis(5) });
                }
            }
        };
        let stdout = String::from_utf8_lossy(&to.join().unwrap()).into_owned();
        let stderr = String::from_utf8_lossy(&te.join().unwrap()).into_owned();
        let mut r = Run {
            code: status.code(), signal: std::os::unix::process::ExitStatusExt::signal(&status), timeout, stdout, stderr,
            diags: vec![], errors: vec![], fixed: vec![], summary: None, odd: vec![],
        };
        r.parse();
        r
    }
}

fn summary(l: &str) -> Option<Summary> {
    let mut v = vec![];
    let keys = ["Files scanned: ", "Errors: ", "Warnings: ", "Helps: ", "Info: ", "Total: "];
    let parts: Vec<&str> = l.split(", ").collect();
    if parts.len() != keys.len() {
        return None;
    }
    for (p, k) in parts.iter().zip(keys) {
        v.push(p.strip_prefix(k)?.trim().parse::<u64>().ok()?);
    }
    Some(Summary { files: v[0], errors: v[1], warnings: v[2], helps: v[3], infos: v[4], total: v[5] })
}

fn header(l: &str) -> Option<(Sev, String, String)> {
    let (sev, r) = [("error[", Sev::Error), ("warning[", Sev::Warning), ("help[", Sev::Help), ("note[", Sev::Info)].iter().find_map(|(p, s)| l.strip_prefix(p).map(|r| (*s, r)))?;
    let (code, msg) = r.split_once("]: ")?;
    if !code.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
        return None;
    }
    Some((sev, code.into(), msg.into()))
}

impl Run {
    fn parse(&mut self) {
        for l in self.stdout.lines() {
            if let Some(r) = l.strip_prefix("fixed ") {
                if let Some(i) = r.rfind(" in ") {
                    self.fixed.push(r[..i].to_string());
                    continue;
                }
            }
            if let Some(s) = summary(l) {
                if self.summary.is_some() {
                    self.odd.push(l.into());
                }
                self.summary = Some(s);
            }
        }
        let lines: Vec<&str> = self.stderr.split('\n').collect();
        let mut cur: Option<Diag> = None;
        let mut located = false;
        for l in lines {
            if let Some((sev, code, msg)) = header(l) {
                if let Some(d) = cur.take() {
                    self.diags.push(d);
                }
                cur = Some(Diag { sev, code, msg, path: String::new(), line: 0, col: 0, body: vec![] });
                located = false;
                continue;
            }
            if let Some(s) = summary(l) {
                if let Some(d) = cur.take() {
                    self.diags.push(d);
                }
                if self.summary.is_some() {
                    self.odd.push(l.into());
                }
                self.summary = Some(s);
                continue;
            }
            if l.starts_with("Error: ") {
                if let Some(d) = cur.take() {
                    self.diags.push(d);
                }
                self.errors.push(l.to_string());
                continue;
            }
            if let Some(d) = cur.as_mut() {
                let t = l.trim_start();
                if !located && d.code != "SyntaxTree" {
                    if let Some(loc) = t.strip_prefix("┌─ ") {
                        let mut it = loc.rsplitn(3, ':');
                        let c = it.next().and_then(|x| x.trim().parse().ok());
                        let ln = it.next().and_then(|x| x.parse().ok());
                        let p = it.next();
                        if let (Some(c), Some(ln), Some(p)) = (c, ln, p) {
                            d.path = p.trim_start_matches("./").to_string();
                            d.line = ln;
                            d.col = c;
                            located = true;
                            continue;
                        }
                    }
                }
                if l.trim().is_empty() {
                    continue;
                }
                // (labels of suggestions can have several lines)
                d.body.push(l.to_string());
            } else if !l.trim().is_empty() {
                self.odd.push(l.to_string());
            }
        }
        if let Some(d) = cur.take() {
            self.diags.push(d);
        }
    }
    /// crashed, hung or exited with something other than 0 or 1
    pub fn bad(&self) -> Option<String> {
        if self.timeout {
            return Some("the program did not end in time".into());
        }
        if let Some(s) = self.signal {
            return Some(format!("the program was ended by signal {s}"));
        }
        if self.stderr.contains("panicked at") {
            return Some(format!("the program panicked: {}", cut(self.stderr.lines().find(|l| l.contains("panicked at")).unwrap_or(""), 300)));
        }
        match self.code {
            Some(0 | 1) => None,
            c => Some(format!("exit status {c:?}")),
        }
    }
    pub fn by_path(&self) -> BTreeMap<String, Vec<Diag>> {
        let mut m: BTreeMap<String, Vec<Diag>> = BTreeMap::new();
        for d in &self.diags {
            m.entry(d.path.clone()).or_default().push(d.clone());
        }
        m
    }
}

/// the settings of a configuration file
#[derive(Clone, Debug)]
pub struct Conf {
    pub rules: Vec<String>,
    pub line_ending: &'static str,
    pub mode: char,
    pub count: usize,
    pub indent_blocks: bool,
    pub lb_blocks: bool,
    pub tq: char,
    pub hq: char,
    pub filters: Vec<String>,
    pub tests: Vec<String>,
    pub functions: Vec<String>,
}
pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| (*x).to_string()).collect()
}
/// the version the program says it has
pub fn version() -> &'static str {
    static V: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let o = Command::new(ludtwig()).arg("--version").output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        o.split_whitespace().last().unwrap_or("0.0.0").to_string()
    })
}
impl Conf {
    pub fn defaults() -> Self {
        Conf {
            rules: strs(crate::oracle::RULES), line_ending: "\n", mode: ' ', count: 4, indent_blocks: true, lb_blocks: true, tq: '\'', hq: '"',
            filters: strs(crate::oracle::DEF_FILTERS), tests: strs(crate::oracle::DEF_TESTS), functions: strs(crate::oracle::DEF_FUNCTIONS),
        }
    }
    pub fn random(r: &mut Rng) -> Self {
        let mut c = Self::defaults();
        c.line_ending = *r.pick(&["\n", "\n", "\r\n"]);
        c.mode = *r.pick(&[' ', ' ', '\t']);
        c.count = *r.pick(&[4usize, 2, 1, 3, 0, 8]);
        c.indent_blocks = r.pct(60);
        c.lb_blocks = r.pct(60);
        c.tq = *r.pick(&['\'', '"']);
        c.hq = *r.pick(&['\'', '"']);
        for (v, extra) in [(&mut c.filters, crate::gen_::UNKNOWN_FILTERS), (&mut c.functions, crate::gen_::UNKNOWN_FUNCTIONS)] {
            if r.pct(60) {
                for e in extra {
                    if r.pct(30) { v.push((*e).to_string()) }
                }
                if r.pct(50) {
                    let k = r.below(v.len());
                    v.remove(k);
                }
            }
        }
        if r.pct(50) {
            c.tests.push((*r.pick(crate::gen_::UNKNOWN_TESTS)).0.to_string());
            let k = r.below(c.tests.len());
            c.tests.remove(k);
        }
        c
    }
    pub fn with_rules(mut self, r: &[&str]) -> Self {
        self.rules = strs(r);
        self
    }
    pub fn toml(&self) -> String {
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "));
        let q = |c: char| if c == '"' { "double" } else { "single" };
        format!(
            "version = \"{}\"\n[general]\nactive-rules = {}\n[format]\nline-ending = \"{}\"\nindentation-mode = \"{}\"\nindentation-count = {}\nindent-children-of-blocks = {}\nlinebreaks-around-blocks = {}\ntwig-quotation = \"{}\"\nhtml-quotation = \"{}\"\n[twig]\nvalid-filters = {}\nvalid-tests = {}\nvalid-functions = {}\n",
            version(), list(&self.rules), if self.line_ending == "\n" { "unix_LF" } else { "windows_CRLF" }, if self.mode == ' ' { "space" } else { "tab" }, self.count,
            self.indent_blocks, self.lb_blocks, q(self.tq), q(self.hq), list(&self.filters), list(&self.tests), list(&self.functions)
        )
    }
    pub fn has(&self, r: &str) -> bool {
        self.rules.iter().any(|x| x == r)
    }
}

/// writes texts as files below a fresh directory, with a configuration
pub fn batch_dir(name: &str, conf: &Conf, texts: &[&str]) -> PathBuf {
    let d = scratch(name);
    std::fs::write(d.join("ludtwig-config.toml"), conf.toml()).unwrap();
    for (i, t) in texts.iter().enumerate() {
        std::fs::write(d.join(fname(i)), t).unwrap();
    }
    d
}
pub fn fname(i: usize) -> String {
    format!("f{i}.html.twig")
}
pub fn fix_files(d: &Path, n: usize) -> Vec<String> {
    (0..n).map(|i| std::fs::read_to_string(d.join(fname(i))).unwrap_or_default()).collect()
}
pub fn rm(d: &Path) {
    assert!(d.to_string_lossy().contains("/lv-"));
    let _ = std::fs::remove_dir_all(d);
}

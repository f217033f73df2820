//! Hostile inputs: token soups, corruptions, truncations, splices.
use crate::gen_;
use crate::util::{mix, Rng};

pub const VOCAB: &[&str] = &[
    "{{", "{{-", "{{~", "}}", "-}}", "~}}", "{%", "{%-", "{%~", "%}", "-%}", "~%}", "{#", "{#-", "{#~", "#}", "-#}", "~#}", "#{", "#", "{", "}",
    "(", ")", "[", "]", "<", "</", "<!", "<!--", "-->", ">", "/>", ">=", "<=", "<=>", "=>", "=", "==", "===", "!=", "!==", "!", "?", "??", ":", ";",
    ",", ".", "..", "...", "|", "||", "&", "&&", "~", "+", "-", "*", "**", "/", "//", "%", "\\", "'", "\"", "`", "\\'", "\\\"", "\\\\",
    "block", "endblock", "if", "elseif", "else", "endif", "apply", "endapply", "autoescape", "endautoescape", "cache", "endcache", "deprecated",
    "do", "embed", "endembed", "extends", "flush", "for", "endfor", "from", "import", "macro", "endmacro", "sandbox", "endsandbox", "set", "endset",
    "use", "verbatim", "endverbatim", "only", "ignore missing", "with", "endwith", "ttl", "tags", "props", "component", "endcomponent", "not",
    "not in", "or", "and", "b-or", "b-xor", "b-and", "in", "matches", "starts with", "ends with", "is", "is not", "even", "odd", "defined", "same as",
    "as", "none", "null", "divisible by", "constant", "empty", "iterable", "max", "min", "range", "cycle", "random", "date", "include", "source",
    "sw_extends", "sw_silent_feature_call", "endsw_silent_feature_call", "sw_include", "return", "sw_icon", "sw_thumbnails", "style",
    "ludtwig-ignore-file", "ludtwig-ignore", "trans", "endtrans", "sw_embed", "sw_end_embed", "sw_use", "sw_import", "sw_from", "true", "false",
    "DOCTYPE", "doctype", "html", "div", "<div>", "</div>", "<br>", "<img ", "<script>", "</script>", "<textarea>", "</textarea>", "<pre>", "</pre>",
    "<style>", "</style>", "<title>", "</title>", "<twig:Foo:bar ", "</twig:Foo:bar>", "twig:a", "twig:", "class=", "class=\"a\"", ":x", "@x", "#x", "$x", "_x",
    "a", "b", "foo", "x-y", "0", "1", "42", "3.14", "1E+3", "&nbsp;", "&#10;", "&#x0A;", "&", "ü", "→", "日本", "\u{1F600}", "\u{0}", "\r", "\u{FEFF}", "\u{200B}", "e\u{301}",
    "$", "@", "^", "§", "{{ a }}", "{% if a %}", "{% endif %}", "{% else %}", "{% block a %}", "{% endblock %}", "{# c #}", "<!-- c -->", "{% set a = 1 %}",
    "{% for a in b %}", "{% endfor %}", "{# ludtwig-ignore #}", "<!-- ludtwig-ignore a, b -->", "{# ludtwig-ignore-file #}",
];

pub const SNIPPETS: &[&str] = &[
    "", " ", "\n", "\r\n", "\r", "<", ">", "{", "{{", "{%", "{#", "<!--", "</", "<!", "\"", "'", "=", "\\", "#{", "{% %}", "{{ }}", "{# #}", "<>", "</>", "<a", "<a ", "<a b", "<a b=", "<a b=\"", "<a b=\"c", "<a b='{{",
    "{{ a", "{{ a.", "{{ a|", "{{ a[", "{{ a(", "{{ a(b", "{{ (a,b)", "{{ (a,b) =>", "{{ a =>", "{{ [", "{{ [a,", "{{ {", "{{ {a", "{{ {a:", "{{ {a: b,", "{{ \"", "{{ \"#{", "{{ \"#{a", "{{ \"#{a}", "{{ a ?", "{{ a ? b", "{{ a ? b :", "{{ a is", "{{ a is not", "{{ a is same as", "{{ a is divisible by", "{{ not", "{{ -", "{{ a +", "{{ a not in", "{{ a in",
    "{% block", "{% block a", "{% block a %}", "{% block a %}{% endblock", "{% block a %}{% endblock b %}", "{% block a b %}", "{% block a 'x' %}", "{% if", "{% if a", "{% if a %}", "{% if a %}{% else", "{% if a %}{% elseif", "{% if a %}{% elseif %}{% endif %}", "{% set", "{% set a", "{% set a =", "{% set a, b", "{% set a, b = 1", "{% set a %}", "{% for", "{% for a", "{% for a,", "{% for a in", "{% for a in b %}", "{% for a in b %}{% else %}",
    "{% extends", "{% include", "{% include 'a' ignore missing with", "{% use", "{% use 'a' with", "{% use 'a' with b as", "{% from", "{% from 'a' import", "{% from 'a' import b as", "{% import", "{% import 'a' as", "{% embed", "{% embed 'a' %}", "{% apply", "{% apply a|", "{% apply a|b(", "{% autoescape", "{% autoescape 'html' %}", "{% deprecated", "{% do", "{% flush", "{% sandbox", "{% sandbox %}", "{% verbatim", "{% verbatim %}", "{% macro", "{% macro a", "{% macro a(", "{% macro a(b", "{% macro a(b=1) %}", "{% macro a() %}{% endmacro b %}", "{% with", "{% with {a: 1} only", "{% cache", "{% cache a ttl(", "{% cache a tags(1) %}", "{% trans", "{% trans %}", "{% props", "{% props a, b = ", "{% component", "{% component a with", "{% component a %}",
    "{% sw_extends", "{% sw_extends {", "{% sw_extends { template: 'a', scopes: [", "{% sw_silent_feature_call", "{% sw_silent_feature_call 'a' %}", "{% sw_include", "{% return", "{% return a", "{% sw_icon", "{% sw_icon 'a' style", "{% sw_icon 'a' style {", "{% sw_thumbnails", "{% sw_thumbnails 'a' with", "{% sw_thumbnails 'a' with {", "{% unknown", "{% unknown %}", "{% endblock %}", "{% endif %}", "{% else %}",
    "<div", "<div>", "<div></div", "<div></span>", "<div></div></div>", "</div>", "<script>", "<script>{{", "<script>{% if a %}", "<script></scrip", "<textarea></TEXTAREA>", "<style><", "<title></", "<br></br>", "<br/>", "<div {% if a %}", "<div {% if a %}b", "<div {% if a %}b=\"{% endif %}\">", "<div {{", "<div {#", "<div a=\"{% if b %}", "<div a=\"{% if b %}\"", "<!DOCTYPE", "<!DOCTYPE html", "<!doctype html>x", "<!foo>", "<!-", "<!-- a --", "{# ludtwig-ignore", "{# ludtwig-ignore a", "{# ludtwig-ignore a, ,", "{# ludtwig-ignore-file", "<!-- ludtwig-ignore",
    "a < b", "1 < 2 > 3", "<1", "< a>", "<-", "<=", "a<b>c", "&amp", "&;", "&#;", "twig:a", "<twig:a", "<twig:a>", "<twig:a></twig:b>", "ü{{ ü }}ü", "<ü>", "{% ü %}", "<a ü=\"ü\">", "\u{FEFF}<div></div>", "\u{0}\u{0}", "a\rb", "{{ 'a\nb' }}", "{{ 1..5 }}", "{{ 1.5.2 }}", "{{ ...a }}", "{{ a ...b }}",
];

/// elements whose content is raw text
pub const RAW: &[&str] = &["script", "style", "textarea", "title"];

pub fn boundary(t: &str, mut i: usize) -> usize {
    if i > t.len() { i = t.len(); }
    while !t.is_char_boundary(i) { i -= 1; }
    i
}

pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let glue = r.below(4);
    let sub: Vec<&str> = if r.pct(50) { (0..r.range(3, 14)).map(|_| *r.pick(VOCAB)).collect() } else { VOCAB.to_vec() };
    for _ in 0..n {
        s.push_str(r.pick(&sub));
        match glue {
            0 => {}
            1 => s.push(' '),
            2 => if r.pct(50) { s.push(' ') },
            _ => s.push_str(r.pick(&["", " ", "\n", "\r\n", "\t", "  \n "])),
        }
    }
    s
}

pub fn chars(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match r.below(12) {
            0 => s.push(char::from_u32(r.below(0x80) as u32).unwrap()),
            1 => s.push(char::from_u32(0xA0 + r.below(0x500) as u32).unwrap_or('x')),
            2 => s.push(*r.pick(&['\u{2028}', '\u{85}', '\u{A0}', '\u{FEFF}', '\u{10FFFF}', '\u{D7FF}', '\u{E000}', '\u{1F468}', '\u{200D}'])),
            3..=6 => s.push(*r.pick(&['{', '}', '%', '#', '<', '>', '/', '"', '\'', '=', '-', '~', '!', '|', '\\', '(', ')', '[', ']', '.', ':', ','])),
            7 => s.push(*r.pick(&[' ', '\t', '\n', '\r'])),
            _ => s.push(*r.pick(&['a', 'b', 'i', 'f', 'n', 'o', 't', '1', '0', '_', '$', '@', '&', ';'])),
        }
    }
    s
}

pub fn edit(t: &str, r: &mut Rng) -> String {
    let a = boundary(t, r.below(t.len() + 1));
    let b = boundary(t, (a + r.below(12)).min(t.len()));
    let b = b.max(a);
    match r.below(9) {
        0 => format!("{}{}", &t[..a], &t[b..]),
        1 => format!("{}{}{}", &t[..a], r.pick(VOCAB), &t[a..]),
        2 => format!("{}{}{}", &t[..a], r.pick(VOCAB), &t[b..]),
        3 => format!("{}{}{}", &t[..b], &t[a..b], &t[b..]),
        4 => {
            let c = boundary(t, r.below(t.len() + 1));
            let (x, y) = (a.min(c), a.max(c));
            format!("{}{}", &t[..x], &t[y..])
        }
        5 => {
            let c = boundary(t, r.below(t.len() + 1));
            format!("{}{}{}", &t[..c], &t[a..b], &t[c..])
        }
        6 => t[..a].to_string(),
        7 => t[a..].to_string(),
        _ => format!("{}{}{}", &t[..a], r.pick(SNIPPETS), &t[a..]),
    }
}

pub fn random_cfg(r: &mut Rng) -> gen_::Cfg {
    gen_::Cfg {
        fuel: *r.pick(&[3, 8, 15, 30, 60]),
        wild: r.pct(75),
        nl: *r.pick(&[Some("\n"), Some("\n"), Some("\r\n"), None]),
        directives: *r.pick(&[0, 0, 10]),
        html: r.pct(85),
        max_expr: r.range(1, 4),
        ..gen_::Cfg::default()
    }
}

/// kind of the case and its text
pub fn hostile(seed: u64) -> (&'static str, String) {
    let mut r = Rng::new(mix(seed, 0xC0FFEE));
    match r.below(100) {
        0..=34 => {
            let c = random_cfg(&mut r);
            let mut t = gen_::document(r.next(), r.next(), &c).text;
            for _ in 0..r.range(1, 5) {
                t = edit(&t, &mut r);
            }
            ("corrupted", t)
        }
        35..=44 => {
            let c = random_cfg(&mut r);
            let t = gen_::document(r.next(), r.next(), &c).text;
            let e = boundary(&t, r.below(t.len() + 1));
            ("truncated", t[..e].to_string())
        }
        45..=52 => {
            let c = random_cfg(&mut r);
            ("valid", gen_::document(r.next(), r.next(), &c).text)
        }
        53..=74 => {
            let n = r.range(1, 60);
            ("soup", soup(&mut r, n))
        }
        75..=82 => {
            let n = r.range(1, 60);
            ("chars", chars(&mut r, n))
        }
        83..=94 => {
            let n = r.range(1, 5);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(r.pick(SNIPPETS));
                if r.pct(40) { t.push_str(r.pick(&[" ", "\n", "\r\n", "}}", " %}", "</div>", "ü"])); }
            }
            ("snippets", t)
        }
        _ => {
            let n = r.range(2, 25);
            let o = *r.pick(VOCAB);
            let pre = *r.pick(&["", "{{ ", "{% if ", "<a b=\"", "<div ", "<script>", "{% set a = ", "{# "]);
            let sp = *r.pick(&["", " ", "\n", " a ", ",", "a"]);
            ("repeated", format!("{pre}{}", format!("{o}{sp}").repeat(n)))
        }
    }
}

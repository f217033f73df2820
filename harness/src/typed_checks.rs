//! C12: the typed view of the syntax tree says the same as the text.
use crate::corpus;
use crate::gen_::{self as docgen, Doc};
use crate::parser_checks::parse;
use crate::util::*;
use ludtwig_parser::syntax::typed::*;
use ludtwig_parser::syntax::untyped::{debug_tree, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

macro_rules! all_types { ($m:ident) => { $m!(TwigBlock, TWIG_BLOCK); $m!(TwigStartingBlock, TWIG_STARTING_BLOCK); $m!(TwigEndingBlock, TWIG_ENDING_BLOCK); $m!(HtmlTag, HTML_TAG); $m!(HtmlStartingTag, HTML_STARTING_TAG); $m!(HtmlAttribute, HTML_ATTRIBUTE); $m!(HtmlEndingTag, HTML_ENDING_TAG); $m!(TwigBinaryExpression, TWIG_BINARY_EXPRESSION); $m!(LudtwigDirectiveRuleList, LUDTWIG_DIRECTIVE_RULE_LIST); $m!(LudtwigDirectiveFileIgnore, LUDTWIG_DIRECTIVE_FILE_IGNORE); $m!(LudtwigDirectiveIgnore, LUDTWIG_DIRECTIVE_IGNORE); $m!(TwigLiteralString, TWIG_LITERAL_STRING); $m!(TwigLiteralStringInner, TWIG_LITERAL_STRING_INNER); $m!(HtmlString, HTML_STRING); $m!(TwigExtends, TWIG_EXTENDS); $m!(TwigVar, TWIG_VAR); $m!(TwigLiteralName, TWIG_LITERAL_NAME); $m!(Body, BODY); $m!(TwigExpression, TWIG_EXPRESSION); $m!(TwigUnaryExpression, TWIG_UNARY_EXPRESSION); $m!(TwigParenthesesExpression, TWIG_PARENTHESES_EXPRESSION); $m!(TwigConditionalExpression, TWIG_CONDITIONAL_EXPRESSION); $m!(TwigOperand, TWIG_OPERAND); $m!(TwigAccessor, TWIG_ACCESSOR); $m!(TwigFilter, TWIG_FILTER); $m!(TwigIndexLookup, TWIG_INDEX_LOOKUP); $m!(TwigIndex, TWIG_INDEX); $m!(TwigIndexRange, TWIG_INDEX_RANGE); $m!(TwigFunctionCall, TWIG_FUNCTION_CALL); $m!(TwigArrowFunction, TWIG_ARROW_FUNCTION); $m!(TwigArguments, TWIG_ARGUMENTS); $m!(TwigNamedArgument, TWIG_NAMED_ARGUMENT); $m!(TwigLiteralStringInterpolation, TWIG_LITERAL_STRING_INTERPOLATION); $m!(TwigLiteralNumber, TWIG_LITERAL_NUMBER); $m!(TwigLiteralArray, TWIG_LITERAL_ARRAY); $m!(TwigLiteralArrayInner, TWIG_LITERAL_ARRAY_INNER); $m!(TwigLiteralNull, TWIG_LITERAL_NULL); $m!(TwigLiteralBoolean, TWIG_LITERAL_BOOLEAN); $m!(TwigLiteralHash, TWIG_LITERAL_HASH); $m!(TwigLiteralHashItems, TWIG_LITERAL_HASH_ITEMS); $m!(TwigLiteralHashPair, TWIG_LITERAL_HASH_PAIR); $m!(TwigLiteralHashKey, TWIG_LITERAL_HASH_KEY); $m!(TwigLiteralHashValue, TWIG_LITERAL_HASH_VALUE); $m!(TwigComment, TWIG_COMMENT); $m!(TwigIf, TWIG_IF); $m!(TwigIfBlock, TWIG_IF_BLOCK); $m!(TwigElseIfBlock, TWIG_ELSE_IF_BLOCK); $m!(TwigElseBlock, TWIG_ELSE_BLOCK); $m!(TwigEndIfBlock, TWIG_ENDIF_BLOCK); $m!(TwigSet, TWIG_SET); $m!(TwigSetBlock, TWIG_SET_BLOCK); $m!(TwigEndSetBlock, TWIG_ENDSET_BLOCK); $m!(TwigAssignment, TWIG_ASSIGNMENT); $m!(TwigFor, TWIG_FOR); $m!(TwigForBlock, TWIG_FOR_BLOCK); $m!(TwigForElseBlock, TWIG_FOR_ELSE_BLOCK); $m!(TwigEndForBlock, TWIG_ENDFOR_BLOCK); $m!(TwigInclude, TWIG_INCLUDE); $m!(TwigIncludeWith, TWIG_INCLUDE_WITH); $m!(TwigUse, TWIG_USE); $m!(TwigOverride, TWIG_OVERRIDE); $m!(TwigApply, TWIG_APPLY); $m!(TwigApplyStartingBlock, TWIG_APPLY_STARTING_BLOCK); $m!(TwigApplyEndingBlock, TWIG_APPLY_ENDING_BLOCK); $m!(TwigAutoescape, TWIG_AUTOESCAPE); $m!(TwigAutoescapeStartingBlock, TWIG_AUTOESCAPE_STARTING_BLOCK); $m!(TwigAutoescapeEndingBlock, TWIG_AUTOESCAPE_ENDING_BLOCK); $m!(TwigDeprecated, TWIG_DEPRECATED); $m!(TwigDo, TWIG_DO); $m!(TwigEmbed, TWIG_EMBED); $m!(TwigEmbedStartingBlock, TWIG_EMBED_STARTING_BLOCK); $m!(TwigEmbedEndingBlock, TWIG_EMBED_ENDING_BLOCK); $m!(TwigFlush, TWIG_FLUSH); $m!(TwigFrom, TWIG_FROM); $m!(TwigImport, TWIG_IMPORT); $m!(TwigSandbox, TWIG_SANDBOX); $m!(TwigSandboxStartingBlock, TWIG_SANDBOX_STARTING_BLOCK); $m!(TwigSandboxEndingBlock, TWIG_SANDBOX_ENDING_BLOCK); $m!(TwigVerbatim, TWIG_VERBATIM); $m!(TwigVerbatimStartingBlock, TWIG_VERBATIM_STARTING_BLOCK); $m!(TwigVerbatimEndingBlock, TWIG_VERBATIM_ENDING_BLOCK); $m!(TwigMacro, TWIG_MACRO); $m!(TwigMacroStartingBlock, TWIG_MACRO_STARTING_BLOCK); $m!(TwigMacroEndingBlock, TWIG_MACRO_ENDING_BLOCK); $m!(TwigWith, TWIG_WITH); $m!(TwigWithStartingBlock, TWIG_WITH_STARTING_BLOCK); $m!(TwigWithEndingBlock, TWIG_WITH_ENDING_BLOCK); $m!(TwigCache, TWIG_CACHE); $m!(TwigCacheTTL, TWIG_CACHE_TTL); $m!(TwigCacheTags, TWIG_CACHE_TAGS); $m!(TwigCacheStartingBlock, TWIG_CACHE_STARTING_BLOCK); $m!(TwigCacheEndingBlock, TWIG_CACHE_ENDING_BLOCK); $m!(TwigProps, TWIG_PROPS); $m!(TwigPropDeclaration, TWIG_PROP_DECLARATION); $m!(TwigComponent, TWIG_COMPONENT); $m!(TwigComponentStartingBlock, TWIG_COMPONENT_STARTING_BLOCK); $m!(TwigComponentEndingBlock, TWIG_COMPONENT_ENDING_BLOCK); $m!(ShopwareTwigExtends, SHOPWARE_TWIG_SW_EXTENDS); $m!(ShopwareTwigInclude, SHOPWARE_TWIG_SW_INCLUDE); $m!(ShopwareSilentFeatureCall, SHOPWARE_SILENT_FEATURE_CALL); $m!(ShopwareSilentFeatureCallStartingBlock, SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK); $m!(ShopwareSilentFeatureCallEndingBlock, SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK); $m!(ShopwareReturn, SHOPWARE_RETURN); $m!(ShopwareIcon, SHOPWARE_ICON); $m!(ShopwareIconStyle, SHOPWARE_ICON_STYLE); $m!(ShopwareThumbnails, SHOPWARE_THUMBNAILS); $m!(ShopwareThumbnailsWith, SHOPWARE_THUMBNAILS_WITH); $m!(HtmlDoctype, HTML_DOCTYPE); $m!(HtmlAttributeList, HTML_ATTRIBUTE_LIST); $m!(HtmlStringInner, HTML_STRING_INNER); $m!(HtmlText, HTML_TEXT); $m!(HtmlRawText, HTML_RAW_TEXT); $m!(HtmlComment, HTML_COMMENT); $m!(Error, ERROR); $m!(Root, ROOT); $m!(TwigTrans, TWIG_TRANS); $m!(TwigTransStartingBlock, TWIG_TRANS_STARTING_BLOCK); $m!(TwigTransEndingBlock, TWIG_TRANS_ENDING_BLOCK); } }
macro_rules! ws_types { ($m:ident) => { $m!(TwigStartingBlock); $m!(TwigEndingBlock); $m!(TwigIfBlock); $m!(TwigElseIfBlock); $m!(TwigElseBlock); $m!(TwigEndIfBlock); $m!(TwigSetBlock); $m!(TwigEndSetBlock); $m!(TwigForBlock); $m!(TwigForElseBlock); $m!(TwigEndForBlock); $m!(TwigInclude); $m!(TwigUse); $m!(TwigOverride); $m!(TwigApplyStartingBlock); $m!(TwigApplyEndingBlock); $m!(TwigAutoescapeStartingBlock); $m!(TwigAutoescapeEndingBlock); $m!(TwigDeprecated); $m!(TwigDo); $m!(TwigEmbedStartingBlock); $m!(TwigEmbedEndingBlock); $m!(TwigFlush); $m!(TwigFrom); $m!(TwigImport); $m!(TwigExtends); $m!(TwigSandboxStartingBlock); $m!(TwigSandboxEndingBlock); $m!(TwigVerbatimStartingBlock); $m!(TwigVerbatimEndingBlock); $m!(TwigMacroStartingBlock); $m!(TwigMacroEndingBlock); $m!(TwigWithStartingBlock); $m!(TwigWithEndingBlock); $m!(TwigCacheStartingBlock); $m!(TwigCacheEndingBlock); $m!(TwigProps); $m!(TwigComponentStartingBlock); $m!(TwigComponentEndingBlock); $m!(TwigTransStartingBlock); $m!(TwigTransEndingBlock); $m!(TwigAssignment); $m!(ShopwareTwigExtends); $m!(ShopwareTwigInclude); $m!(ShopwareSilentFeatureCallStartingBlock); $m!(ShopwareSilentFeatureCallEndingBlock); $m!(ShopwareReturn); $m!(ShopwareIcon); $m!(TwigVar); $m!(TwigComment); } }

type R = (usize, usize);
fn trivia(k: SyntaxKind) -> bool { matches!(k, SyntaxKind::TK_WHITESPACE | SyntaxKind::TK_LINE_BREAK) }
/// extent without surrounding whitespace
fn trim(n: &SyntaxNode) -> R {
    let (a, b) = (usize::from(n.text_range().start()), usize::from(n.text_range().end()));
    let t = n.text().to_string();
    let ws = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c');
    let l = t.trim_start_matches(ws).len();
    if l == 0 { return (b, b); }
    (b - l, a + t.trim_end_matches(ws).len())
}
fn tr(t: &SyntaxToken) -> R { (t.text_range().start().into(), t.text_range().end().into()) }
fn wsc(w: Option<WhitespaceTrimming>) -> char {
    match w { None => ' ', Some(WhitespaceTrimming::RemoveAll) => '-', Some(WhitespaceTrimming::RemoveExceptNewLines) => '~' }
}
fn want_ws(text: &str) -> (char, char) {
    let b = text.as_bytes();
    let tag = |s: &str| matches!(s, "{%" | "{{" | "{#");
    let lead = if text.len() >= 3 && text.is_char_boundary(2) && tag(&text[..2]) && (b[2] == b'-' || b[2] == b'~') { b[2] as char } else { ' ' };
    let n = text.len();
    let close = n >= 2 && text.is_char_boundary(n - 2) && matches!(&text[n - 2..], "%}" | "}}" | "#}");
    let trail = if close && n >= 6 && (b[n - 3] == b'-' || b[n - 3] == b'~') { b[n - 3] as char } else { ' ' };
    (lead, trail)
}

/// facts that hold of every tree, also of broken ones; every accessor is called
fn universal(root: &SyntaxNode, text: &str, clean: bool, seen: &mut BTreeMap<&'static str, u64>) -> Option<String> {
    macro_rules! chk { ($c:expr, $($f:tt)*) => { if !$c { return Some(format!($($f)*)); } } }
    for n in root.descendants() {
        let k = n.kind();
        let mut casts = 0;
        macro_rules! one {
            ($t:ident, $k:ident) => {
                let is = k == SyntaxKind::$k;
                chk!($t::can_cast(k) == is, "{}::can_cast({:?}) is {}", stringify!($t), k, !is);
                match $t::cast(n.clone()) {
                    Some(x) => {
                        chk!(is, "{}::cast accepts a {:?}", stringify!($t), k);
                        chk!(*x.syntax() == n, "{}::syntax returns another node", stringify!($t));
                        chk!(n.text() == x.to_string().as_str(), "{} displays as {:?}, its text is {:?}", stringify!($t), x.to_string(), n.text().to_string());
                        if n.text().len() < 400.into() { chk!(format!("{x:?}") == debug_tree(&n), "{} has a wrong debug output", stringify!($t)); }
                        casts += 1;
                        *seen.entry(stringify!($t)).or_default() += 1;
                    }
                    None => chk!(!is, "{}::cast refuses a {:?}", stringify!($t), k),
                }
            };
        }
        all_types!(one);
        chk!(casts <= 1, "{k:?} is cast to {casts} types");
        let _ = casts;
        let r = trim(&n);
        if clean {
            let want = want_ws(&text[r.0..r.1]);
            macro_rules! ws {
                ($t:ident) => {
                    if let Some(x) = $t::cast(n.clone()) {
                        let got = (wsc(x.leading_ws_control()), wsc(x.trailing_ws_control()));
                        chk!(got == want, "whitespace control of {} {:?} is {:?}", stringify!($t), &text[r.0..r.1], got);
                    }
                };
            }
            ws_types!(ws);
        } else {
            macro_rules! ws { ($t:ident) => { if let Some(x) = $t::cast(n.clone()) { let _ = (x.leading_ws_control(), x.trailing_ws_control()); } }; }
            ws_types!(ws);
        }
        let kid = |k: SyntaxKind| n.children().find(|c| c.kind() == k);
        let same = |a: Option<&SyntaxNode>, b: Option<SyntaxNode>| a == b.as_ref();
        use SyntaxKind::*;
        if let Some(x) = TwigBlock::cast(n.clone()) {
            chk!(same(x.starting_block().as_ref().map(|y| y.syntax()), kid(TWIG_STARTING_BLOCK)), "TwigBlock::starting_block");
            chk!(same(x.body().as_ref().map(|y| y.syntax()), kid(BODY)), "TwigBlock::body");
            chk!(same(x.ending_block().as_ref().map(|y| y.syntax()), kid(TWIG_ENDING_BLOCK)), "TwigBlock::ending_block");
            chk!(x.name() == x.starting_block().and_then(|s| s.name()), "TwigBlock::name differs from the name of its starting tag");
            if let Some(s) = x.starting_block() { chk!(s.twig_block().as_ref() == Some(&x), "TwigStartingBlock::twig_block"); }
            if let Some(s) = x.ending_block() { chk!(s.twig_block().as_ref() == Some(&x), "TwigEndingBlock::twig_block"); }
        }
        if let Some(x) = TwigStartingBlock::cast(n.clone()) { chk!(x.name().is_none_or(|t| t.parent().as_ref() == Some(&n)), "TwigStartingBlock::name lies elsewhere"); }
        if let Some(x) = HtmlTag::cast(n.clone()) {
            chk!(same(x.starting_tag().as_ref().map(|y| y.syntax()), kid(HTML_STARTING_TAG)), "HtmlTag::starting_tag");
            chk!(same(x.body().as_ref().map(|y| y.syntax()), kid(BODY)), "HtmlTag::body");
            chk!(same(x.ending_tag().as_ref().map(|y| y.syntax()), kid(HTML_ENDING_TAG)), "HtmlTag::ending_tag");
            chk!(x.is_self_closing() == kid(HTML_ENDING_TAG).is_none(), "HtmlTag::is_self_closing");
            let s = x.starting_tag();
            chk!(x.name() == s.as_ref().and_then(HtmlStartingTag::name), "HtmlTag::name differs from that of its starting tag");
            chk!(x.is_twig_component() == s.as_ref().is_some_and(HtmlStartingTag::is_twig_component), "HtmlTag::is_twig_component differs from that of its starting tag");
            let a: Vec<_> = x.attributes().collect();
            chk!(a == s.as_ref().map(|s| s.attributes().collect::<Vec<_>>()).unwrap_or_default(), "HtmlTag::attributes differ from those of its starting tag");
        }
        if let Some(x) = HtmlStartingTag::cast(n.clone()) {
            let want: Vec<SyntaxNode> = kid(HTML_ATTRIBUTE_LIST).map(|l| l.children().filter(|c| c.kind() == HTML_ATTRIBUTE).collect()).unwrap_or_default();
            let got: Vec<SyntaxNode> = x.attributes().map(|a| a.syntax().clone()).collect();
            chk!(got == want, "HtmlStartingTag::attributes gives {got:?}");
            for a in x.attributes() { chk!(a.html_tag().as_ref() == Some(&x), "HtmlAttribute::html_tag"); }
            chk!(x.html_tag().map(|t| t.syntax().clone()) == n.parent().filter(|p| p.kind() == HTML_TAG), "HtmlStartingTag::html_tag");
            if let Some(t) = x.name() { chk!(x.is_twig_component() == t.text().starts_with("twig:"), "HtmlStartingTag::is_twig_component of {:?}", t.text()); }
        }
        if let Some(x) = HtmlEndingTag::cast(n.clone()) {
            chk!(x.html_tag().map(|t| t.syntax().clone()) == n.parent().filter(|p| p.kind() == HTML_TAG), "HtmlEndingTag::html_tag");
            if let Some(t) = x.name() { chk!(x.is_twig_component() == t.text().starts_with("twig:"), "HtmlEndingTag::is_twig_component of {:?}", t.text()); }
        }
        if let Some(x) = HtmlAttribute::cast(n.clone()) {
            chk!(same(x.value().as_ref().map(|y| y.syntax()), kid(HTML_STRING)), "HtmlAttribute::value");
            chk!(x.html_tag().map(|t| t.syntax().clone()) == n.ancestors().find(|p| p.kind() == HTML_STARTING_TAG), "HtmlAttribute::html_tag");
            if clean {
                let own = n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| !trivia(t.kind()));
                chk!(x.name() == own.filter(|t| t.text() != "="), "HtmlAttribute::name of {:?} is {:?}", n.text().to_string(), x.name().map(|t| t.to_string()));
            }
        }
        if let Some(x) = TwigBinaryExpression::cast(n.clone()) {
            let op = n.children_with_tokens().position(|e| matches!(&e, SyntaxElement::Token(t) if !trivia(t.kind())));
            let all: Vec<SyntaxElement> = n.children_with_tokens().collect();
            chk!(x.operator() == op.and_then(|i| all[i].as_token().cloned()), "TwigBinaryExpression::operator");
            if let Some(i) = op {
                let side = |r: &[SyntaxElement]| r.iter().filter_map(|e| e.as_node()).find(|c| c.kind() == TWIG_EXPRESSION).cloned();
                chk!(x.lhs_expression().map(|e| e.syntax().clone()) == side(&all[..i]), "TwigBinaryExpression::lhs_expression of {:?} is {:?}", n.text().to_string(), x.lhs_expression().map(|e| e.to_string()));
                chk!(x.rhs_expression().map(|e| e.syntax().clone()) == side(&all[i..]), "TwigBinaryExpression::rhs_expression of {:?} is {:?}", n.text().to_string(), x.rhs_expression().map(|e| e.to_string()));
            } else { let _ = (x.lhs_expression(), x.rhs_expression()); }
        }
        if let Some(x) = TwigLiteralString::cast(n.clone()) {
            chk!(same(x.get_inner().as_ref().map(|y| y.syntax()), kid(TWIG_LITERAL_STRING_INNER)), "TwigLiteralString::get_inner");
            let (o, c) = (x.get_opening_quote(), x.get_closing_quote());
            if clean { chk!(quotes(&text[r.0..r.1], r, &o, &c), "quotes of {:?} are {o:?} and {c:?}", &text[r.0..r.1]); }
        }
        if let Some(x) = HtmlString::cast(n.clone()) {
            chk!(same(x.get_inner().as_ref().map(|y| y.syntax()), kid(HTML_STRING_INNER)), "HtmlString::get_inner");
            let (o, c) = (x.get_opening_quote(), x.get_closing_quote());
            if clean { chk!(quotes(&text[r.0..r.1], r, &o, &c), "quotes of {:?} are {o:?} and {c:?}", &text[r.0..r.1]); }
        }
        if let Some(x) = TwigLiteralStringInner::cast(n.clone()) {
            let want: Vec<SyntaxNode> = n.children().filter(|c| c.kind() == TWIG_LITERAL_STRING_INTERPOLATION).collect();
            chk!(x.get_interpolations().map(|i| i.syntax().clone()).collect::<Vec<_>>() == want, "TwigLiteralStringInner::get_interpolations");
        }
        if let Some(x) = TwigExtends::cast(n.clone()) {
            let kw = x.get_extends_keyword();
            chk!(kw.as_ref().is_none_or(|t| t.text() == "extends" && t.parent().as_ref() == Some(&n)), "TwigExtends::get_extends_keyword");
            if clean { chk!(kw.is_some(), "TwigExtends::get_extends_keyword finds nothing"); }
        }
        if let Some(x) = TwigVar::cast(n.clone()) {
            chk!(same(x.get_expression().as_ref().map(|y| y.syntax()), kid(TWIG_EXPRESSION)), "TwigVar::get_expression");
            if clean {
                let inner = text[r.0..r.1].trim_start_matches("{{").trim_start_matches(['-', '~']).trim_end_matches("}}").trim_end_matches(['-', '~']);
                let got = x.get_expression().map(|e| e.to_string()).unwrap_or_default();
                let sq = |s: &str| s.trim().trim_start_matches(['-', '~']).to_string();
                chk!(sq(&got) == sq(inner), "TwigVar::get_expression of {:?} is {:?}", &text[r.0..r.1], got);
            }
        }
        if let Some(x) = TwigLiteralName::cast(n.clone()) {
            if clean { chk!(x.get_name().map(|t| tr(&t)) == Some(r), "TwigLiteralName::get_name of {:?} is {:?}", &text[r.0..r.1], x.get_name().map(|t| t.to_string())); } else { let _ = x.get_name(); }
        }
        if let Some(x) = TwigFilter::cast(n.clone()) {
            let ops: Vec<SyntaxNode> = n.children().filter(|c| c.kind() == TWIG_OPERAND).collect();
            chk!(same(x.operand().as_ref().map(|y| y.syntax()), ops.first().cloned()), "TwigFilter::operand");
            chk!(same(x.filter().as_ref().map(|y| y.syntax()), ops.get(1).cloned()), "TwigFilter::filter");
            if clean {
                let pipe = n.children_with_tokens().filter_map(|e| e.into_token()).find(|t| t.text() == "|");
                let ok = match (&pipe, x.operand(), x.filter()) {
                    (Some(p), Some(a), Some(b)) => trim(a.syntax()) .1 <= tr(p).0 && trim(b.syntax()).0 >= tr(p).1,
                    _ => false,
                };
                chk!(ok, "TwigFilter::operand and ::filter of {:?} are {:?} and {:?}", n.text().to_string(), x.operand().map(|a| a.to_string()), x.filter().map(|a| a.to_string()));
            }
        }
        if let Some(x) = TwigFunctionCall::cast(n.clone()) {
            chk!(same(x.name_operand().as_ref().map(|y| y.syntax()), kid(TWIG_OPERAND)), "TwigFunctionCall::name_operand");
            chk!(same(x.arguments().as_ref().map(|y| y.syntax()), kid(TWIG_ARGUMENTS)), "TwigFunctionCall::arguments");
        }
        let list = |n: &SyntaxNode| -> Vec<String> {
            let t = n.text().to_string();
            t.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).map(str::to_string).collect()
        };
        if let Some(x) = LudtwigDirectiveRuleList::cast(n.clone()) {
            let got = x.get_rule_names();
            if clean { chk!(got == list(&n), "rule names of {:?} are {got:?}", n.text().to_string()); }
        }
        let got = LudtwigDirectiveIgnore::cast(n.clone()).map(|x| x.get_rules()).or_else(|| LudtwigDirectiveFileIgnore::cast(n.clone()).map(|x| x.get_rules()));
        if let Some(got) = got {
            if clean { chk!(got == kid(LUDTWIG_DIRECTIVE_RULE_LIST).map(|l| list(&l)).unwrap_or_default(), "rules of the directive {:?} are {got:?}", n.text().to_string()); }
        }
    }
    None
}
fn quotes(t: &str, r: R, o: &Option<SyntaxToken>, c: &Option<SyntaxToken>) -> bool {
    if t.starts_with(['"', '\'']) {
        o.as_ref().map(tr) == Some((r.0, r.0 + 1)) && c.as_ref().map(tr) == Some((r.1 - 1, r.1)) && t.chars().next() == t.chars().last()
    } else { o.is_none() && c.is_none() }
}

fn pair(s: &str) -> Option<R> {
    let (a, b) = s.split_once(',')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}
/// what the generator meant, read back through the typed view
fn intended(d: &Doc, root: &SyntaxNode, seen: &mut BTreeMap<&'static str, u64>) -> Option<String> {
    macro_rules! chk { ($c:expr, $($f:tt)*) => { if !$c { return Some(format!($($f)*)); } } }
    macro_rules! get { ($e:expr, $($f:tt)*) => { match $e { Some(x) => x, None => return Some(format!($($f)*)) } } }
    let text = &d.text;
    let mut by: HashMap<(SyntaxKind, R), Vec<SyntaxNode>> = HashMap::new();
    let mut tok: HashMap<R, SyntaxToken> = HashMap::new();
    for e in root.descendants_with_tokens() {
        match e {
            SyntaxElement::Node(n) => by.entry((n.kind(), trim(&n))).or_default().push(n),
            SyntaxElement::Token(t) => { tok.insert(tr(&t), t); }
        }
    }
    let find = |k: SyntaxKind, r: R| by.get(&(k, r)).and_then(|v| v.first()).cloned();
    let up = |r: R, k: SyntaxKind| tok.get(&r).and_then(|t| t.parent_ancestors().find(|n| n.kind() == k));
    use SyntaxKind::*;
    let mut blocks = 0;
    let mut starts: HashMap<SyntaxNode, Vec<String>> = HashMap::new();
    for m in &d.marks {
        let r = (m.start, m.end);
        let src = &text[m.start..m.end];
        *seen.entry(m.kind).or_default() += 1;
        match m.kind {
            "block" => {
                blocks += 1;
                let b = get!(find(TWIG_BLOCK, r).and_then(TwigBlock::cast), "no TwigBlock at {src:?}");
                chk!(b.name().is_some_and(|t| t.text() == m.name), "TwigBlock::name of {src:?} is {:?}", b.name().map(|t| t.to_string()));
                let parts = [b.starting_block().map(|x| x.to_string()), b.body().map(|x| x.to_string()), b.ending_block().map(|x| x.to_string())];
                chk!(parts.iter().flatten().cloned().collect::<String>() == b.to_string(), "the parts of {src:?} are {parts:?}");
                chk!(b.ending_block().is_none() == m.flag && b.body().is_none() == m.flag, "a short block is mistaken: {src:?}");
            }
            "tagname" => {
                let s = get!(up(r, HTML_STARTING_TAG).and_then(HtmlStartingTag::cast), "no HtmlStartingTag named {src:?}");
                let t = get!(s.html_tag(), "no HtmlTag around {src:?}");
                chk!(s.name().as_ref().map(tr) == Some(r) && t.name().as_ref().map(tr) == Some(r), "tag name of {src:?} is {:?}", s.name().map(|t| t.to_string()));
                chk!(s.is_twig_component() == m.name.starts_with("twig:") && t.is_twig_component() == m.name.starts_with("twig:"), "is_twig_component of {src:?}");
                chk!(t.is_self_closing() == (m.a != "normal"), "is_self_closing of {src:?} ({}) is {}", m.a, t.is_self_closing());
                let parts = [t.starting_tag().map(|x| x.to_string()), t.body().map(|x| x.to_string()), t.ending_tag().map(|x| x.to_string())];
                chk!(parts.iter().flatten().cloned().collect::<String>() == t.to_string(), "the parts of {:?} are {parts:?}", t.to_string());
                if m.a == "normal" {
                    let e = get!(t.ending_tag(), "no ending tag of {src:?}");
                    chk!(e.name().is_some_and(|t| t.text() == m.name), "HtmlEndingTag::name of {src:?} is {:?}", e.name().map(|t| t.to_string()));
                    chk!(e.is_twig_component() == m.name.starts_with("twig:"), "HtmlEndingTag::is_twig_component of {src:?}");
                    chk!(t.body().is_some(), "no body of {src:?}");
                }
                let names: Vec<String> = s.attributes().filter_map(|a| a.name()).map(|t| t.to_string()).collect();
                starts.insert(s.syntax().clone(), names);
            }
            "attr" => {
                let a = get!(up(r, HTML_ATTRIBUTE).and_then(HtmlAttribute::cast), "no HtmlAttribute named {src:?}");
                chk!(a.name().as_ref().map(tr) == Some(r), "HtmlAttribute::name of {src:?} is {:?}", a.name().map(|t| t.to_string()));
                chk!(a.html_tag().is_some(), "HtmlAttribute::html_tag of {src:?} (nested {}) is {:?}", m.flag, a.html_tag().map(|t| t.to_string()));
                if let Some(t) = a.html_tag() { chk!(t.name().is_some_and(|t| t.text() == m.a), "HtmlAttribute::html_tag of {src:?} is {t}"); }
            }
            "attrvalue" => {
                let s = get!(find(HTML_STRING, r).and_then(HtmlString::cast), "no HtmlString at {src:?}");
                chk!(s.get_inner().is_some_and(|i| i.to_string().trim() == m.name.trim()), "HtmlString::get_inner of {src:?} is {:?}", s.get_inner().map(|i| i.to_string()));
                chk!(s.get_opening_quote().map(|t| t.to_string()).unwrap_or_default() == m.a, "HtmlString::get_opening_quote of {src:?}");
                chk!(s.get_closing_quote().map(|t| t.to_string()).unwrap_or_default() == m.a, "HtmlString::get_closing_quote of {src:?}");
                let a = get!(s.syntax().parent().and_then(HtmlAttribute::cast), "no HtmlAttribute around {src:?}");
                chk!(a.value().as_ref() == Some(&s), "HtmlAttribute::value of {src:?} is {:?}", a.value().map(|v| v.to_string()));
                chk!(a.name().map(|t| t.to_string()).unwrap_or_default() == m.b, "HtmlAttribute::name of the value {src:?} is {:?}", a.name().map(|t| t.to_string()));
            }
            "string" => {
                let s = get!(find(TWIG_LITERAL_STRING, r).and_then(TwigLiteralString::cast), "no TwigLiteralString at {src:?}");
                let i = get!(s.get_inner(), "no TwigLiteralStringInner in {src:?}");
                chk!(i.to_string() == m.name, "TwigLiteralString::get_inner of {src:?} is {:?}", i.to_string());
                chk!(s.get_opening_quote().is_some_and(|t| t.text() == m.a) && s.get_closing_quote().is_some_and(|t| t.text() == m.a), "quotes of {src:?}");
                chk!(i.get_interpolations().next().is_some() == m.flag, "get_interpolations of {src:?}");
                for p in i.get_interpolations() { let t = p.to_string(); chk!(t.trim().starts_with("#{") && t.trim().ends_with('}'), "get_interpolations of {src:?} gives {t:?}"); }
            }
            "binop" => {
                let b = get!(up(r, TWIG_BINARY_EXPRESSION).and_then(TwigBinaryExpression::cast), "no TwigBinaryExpression around {src:?}");
                chk!(b.operator().as_ref().map(tr) == Some(r), "operator of {:?} is {:?}", b.to_string(), b.operator().map(|t| t.to_string()));
                if !m.flag { chk!(b.lhs_expression().map(|e| trim(e.syntax())) == pair(&m.a), "lhs_expression of {:?} is {:?}", b.to_string(), b.lhs_expression().map(|e| e.to_string())); }
                chk!(b.rhs_expression().map(|e| trim(e.syntax())) == pair(&m.b), "rhs_expression of {:?} is {:?}", b.to_string(), b.rhs_expression().map(|e| e.to_string()));
            }
            "filter" => {
                let f = get!(up(r, TWIG_FILTER).and_then(TwigFilter::cast), "no TwigFilter around {src:?}");
                chk!(f.filter().is_some_and(|o| trim(o.syntax()).0 == r.0), "filter of {:?} is {:?}", f.to_string(), f.filter().map(|t| t.to_string()));
                if let Some(w) = pair(&m.a) { chk!(f.operand().is_some_and(|o| trim(o.syntax()).0 == w.0), "operand of {:?} is {:?}", f.to_string(), f.operand().map(|t| t.to_string())); }
            }
            "function" => {
                let f = get!(up(r, TWIG_FUNCTION_CALL).and_then(TwigFunctionCall::cast), "no TwigFunctionCall around {src:?}");
                chk!(f.name_operand().is_some_and(|o| trim(o.syntax()) == r), "name_operand of {:?} is {:?}", f.to_string(), f.name_operand().map(|t| t.to_string()));
                let e = trim(f.syntax()).1;
                chk!(f.arguments().is_some_and(|a| { let x = trim(a.syntax()); x.1 == e && x.0 >= r.1 && text[r.1..x.0].trim().is_empty() }), "arguments of {:?} are {:?}", f.to_string(), f.arguments().map(|a| a.to_string()));
            }
            "ignore" | "fileignore" => {
                let k = if m.kind == "ignore" { LUDTWIG_DIRECTIVE_IGNORE } else { LUDTWIG_DIRECTIVE_FILE_IGNORE };
                let n = get!(root.descendants().find(|n| n.kind() == k && { let x = trim(n); x.0 >= r.0 && x.1 <= r.1 }), "no {k:?} in {src:?}");
                let got = if k == LUDTWIG_DIRECTIVE_IGNORE { LudtwigDirectiveIgnore::cast(n).map(|x| x.get_rules()) } else { LudtwigDirectiveFileIgnore::cast(n).map(|x| x.get_rules()) };
                chk!(got.as_ref().is_some_and(|g| g.join(",") == m.name), "get_rules of {src:?} gives {got:?}");
            }
            "extends" => {
                let n = get!(root.descendants().filter_map(TwigExtends::cast).find(|n| { let x = trim(n.syntax()); x.0 <= r.0 && r.1 <= x.1 }), "no TwigExtends at {src:?}");
                chk!(n.get_extends_keyword().is_some_and(|t| t.text() == "extends"), "get_extends_keyword of {src:?}");
            }
            _ => {}
        }
    }
    // the attributes of each tag are exactly its own
    for (s, names) in &starts {
        let x = trim(s);
        let mut want: Vec<R> = d.marks.iter().filter(|m| m.kind == "attr" && !m.flag && m.start >= x.0 && m.end <= x.1).map(|m| (m.start, m.end)).collect();
        want.sort_unstable();
        let want: Vec<&str> = want.iter().map(|r| &text[r.0..r.1]).collect();
        chk!(*names == want, "the attributes of {:?} are named {names:?}", &text[x.0..x.1]);
    }
    let got = root.descendants().filter_map(TwigBlock::cast).count();
    chk!(got == blocks, "{got} TwigBlocks instead of {blocks}");
    None
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "distinct documents whose every node was read through every typed accessor".into();
    let seed = ctx.seed;
    let n = ctx.n(50_000, 300_000);
    let res = par_map(n.div_ceil(50), |c| {
        let mut seen = BTreeMap::new();
        let mut v = vec![];
        for i in c * 50..((c + 1) * 50).min(n) {
            let mut r = Rng::new(mix(seed ^ 12, i as u64));
            let mut cfg = corpus::random_cfg(&mut r);
            if i % 3 == 0 { cfg.directives = 20; }
            let d = docgen::document(r.next(), r.next(), &cfg);
            if i % 4 == 3 {
                let t = corpus::edit(&d.text, &mut r);
                let Some(p) = parse(&t) else { continue };
                let bad = guard(|| universal(&p.root, &t, p.errors.is_empty() && false, &mut seen));
                v.push(("broken", hash(&t), bad.map(|b| (b, t))));
                continue;
            }
            let Some(p) = parse(&d.text) else { continue };
            if !p.errors.is_empty() { v.push(("rejected", 0, None)); continue; }
            let bad = guard(|| universal(&p.root, &d.text, true, &mut seen).or_else(|| intended(&d, &p.root, &mut seen)));
            v.push(("wellformed", hash(&d.text), bad.map(|b| (b, d.text))));
        }
        (seen, v)
    });
    let mut seen: BTreeMap<&str, u64> = BTreeMap::new();
    for (s, v) in res {
        for (k, n) in s { *seen.entry(k).or_default() += n; }
        for (k, h, bad) in v {
            if k == "rejected" { ctx.count("rejected_documents", 1); continue; }
            ctx.evals += 1;
            ctx.distinct.insert(h);
            ctx.count(&format!("documents_{k}"), 1);
            if let Some((b, t)) = bad { ctx.violation(&b, json!({"document": t})); }
        }
    }
    let m = ctx.n(30_000, 100_000);
    let res = par_map(m.div_ceil(100), |c| {
        let mut v = vec![];
        for i in c * 100..((c + 1) * 100).min(m) {
            let t = corpus::hostile(mix(seed ^ 1212, i as u64)).1;
            let Some(p) = parse(&t) else { continue };
            let bad = guard(|| universal(&p.root, &t, false, &mut BTreeMap::new()));
            v.push((hash(&t), bad.map(|b| (b, t))));
        }
        v
    });
    for (h, bad) in res.into_iter().flatten() {
        ctx.evals += 1;
        ctx.distinct.insert(h);
        ctx.count("documents_hostile", 1);
        if let Some((b, t)) = bad { ctx.violation(&b, json!({"document": t})); }
    }
    // which kinds a type accepts, over all kinds that belong to a type
    macro_rules! kinds { ($t:ident, $k:ident) => { KINDS.with(|v| v.borrow_mut().push(SyntaxKind::$k)); }; }
    thread_local! { static KINDS: std::cell::RefCell<Vec<SyntaxKind>> = const { std::cell::RefCell::new(vec![]) }; }
    all_types!(kinds);
    let all = KINDS.with(|v| v.borrow().clone());
    for k in all.iter().copied().chain([SyntaxKind::TK_WORD, SyntaxKind::TK_WHITESPACE, SyntaxKind::ERROR]) {
        macro_rules! can { ($t:ident, $k:ident) => { if $t::can_cast(k) != (k == SyntaxKind::$k) { ctx.violation(&format!("{}::can_cast({k:?})", stringify!($t)), json!({})); } }; }
        all_types!(can);
    }
    ctx.extra.insert("observed_per_type_and_fact".into(), json!(seen));
    let missing: Vec<String> = { let mut m = vec![]; macro_rules! ms { ($t:ident, $k:ident) => { if !seen.contains_key(stringify!($t)) { m.push(stringify!($t).to_string()); } }; } all_types!(ms); m };
    ctx.extra.insert("types_never_observed".into(), json!(missing));
    ctx.sample(json!({"types_observed": seen.len()}));
}
fn guard<F: FnOnce() -> Option<String>>(f: F) -> Option<String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Some(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default())),
    }
}

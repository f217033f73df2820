#!/usr/bin/env python3
# Regenerates properties.jsonl from the list below (kept in Python for readable diffs).
import json, sys, os
G="crates/ludtwig-parser/src/"; L="crates/ludtwig/src/"
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":"none"}
    if state: a["state"]=state
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
ps=[
P("C01","The syntax tree is lossless",
 "For every UTF-8 text, the tree the parser returns spells exactly that text: concatenating its tokens in order gives back every byte (whitespace, line breaks of either kind, comments, unknown and non-ASCII characters included), once and in order. Token and node ranges tile the text without gaps or overlaps, and no token is empty.",
 ["inputs"],"every UTF-8 input text, valid or malformed",
 "Tests compare a few hundred pretty-printed trees; losslessness must hold for every text, in particular for malformed and truncated ones where recovery re-attaches trivia, pending errors and re-lexed compound tokens.",
 [G+"parser/sink.rs",G+"parser/source.rs",G+"lexer.rs",G+"parser/event.rs"],
 [("event sink rebuilding the tree",G+"parser/sink.rs"),("trivia-skipping source",G+"parser/source.rs"),("lexer",G+"lexer.rs")],
 ["ludtwig_parser::parse -> SyntaxNode text, tokens and ranges"]),
P("C02","Parsing is total: no panic, abort or hang",
 "For every UTF-8 text (with bracket, tag and operator nesting of at most 25 levels), parsing returns a tree and a list of errors. It never panics, aborts, overflows arithmetic or the stack of a thread with the default 2 MiB, or runs forever, no matter how malformed or truncated the text is.",
 ["inputs"],"every UTF-8 text with nesting depth at most 25, including every prefix and local corruption of template code",
 "The tests feed a few hundred mostly well-formed snippets; the parser is full of expectations (marker bookkeeping, loop-progress assumptions) that only unusual truncations reach.",
 [G+"parser.rs",G+"grammar.rs",G+"grammar/html.rs",G+"grammar/twig.rs",G+"grammar/twig/expression.rs",G+"grammar/twig/literal.rs",G+"grammar/twig/tags.rs",G+"grammar/twig/shopware.rs",G+"lexer.rs"],
 [("error recovery",G+"parser.rs recover()"),("marker completion bombs",G+"parser/event.rs"),("parse_many loop",G+"grammar.rs")],
 ["ludtwig_parser::parse returning, in a monitored process"]),
P("C03","Parsing work grows in proportion to input size",
 "Repeating or lengthening any construct side by side (siblings, text, attributes, array, hash and argument lists, tags, comments, broken constructs) makes parsing at most proportionally slower, never quadratically or exponentially. For constructs nested or chained up to 12 levels the work per added level does not multiply.",
 ["inputs"],"every family of inputs obtained by repeating a construct n times (or nesting it n <= 12 times)",
 "Tests only use short snippets and never measure work; re-parsing, lookahead over long runs of trivia or repeated recovery only shows on scaled inputs.",
 [G+"parser.rs",G+"parser/source.rs",G+"parser/event.rs",G+"parser/sink.rs",G+"lexer.rs",G+"grammar/twig/expression.rs",G+"grammar/html.rs"],
 [("lookahead",G+"parser/source.rs peek_nth_token/at_following"),("pratt expression loop",G+"grammar/twig/expression.rs"),("sink forward parents",G+"parser/sink.rs")],
 ["instruction counts of a process that parses inputs of size n and 2n"]),
P("C04","Parsing is deterministic and independent of threads and history",
 "Parsing the same text always gives the same tree and the same errors, whatever was parsed before in the process and however many threads parse other texts at the same time.",
 ["inputs","schedules","histories"],"every text, parse history and number of concurrent parsers",
 "Each test parses one text once on one thread; global state, caches and iteration order only show across repetitions, histories and threads.",
 [G+"lib.rs",G+"parser.rs",G+"parser/sink.rs",G+"grammar.rs"],
 [("parse entry point",G+"lib.rs"),("node builder/cache",G+"parser/sink.rs")],
 ["ludtwig_parser::parse results compared across threads, orders and processes"]),
P("C05","Syntax errors are well-formed and never silent",
 "Every reported syntax error points inside the text at a token (for errors at the end of the text: at the last token), never between bytes of one character and never at mere whitespace, and names what was expected and what was found there. Errors are reported in the order of the text, and whenever the tree contains an error region or an unrecognised piece of Twig syntax, at least one error is reported.",
 ["inputs"],"every malformed, truncated or corrupted UTF-8 text",
 "Tests pin the ranges of a handful of errors; multi-byte text, errors at end of file and errors behind trailing whitespace are hardly sampled.",
 [G+"parser/parse_error.rs",G+"parser.rs",G+"parser/source.rs",G+"parser/event.rs"],
 [("error construction",G+"parser.rs error()/add_error"),("range of current or last token",G+"parser/source.rs get_error range helpers")],
 ["Parse.errors and ERROR nodes in the tree"]),
P("C06","Twig expressions parse with Twig's structure and precedence",
 "Every well-formed Twig expression (operators separated by blanks from names) parses without errors into the structure its text denotes: operators nest by Twig's precedence and associativity, parentheses override them, accessors, subscripts, slices, calls, filters and tests bind tighter than operators and apply left to right, and arrays, hashes, strings with interpolations and escapes, named arguments, arrow functions and conditionals keep each element in its place. Names that merely start with a keyword are names.",
 ["inputs"],"every well-formed expression built from the supported operators, literals, postfix forms and nesting",
 "Tests fix the trees of hand-picked pairs of operators; relative precedence, associativity and postfix binding must hold for every combination and nesting.",
 [G+"grammar/twig/expression.rs",G+"grammar/twig/literal.rs",G+"lexer.rs"],
 [("pratt parser binding powers",G+"grammar/twig/expression.rs"),("postfix and literal parsing",G+"grammar/twig/literal.rs"),("keyword lexing",G+"lexer.rs")],
 ["syntax tree shape of generated expressions, compared with the generator's ground truth"]),
P("C07","Well-formed Twig tags parse into their structure",
 "Every well-formed Twig or Shopware tag of the kinds the parser knows, with or without whitespace control, parses without errors into the node that represents it: start tag, body, alternative branches and end tag, with its names, expressions, imports, arguments and flags each in their own place, at any nesting with other tags, output expressions, comments and HTML. Content between start and end tag belongs to that tag's body and to nothing else.",
 ["inputs"],"every well-formed composition of the supported tags (block, if, for, set, extends, include, embed, use, from, import, apply, autoescape, deprecated, do, flush, sandbox, verbatim, macro, with, cache, trans, props, component, and the Shopware tags)",
 "Tests parse each tag in isolation; nesting, sibling order, optional parts, whitespace control and contexts (document, attribute, attribute value, raw text element) combine without bound.",
 [G+"grammar/twig.rs",G+"grammar/twig/tags.rs",G+"grammar/twig/shopware.rs"],
 [("tag dispatch",G+"grammar/twig.rs"),("tag grammars",G+"grammar/twig/tags.rs"),("Shopware tags",G+"grammar/twig/shopware.rs")],
 ["syntax tree shape of generated documents, compared with the generator's ground truth"]),
P("C08","Well-formed HTML with embedded Twig parses into its structure",
 "Every well-formed HTML fragment (with tag names in one letter case and &lt; and &gt; in attribute values) parses without errors into the element structure it denotes: elements contain exactly what stands between their start and end tag, void and self-closing elements contain nothing, attributes (valueless, quoted, unquoted, with Twig in the value or around them) belong to their element in order, and comments, doctype and text are preserved as such. Inside raw text elements (script, style, textarea, title) only Twig is interpreted, HTML markup is not.",
 ["inputs"],"every well-formed HTML fragment over arbitrary element and attribute names, nesting and interleaving with Twig",
 "Tests parse a few dozen fragments; the interplay of element kinds, attribute forms, raw text, Twig in attribute lists and case of names is combinatorial.",
 [G+"grammar/html.rs",G+"grammar.rs",G+"lexer.rs"],
 [("element and attribute grammar",G+"grammar/html.rs"),("raw text elements",G+"grammar/html.rs")],
 ["syntax tree shape of generated documents, compared with the generator's ground truth"]),
P("C09","Broken structure is always reported",
 "A document whose structure is broken is never accepted silently: removing an element's end tag, a Twig end tag, a closing delimiter, bracket or quote, cutting an element apart with Twig tags, or leaving out a required part of a tag or operand of an operator always yields at least one syntax error, unless what remains is another well-formed template.",
 ["inputs"],"every well-formed document and every single structural deletion in it",
 "Tests check a few broken snippets; silent acceptance depends on what follows the deleted piece.",
 [G+"grammar.rs",G+"grammar/html.rs",G+"grammar/twig.rs",G+"grammar/twig/expression.rs",G+"grammar/twig/literal.rs",G+"grammar/twig/tags.rs",G+"grammar/twig/shopware.rs",G+"parser.rs"],
 [("expect / recovery",G+"parser.rs"),("end tag matching",G+"grammar/html.rs"),("required parts",G+"grammar/twig/tags.rs")],
 ["number of errors for a generated document minus one structural piece"]),
P("C10","Insignificant whitespace never changes the structure",
 "Spaces, tabs and line breaks (LF or CRLF) between the tokens of Twig code, between HTML elements, between attributes and around an attribute's equal sign never change how a document is parsed. The same document written with different whitespace gives the same structure and the same absence of errors.",
 ["inputs"],"every well-formed document and every re-spacing of it",
 "Tests use one layout per construct; multi-word operators and keywords, CRLF files and tokens glued to brackets are lexed by different paths.",
 [G+"lexer.rs",G+"parser/source.rs",G+"parser/sink.rs",G+"grammar/html.rs",G+"grammar/twig/expression.rs"],
 [("keyword boundary lexing",G+"lexer.rs"),("trivia skipping",G+"parser/source.rs")],
 ["trees of re-spaced variants compared after dropping whitespace"]),
P("C11","A syntax error stays local",
 "A syntax error does not spoil the rest of the document: everything complete that precedes the broken construct parses exactly as it would on its own, and constructs after a broken but closed construct (a Twig output or tag with garbage other than HTML tags inside its delimiters, an unknown Twig tag) are parsed as they would be without it.",
 ["inputs"],"every well-formed context and every contained error in it",
 "Recovery sets are sampled by a few unit tests; a lost synchronisation point only shows with the right follow-up construct.",
 [G+"parser.rs",G+"grammar.rs",G+"grammar/twig.rs",G+"grammar/twig/tags.rs"],
 [("recovery token sets",G+"grammar.rs"),("recover()",G+"parser.rs")],
 ["top-level children of the tree before and after the injected error"]),
P("C12","Typed accessors return what the source says",
 "The typed view over the tree agrees with the source: names of blocks, elements and attributes, attribute values, start and end tags, bodies and parents, operators and operands of binary expressions, names, arguments and operands of filters and functions, string contents, quotes and interpolations, and ignore-directive rule lists that the accessors return are those written at that place in the template, present exactly when written. Whitespace-control markers and chained operators do not change what is returned.",
 ["inputs"],"every node of every well-formed document for which an accessor exists",
 "The accessors' tests read one hand-written snippet each; they pick children by kind and position, which goes wrong for nested and chained nodes.",
 [G+"syntax/typed.rs"],
 [("typed AST accessors",G+"syntax/typed.rs")],
 ["public accessor functions over generated documents, compared with the generator's ground truth"]),
P("C13","The parser is memory safe",
 "Parsing, traversing, sharing across threads and dropping trees never causes undefined behaviour or a memory error (invalid access, use after free, data race, leak of the tree).",
 ["inputs","schedules"],"every text parsed, traversed and dropped, on one or several threads",
 "The tests run without any sanitizer; the tree library underneath manages nodes with raw pointers and reference counts.",
 [G+"parser/sink.rs",G+"syntax/untyped.rs",G+"lexer.rs"],
 [("conversion of raw syntax kinds",G+"syntax/untyped.rs"),("green tree building",G+"parser/sink.rs")],
 ["Miri and AddressSanitizer reports for parser workloads"]),
P("C20","Exit status and summary tell the truth",
 "Without fixing, a run prints every finding with its severity, file and position, its summary states exactly how many files were scanned and how many errors, warnings, helps and infos were reported, and it exits with status 0 if no errors, warnings or helps were reported and status 1 otherwise. Files that cannot be read and paths that do not exist count as errors.",
 ["inputs","configurations"],"every set of files, findings and severities, including no files, missing paths and unreadable files",
 "The tests call rules on strings and never run the program; aggregation across threads, severities, files and failure kinds is untested.",
 [L+"main.rs",L+"output.rs",L+"process.rs",L+"error.rs"],
 [("result aggregation",L+"output.rs"),("exit code decision",L+"main.rs")],
 ["stdout/stderr and exit status of the ludtwig program"]),
P("C21","Exactly the selected template files are scanned, each once",
 "Given files and directories, a run scans every template file (.twig, .html, .htm or .ejs, in any nested directory) they contain exactly once, plus explicitly named files whatever their name, and no others; .gitignore, .ignore and .ludtwig-ignore files and hidden-file conventions are honoured. Characters in file names, order of the paths and number of files do not matter.",
 ["inputs","configurations"],"every directory layout, ignore file and set of path arguments",
 "No test runs the directory walk.",
 [L+"process.rs",L+"main.rs"],
 [("directory walk and extension filter",L+"process.rs"),("parallel iteration",L+"main.rs")],
 ["files named in diagnostics and the scanned-files count of the program"]),
P("C22","Files are only written when asked, and only where needed",
 "Without the fix option a run never creates, modifies, truncates or removes any file. With it, a run writes only scanned template files whose text actually changes, never opens any other file for writing, and writes exactly the fixed text.",
 ["inputs","configurations"],"every tree of files and every option combination",
 "No test runs the program against a file system.",
 [L+"process.rs",L+"check.rs",L+"main.rs"],
 [("write back",L+"process.rs"),("fix loop",L+"check.rs")],
 ["file system state and write-opens of the program, recorded at the system-call boundary"]),
P("C23","A failing file never affects the others",
 "If a file cannot be read, is not UTF-8, cannot be parsed without errors or cannot be written back, the run reports it as an error, ends with status 1 and without a crash, and reports and fixes every other file exactly as it would have without it.",
 ["inputs","fault_sequences"],"every read or write failure of any file at any position in a batch",
 "No test injects I/O errors.",
 [L+"process.rs",L+"main.rs",L+"error.rs"],
 [("file error handling",L+"process.rs"),("error mapping",L+"error.rs")],
 ["program output, status and final file contents under injected faults"]),
P("C24","Fixing converges",
 "Fixing a file succeeds and reaches a fixed point: the findings it reports afterwards are exactly those a fresh run reports for the written text, none of them still offers an automatic fix, and fixing again changes nothing.",
 ["inputs","configurations"],"every file without syntax errors, set of active rules and formatting configuration",
 "Tests apply one rule's suggestions to one snippet; interactions of suggestions (overlaps, repeated application, rules feeding each other) and the iteration limit are never explored.",
 [L+"check.rs",L+"check/rules.rs",L+"check/rule.rs"],
 [("iterative suggestion application",L+"check.rs iteratively_apply_suggestions")],
 ["file contents and diagnostics of consecutive --fix and plain runs"]),
P("C25","Fixing preserves the template",
 "Fixing changes nothing but what the active rules target: the fixed file has no new syntax errors, and apart from layout whitespace and the exact edits the rules document (quote style, hash key quotes, spelling of operators, block and attribute names, preferred extends tag, escape('js') for raw) its content and structure are the same as before, token for token.",
 ["inputs","configurations"],"every file without syntax errors, set of active rules and formatting configuration",
 "Tests check the fixed text of a snippet per rule; whether an edit keeps the rest of an arbitrary template intact is not sampled.",
 [L+"check.rs",L+"check/rules/indentation.rs",L+"check/rules/twig_block_line_breaks.rs",L+"check/rules/twig_string_quotation.rs",L+"check/rules/html_string_quotation.rs",L+"check/rules/twig_hash_key_no_quotes.rs"],
 [("suggestion application",L+"check.rs"),("suggestion ranges of the rules",L+"check/rules/*.rs")],
 ["tree of the file before and after --fix"]),
P("C26","Fixing never alters whitespace-sensitive content",
 "Fixing with the whitespace and layout rules never adds, removes or changes blanks or line breaks inside whitespace-sensitive content: pre, textarea, script and style elements (in any letter case, including everything nested in them) and Twig string literals keep exactly their characters, except for the configured line ending.",
 ["inputs","configurations"],"every template with such content and every layout configuration",
 "Tests only have one or two pre/textarea snippets; which nesting leaves the protected context is unbounded.",
 [L+"check/rules.rs",L+"check/rules/indentation.rs",L+"check/rules/whitespace_between_line_breaks.rs",L+"check/rules/twig_block_line_breaks.rs"],
 [("trivia-sensitive context tracking",L+"check/rules.rs"),("sensitive tags list",L+"check/rules/indentation.rs")],
 ["text of protected regions before and after --fix"]),
P("C27","Naming rules flag exactly the misnamed things",
 "The naming rules report exactly the violations present: Twig block names that are not snake_case, HTML attribute names that are not kebab-case (on plain HTML elements), and variables defined by set or for that are not camelCase (SCREAMING_SNAKE_CASE where set to a constant), each once and at its position, for every place in a template, and nothing else. Suggested names conform to the convention.",
 ["inputs","configurations"],"every template and naming configuration",
 "Tests check a few names in one spot each; every context and name shape must behave alike.",
 [L+"check/rules/twig_block_name_snake_case.rs",L+"check/rules/html_attribute_name_kebab_case.rs",L+"check/rules/twig_variable_definition_naming.rs",L+"check/naming_convention.rs"],
 [("naming rules",L+"check/rules/"),("case predicates",L+"check/naming_convention.rs")],
 ["diagnostics of the program compared with the generator's list"]),
P("C28","Layout rules flag and fix exactly the misplaced whitespace",
 "The layout rules report every line that is not indented by its nesting depth in the configured style, every blank-only line, every line ending of the wrong kind and every block without the configured line breaks around it, outside of whitespace-sensitive content and error regions, and nothing else. Fixing gives exactly the configured layout.",
 ["inputs","configurations"],"every template and layout configuration (tabs or spaces, width, block indentation, line ending, blank lines around blocks)",
 "Tests check a few snippets; layout depends on arbitrary nesting, blank lines, comments and both line endings.",
 [L+"check/rules/indentation.rs",L+"check/rules/line_ending.rs",L+"check/rules/whitespace_between_line_breaks.rs",L+"check/rules/twig_block_line_breaks.rs"],
 [("layout rules",L+"check/rules/")],
 ["diagnostics and fixed text of the program compared with a layout oracle"]),
P("C29","Quotation rules enforce the configured quotes exactly",
 "Every Twig string and HTML attribute value that deviates from the configured quotation style and every needlessly quoted hash key is reported once, at its place, and rewritten on fixing exactly when the rewrite keeps the string's content; nothing else is reported or rewritten.",
 ["inputs","configurations"],"every template and quotation configuration",
 "Tests check a few strings; nested strings, interpolations, quotes inside strings and strings in attribute values combine freely.",
 [L+"check/rules/twig_string_quotation.rs",L+"check/rules/html_string_quotation.rs",L+"check/rules/twig_hash_key_no_quotes.rs"],
 [("quotation rules",L+"check/rules/")],
 ["diagnostics and fixed text of the program compared with the generator's list"]),
P("C30","Operator spelling rules find every occurrence",
 "Every use of ===, !==, && and || in Twig code is reported once, at its position, by the rule for it wherever it occurs in the template, and no other operator is reported. Fixing replaces === and !== by the equivalent test (is same as, is not same as) over the same operands and && and || by and and or.",
 ["inputs","configurations"],"every template with any nesting of operators",
 "Tests check one operator per snippet; chained and nested operators are read through accessors that tests do not exercise.",
 [L+"check/rules/twig_use_is_same_as.rs",L+"check/rules/twig_use_is_not_same_as.rs",L+"check/rules/twig_logic_and.rs",L+"check/rules/twig_logic_or.rs"],
 [("operator rules",L+"check/rules/")],
 ["diagnostics and fixed text of the program compared with the generator's list"]),
P("C31","Duplicate names are found wherever they are",
 "Every repeated Twig block name and every repeated static HTML id within one file is reported once per repetition, pointing at the repetition and the earlier occurrence, regardless of nesting and distance; names or ids that occur once, dynamic ids and occurrences in other files are never reported.",
 ["inputs","configurations"],"every template or set of templates",
 "Tests contain two adjacent duplicates; distance, nesting, number of files and order are not sampled.",
 [L+"check/rules/twig_block_duplicate.rs",L+"check/rules/html_duplicate_id.rs"],
 [("duplicate rules",L+"check/rules/")],
 ["diagnostics of the program compared with the generator's list"]),
P("C32","Unknown filters, functions and tests are found",
 "Every use of a Twig filter, function or test whose name is not in the configured list (by default the names Twig itself defines) is reported once at its position, wherever it is used; listed names, macros called on objects, variables and method names are never reported.",
 ["inputs","configurations"],"every template and configured list of additional names",
 "Tests check a few names in output expressions; filter chains, apply tags, nested arguments, chained operators and interpolations are not sampled.",
 [L+"check/rules/twig_valid_filter.rs",L+"check/rules/twig_valid_function.rs",L+"check/rules/twig_valid_test.rs"],
 [("validity rules",L+"check/rules/")],
 ["diagnostics of the program compared with the generator's list"]),
P("C33","Shopware safety rules flag exactly their pattern",
 "Every filter chain that makes json_encode output raw, every extends tag (where sw_extends is preferred) and every file-level ignore directive that is not a top-level part of the file is reported once at its position, and nothing else is; fixing the extends tag keeps its target, fixing the filter chain replaces raw by escape('js').",
 ["inputs","configurations"],"every template",
 "Tests check one occurrence each at one place.",
 [L+"check/rules/twig_json_encode_escape_js.rs",L+"check/rules/twig_prefer_shopware_extends.rs",L+"check/rules/ludtwig_ignore_file_not_on_top.rs"],
 [("rules",L+"check/rules/")],
 ["diagnostics of the program compared with the generator's list"]),
P("C34","Rules are independent of each other",
 "A rule's findings on a file do not depend on which other rules are active or in which order they are listed: running any set of rules reports exactly the union of what each reports alone, and a rule that is not listed reports nothing.",
 ["inputs","configurations"],"every file and every subset and order of the rules",
 "Tests run one rule at a time.",
 [L+"check/rules.rs",L+"check.rs",L+"check/rule.rs"],
 [("rule selection and shared tree walk",L+"check/rules.rs")],
 ["diagnostics of the program for rule subsets"]),
P("C35","Ignore directives suppress exactly what they name",
 "A file-level ignore directive at the top level suppresses the named rules (all if none is named) in that file, and a node-level directive suppresses them for the next element or Twig construct including everything nested in it, also where directives are nested; every other finding of every other rule, node and file is still reported, and neither reports nor fixes of the suppressed findings happen. Syntax errors are never suppressed.",
 ["inputs","configurations"],"every placement, nesting and rule list of ignore directives",
 "Tests check one directive per snippet; nested and consecutive directives and every rule's own tree walk must agree.",
 [L+"check/rules.rs",L+"check/rule.rs",L+"check.rs"],
 [("ignore tracking in shared walk",L+"check/rules.rs"),("ignore tracking in whole-file rules",L+"check/rule.rs")],
 ["diagnostics and fixed text with and without the directive"]),
P("C36","Parallelism never changes the result",
 "The findings reported for a file, the summary, the exit status and the fixed text do not depend on the number of worker threads, scheduling, the other files in the run or the order of the paths, and the findings of one file are printed together and never interleaved with those of another.",
 ["schedules","histories","inputs"],"every set of files, thread count and schedule",
 "No test runs the program on more than one file.",
 [L+"main.rs",L+"process.rs",L+"output.rs"],
 [("parallel file processing",L+"main.rs"),("result channel and output",L+"output.rs")],
 ["program output, status and files for different thread counts, orders and file sets"]),
P("C37","Configuration is obeyed",
 "Every configured value takes effect: a configuration file given explicitly or found in the working directory selects the active rules and formats, omitted values take their defaults, the generated default configuration behaves like no configuration, and generating it never overwrites an existing file. An invalid configuration is reported and the run stops with status 1 without touching any template.",
 ["configurations"],"every configuration file, its location and combination of settings",
 "Tests parse the default configuration once; they do not run the program with configuration files.",
 [L+"config.rs",L+"main.rs"],
 [("layered configuration",L+"config.rs"),("start-up",L+"main.rs")],
 ["program behaviour under generated configuration files"]),
P("C38","Inspecting shows the parse tree of the file",
 "The inspect option prints for every scanned file exactly its syntax tree, in addition to the syntax errors and findings that are reported without it, counts it as information that does not affect the exit status, and modifies no file.",
 ["inputs"],"every file, with or without syntax errors",
 "No test runs the program.",
 [L+"main.rs",L+"process.rs",L+"output.rs"],
 [("inspection output",L+"main.rs")],
 ["program output compared with the tree the library returns"]),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in ps:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(ps))

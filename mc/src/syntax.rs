//! C01-C03: the parser.
use crate::engine::*;
use crate::gen::*;
use crate::refwat;
use wat_parser::Parser;

/// losslessness + diagnostics inside the text; returns number of syntax errors
pub fn parse_ok(src: &str) -> Result<(wat_syntax::SyntaxNode, usize), String> {
    let mut p = Parser::new(src);
    let root = p.parse();
    let text = root.to_string();
    if text != src {
        return Err(format!("syntax tree text differs from the source: {text:?}"));
    }
    if usize::from(root.text_range().end()) != src.len() {
        return Err("tree length".into());
    }
    for e in p.errors() {
        if !(e.start <= src.len() && e.end <= src.len()) {
            return Err(format!("syntax error outside of the text: {e:?}"));
        }
        if e.start > e.end {
            return Err(format!("inverted syntax error range: {e:?}"));
        }
        if !src.is_char_boundary(e.start) || !src.is_char_boundary(e.end) {
            return Err(format!("syntax error range splits a character: {e:?}"));
        }
        if e.message.to_string().is_empty() {
            return Err("syntax error without a message".into());
        }
    }
    Ok((root, p.errors().len()))
}

pub const TOKENS: &[&str] = &[
    "(", ")", "$a", "0", "-1", "1.5", "\"s\"", "module", "func", "param", "result", "local", "i32", "type", "import", "export", "block", "loop", "if", "then",
    "else", "end", "nop", "i32.const", "memory", "table", "funcref", "elem", "data", "offset=1", "mut", "start", "item", "declare", "global", "shared", "call",
];
const CHARS: &[&str] = &["(", ")", ";", "\"", "\\", "$", "a", "0", "_", "-", " ", "\n", "é", "\u{c}", "{", "u"];

fn c01_cases(tier: Tier, emit: Emit) {
    crate::ladder::shapes(tier, &mut |sp, t| emit(Case::doc(sp, t)));
    let contexts: &[(&str, &str, &str)] = &[
        ("raw", "", ""),
        ("module", "(module ", ")"),
        ("func", "(module (func ", "))"),
        ("instr", "(module (func (i32.const ", ")) (func))"),
        ("import", "(module (import ", "))"),
        ("data", "(module (data ", ") (func))"),
    ];
    for (name, pre, post) in contexts {
        let n = if *name == "raw" { tier.pick(5, 6) } else { tier.pick(4, 5) };
        sequences_upto(CHARS, n, &mut |s| emit(Case::doc(&format!("chars/{name}"), format!("{pre}{}{post}", s.concat()))));
    }
    let tctx: &[(&str, &str, &str)] = &[
        ("raw", "", ""),
        ("module", "(module ", ")"),
        ("module-open", "(module ", ""),
        ("field", "(module (", "))"),
        ("func", "(module (func ", "))"),
        ("func-open", "(module (func ", ""),
        ("import", "(module (import \"a\" \"b\" (", ")))"),
        ("elem", "(module (elem ", ") (func))"),
        ("table", "(module (table ", "))"),
        ("data", "(module (data ", "))"),
        ("global", "(module (global ", "))"),
        ("type", "(module (type (func ", ")))"),
        ("if", "(module (func (if ", ")))"),
    ];
    for (name, pre, post) in tctx {
        sequences_upto(TOKENS, 3, &mut |s| emit(Case::doc(&format!("tokens/{name}"), format!("{pre}{}{post}", s.join(" ")))));
    }
    let small: &[&str] = &["(", ")", "$a", "0", "func", "block", "if", "then", "end", "nop", "\"s\""];
    for (name, pre, post) in [("raw", "", ""), ("func", "(module (func ", "))")] {
        sequences(small, 3, &mut |s| emit(Case::doc(&format!("tokens3/{name}"), format!("{pre}{}{post}", s.join(" ")))));
        sequences(small, 4, &mut |s| emit(Case::doc(&format!("tokens4/{name}"), format!("{pre}{}{post}", s.join(" ")))));
        sequences(small, 5, &mut |s| emit(Case::doc(&format!("tokens5/{name}"), format!("{pre}{}{post}", s.join(" ")))));
        if tier.thorough() {
            sequences(small, 6, &mut |s| emit(Case::doc(&format!("tokens6/{name}"), format!("{pre}{}{post}", s.join(" ")))));
        }
    }
    // deep nesting of every pair of openers, closed or not: parsing time must stay practical
    let openers: &[&str] = &["block ", "loop $l ", "if ", "(block ", "(loop ", "(if ", "(if (then ", "if else ", "(; ", "(i32.add ", "(call 0 ", "(x (type ", "((", "\"", "(if (i32.const 0) ", "then ", "(then) (else "];
    for a in openers {
        for b in openers {
            for suffix in ["", ")", "end ", ";)", ") end"] {
                for (pre, post) in [("(module (func ", ""), ("(module (func ", "))"), ("", "")] {
                    let mut s = String::from(pre);
                    for _ in 0..tier.pick(12, 30) {
                        s.push_str(a);
                        s.push_str(b);
                    }
                    for _ in 0..tier.pick(24, 60) {
                        s.push_str(suffix);
                    }
                    s.push_str(post);
                    emit(Case::doc("nesting", s));
                }
            }
        }
    }
    // every prefix and every one-character deletion/substitution of documents covering the grammar
    for f in FIELDS {
        let doc = format!("(module $m ;; é\n  {f} (; x ;)\n)\n");
        let idx: Vec<usize> = doc.char_indices().map(|x| x.0).collect();
        for &i in &idx {
            emit(Case::doc("prefix", &doc[..i]));
            emit(Case::doc("suffix", &doc[i..]));
            let c = doc[i..].chars().next().unwrap();
            emit(Case::doc("delete", format!("{}{}", &doc[..i], &doc[i + c.len_utf8()..])));
            for r in ["(", ")", "\"", ";", "(;", ";)", "é", " ", "$", "0", "\r\n", ",", "\u{b}", "[", "'"] {
                emit(Case::doc("insert", format!("{}{}{}", &doc[..i], r, &doc[i..])));
            }
        }
    }
}
fn c01_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    r.step();
    let (root, n) = parse_ok(&c.texts[0])?;
    r.outcome(&(n, root.green().kind().0, format!("{:?}", root.children().map(|c| c.kind()).collect::<Vec<_>>())));
    Ok(())
}
pub static C01: Property = Property { id: "C01", cases: c01_cases, check: c01_check, bounds: |t| format!(
    "all strings of <= {} characters over a {}-character alphabet (raw) and <= {} in 5 contexts; all token sequences of <= {} over {} tokens in 13 contexts and of 3-{} over 11 tokens; every prefix, suffix, one-character deletion and insertion (15 inserts) of {} documents", t.pick(5,6), CHARS.len(), t.pick(4,5), 3, TOKENS.len(), t.pick(5,6), FIELDS.len()) };

pub fn reference(c: &Case) -> Result<refwat::Doc, String> {
    refwat::parse(&c.texts[0]).map_err(|e| format!("{HARNESS}reference model rejects generated document: {e}\n{}", c.texts[0]))
}

/// Extent of a node from its first to its last significant token.
fn trimmed(n: &wat_syntax::SyntaxNode) -> Option<refwat::Span> {
    let mut it = n
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .filter(|t| !wat_syntax::is_trivia(t));
    let first = it.next()?;
    let last = it.last().unwrap_or_else(|| first.clone());
    Some(refwat::Span::new(first.text_range().start().into(), last.text_range().end().into()))
}

pub fn structure(src: &str, root: &wat_syntax::SyntaxNode, d: &refwat::Doc) -> Result<(), String> {
    let mut got: Vec<(String, refwat::Span)> = root
        .descendants()
        .filter(|n| format!("{:?}", n.kind()) != "ROOT")
        .filter_map(|n| Some((format!("{:?}", n.kind()), trimmed(&n)?)))
        .collect();
    let mut want: Vec<(String, refwat::Span)> = d.nodes.iter().map(|(k, s)| (k.to_string(), *s)).collect();
    got.sort();
    want.sort();
    if got != want {
        for g in &got {
            if !want.contains(g) {
                return Err(format!("syntax tree has {} over {:?}, which the document does not", g.0, g.1.text(src)));
            }
        }
        for w in &want {
            if !got.contains(w) {
                return Err(format!("syntax tree lacks {} over {:?}", w.0, w.1.text(src)));
            }
        }
        return Err(format!("syntax tree nodes differ: {got:?} / {want:?}"));
    }
    let leaves: Vec<(String, refwat::Span)> = root
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .map(|t| (format!("{:?}", t.kind()), refwat::Span::new(t.text_range().start().into(), t.text_range().end().into())))
        .collect();
    let exp = d.expected_leaves().map_err(|e| format!("{HARNESS}{e}"))?;
    for (i, e) in exp.iter().enumerate() {
        match leaves.get(i) {
            Some(l) if l.0 == e.0 && l.1 == e.1 => {}
            l => return Err(format!("token {:?} should be {} but is {:?}", e.1.text(src), e.0, l)),
        }
    }
    if leaves.len() != exp.len() {
        return Err("extra tokens".into());
    }
    Ok(())
}

const TRIVIA: &[&str] = &["\n", " ;;c\n", "(;c;)", " (;(;;)x\n;) ", "\r\n\t", "\n\n  ;; a\n ;;; b\n"];

pub fn syntax_docs(tier: Tier, emit: Emit) {
    crate::ladder::shapes(tier, &mut |sp, t| emit(Case::doc(sp, t)));
    // fields, in minimal and in spaced out layout, with trivia in every gap
    for f in FIELDS {
        let doc = format!("(module {f})");
        emit(Case::doc("field", doc.clone()));
        let toks = sig_tokens(&doc);
        emit(Case::doc("layout", toks.join(" ")));
        emit(Case::doc("layout", toks.join("\n")));
        for g in 0..=toks.len() {
            for t in TRIVIA {
                emit(Case::doc("gap", join_with(&toks, min_sep, &[(g, t)])));
            }
        }
        for t in TRIVIA {
            emit(Case::doc("all-gaps", toks.join(t)));
        }
    }
    for a in FIELDS {
        for b in FIELDS {
            emit(Case::doc("pair", format!("(module $m\n  {a}\n  {b})")));
            emit(Case::doc("modules", format!("(module {a})\n(module $n {b})")));
            if tier.thorough() {
                for c in FIELDS {
                    emit(Case::doc("triple", format!("(module {a} {b} {c})")));
                }
            }
        }
    }
    for s in ["", " ", "\n", ";; c", ";; c\n", "(;;)", "(module)", "(module $m)", "( module $m )", "(module)(module)"] {
        emit(Case::doc("trivial", s));
    }
    // numbers: every token over a small alphabet in every position that takes a number
    for alpha in [&["0", "1", "x", "_", "."] as &[&str], &["1", "f", "e", "p", "+", "-", "."], &["0x", "1", "a", "_", ".", "p", "-", "nan", ":", "inf"]] {
        sequences_upto(alpha, tier.pick(5, 6), &mut |s| {
            let w = s.concat();
            if w.is_empty() || w.len() > 9 {
                return;
            }
            emit(Case::doc("num/operand", format!("(module (func (x {w})))")));
            emit(Case::doc("num/operand-signed", format!("(module (func (x -{w})))")));
            emit(Case::doc("num/flat", format!("(module (func x {w} nop))")));
            emit(Case::doc("num/limits", format!("(module (memory {w} ))")));
            emit(Case::doc("num/index", format!("(module (start {w} ))")));
            emit(Case::doc("num/memarg", format!("(module (func (x offset={w} )))")));
        });
    }
    for (alpha, n) in [(&["nan:0x", "nan:", "nan", "1", "a", "_", "F"] as &[&str], 4), (&["1", "_", ".", "e", "-"], 6), (&["1", "_", ".", "E+", "0"], 6), (&["0x", "1", "_", ".", "P", "+"], 6), (&["0x", "A", "_", ".", "p", "0"], 6), (&["inf", "nan:0x1", "+", "-", "0", "_"], 4)] {
        sequences_upto(alpha, tier.pick(n, n + 1), &mut |s| {
            let w = s.concat();
            if !w.is_empty() {
                emit(Case::doc("num/float", format!("(module (func (x {w})))")));
                emit(Case::doc("num/float-flat", format!("(module (func x +{w} nop))")));
                emit(Case::doc("num/float-flat", format!("(module (func x -{w}))")));
            }
        });
    }
    // identifiers and words over every printable ASCII character
    for c in (0x21u8..0x7f).map(|c| c as char) {
        for w in [format!("$a{c}"), format!("${c}"), format!("a{c}b"), format!("{c}")] {
            emit(Case::doc("word", format!("(module (func {w} ))")));
            emit(Case::doc("word", format!("(module (func (nop {w} )))")));
            emit(Case::doc("word", format!("(module (func ({w} )))")));
            emit(Case::doc("word", format!("(module ({w} ))")));
        }
    }
    // strings
    sequences_upto(&["a", "\\n", "\\\"", "\\\\", "\\u{1F}", "\\00", ";", "(", "é", " "], tier.pick(3, 4), &mut |s| {
        emit(Case::doc("string", format!("(module (data \"{}\" ) (export \"{0}\" (func 0)))", s.concat())));
    });
    let mut string = |s: &str| {
        emit(Case::doc("string", format!("(module (data \"{s}\" ) (export \"{s}\" (func 0)))")));
        emit(Case::doc("string", format!("(module (import \"\" \"{s}\" (func)) (memory (data \"{s}\" \"\")))")));
        emit(Case::doc("string", format!("(module (func (import \"{s}\" \"\") (export \"{s}\")))")));
    };
    // every character raw, escaped, and in a hexadecimal escape
    for c in (0u8..0x80).map(|c| c as char).chain(['\u{80}', 'é', '\u{2028}', '\u{1F600}']) {
        for t in [format!("{c}"), format!("\\{c}"), format!("\\4{c}"), format!("\\{c}a"), format!("\\u{{{c}}}"), format!("\\u{{1{c}F}}"), format!("\\u{c}"), format!("\\u{{41{c}"), format!("a\\{c}b\\{c}")] {
            string(&t);
        }
    }
    for t in ["0", "0000000041", "d7ff", "d800", "dfff", "e000", "10ffff", "10FFFF", "110000", "ffffffff", "100000041", "1_0", "1__0", "_1", "1_", "", "-1", "+1", "0x1", " 1", "1 "] {
        string(&format!("\\u{{{t}}}"));
        string(&format!("a\\u{{{t}}}\\u{{{t}}}b"));
    }
    // strings that are not closed on their line, in the middle or at the end of the document
    for f in FIELDS {
        let doc = format!("(module {f} (func))");
        let toks = sig_tokens(&doc);
        for g in (0..toks.len()).filter(|g| toks[*g].starts_with('"')) {
            for w in ["\"\n", "\"a\n", "\"a\r\n", "\"a\\\n", "a\"\n", "\"\\\"\n"] {
                let mut t = toks.clone();
                t[g] = w.to_string();
                emit(Case::doc("string-open", t.join(" ")));
                t.truncate(g + 1);
                emit(Case::doc("string-open", t.join(" ").trim_end().to_string()));
                t.push(")".repeat(5));
                emit(Case::doc("string-open", t.join(" ")));
            }
        }
    }
    // every single-token edit of every field
    for f in FIELDS {
        let doc = format!("(module {f} (func))");
        let toks = sig_tokens(&doc);
        for g in 0..=toks.len() {
            if g < toks.len() {
                let mut t = toks.clone();
                t.remove(g);
                emit(Case::doc("edit/delete", t.join(" ")));
                let mut t = toks.clone();
                t.insert(g, toks[g].clone());
                emit(Case::doc("edit/duplicate", t.join(" ")));
                if g + 1 < toks.len() {
                    let mut t = toks.clone();
                    t.swap(g, g + 1);
                    emit(Case::doc("edit/swap", t.join(" ")));
                }
            }
            // words, numbers, names and strings that are almost right
            if let Some(w) = toks.get(g).filter(|w| w.len() > 1) {
                let mut near = vec![w[1..].to_string(), w[..w.len() - 1].to_string(), w.to_uppercase(), format!("{w}{w}"), w.replace('.', "_"), w[..1].to_uppercase() + &w[1..]];
                for c in ["x", "1", "_", ".", "=", "$", "-", "'", "\"", ",", ";", "é"] {
                    near.push(format!("{w}{c}"));
                    near.push(format!("{c}{w}"));
                    near.push(format!("{}{c}{}", &w[..1], &w[1..]));
                }
                for w in near {
                    let mut t = toks.clone();
                    t[g] = w;
                    emit(Case::doc("edit/near", t.join(" ")));
                }
            }
            for w in WORDS {
                let mut t = toks.clone();
                t.insert(g, w.to_string());
                emit(Case::doc("edit/word", t.join(" ")));
                if g < toks.len() {
                    t.remove(g + 1);
                    emit(Case::doc("edit/word", t.join(" ")));
                }
            }
            for w in TOKENS {
                let mut t = toks.clone();
                t.insert(g, w.to_string());
                emit(Case::doc("edit/insert", t.join(" ")));
                if g < toks.len() {
                    let mut t = toks.clone();
                    t[g] = w.to_string();
                    emit(Case::doc("edit/replace", t.join(" ")));
                    if tier.thorough() {
                        for g2 in g + 1..toks.len() {
                            for w2 in TOKENS {
                                let mut t = t.clone();
                                t[g2] = w2.to_string();
                                emit(Case::doc("edit/replace2", t.join(" ")));
                            }
                        }
                    }
                }
            }
        }
    }
    // all short token sequences in every syntactic position
    for (name, pre, post) in [
        ("raw", "", ""),
        ("module", "(module ", ")"),
        ("field", "(module (", "))"),
        ("func", "(module (func ", "))"),
        ("func-after", "(module (func nop ", "))"),
        ("folded", "(module (func (nop ", ")))"),
        ("param", "(module (func (param ", ")))"),
        ("result", "(module (func (result ", ")))"),
        ("local", "(module (func (local ", ")))"),
        ("block", "(module (func block ", " end))"),
        ("block-folded", "(module (func (block ", ")))"),
        ("if", "(module (func if ", " end))"),
        ("if-folded", "(module (func (if ", ")))"),
        ("then", "(module (func (if (then ", "))))"),
        ("import", "(module (import ", "))"),
        ("import-desc", "(module (import \"a\" \"b\" (", ")))"),
        ("export", "(module (export ", "))"),
        ("export-desc", "(module (export \"a\" (", ")))"),
        ("elem", "(module (elem ", "))"),
        ("elem-offset", "(module (elem (i32.const 0) ", "))"),
        ("table", "(module (table ", "))"),
        ("table-elem", "(module (table funcref (elem ", ")))"),
        ("memory", "(module (memory ", "))"),
        ("data", "(module (data ", "))"),
        ("global", "(module (global ", "))"),
        ("type", "(module (type ", "))"),
        ("functype", "(module (type (func ", ")))"),
        ("start", "(module (start ", "))"),
    ] {
        sequences_upto(TOKENS, 3, &mut |s| emit(Case::doc(&format!("tokens/{name}"), format!("{pre}{}{post}", s.join(" ")))));
        if tier.thorough() {
            let small: &[&str] = &["(", ")", "$a", "0", "\"s\"", "func", "param", "result", "i32", "type", "block", "end", "nop", "then", "else", "import", "funcref"];
            sequences(small, 4, &mut |s| emit(Case::doc(&format!("tokens4/{name}"), format!("{pre}{}{post}", s.join(" ")))));
        }
    }
}

fn c02_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let Ok(d) = refwat::parse(src) else {
        r.skipped += 1;
        return Ok(());
    };
    r.step();
    let mut p = Parser::new(src);
    let root = p.parse();
    if let Some(e) = p.errors().first() {
        return Err(format!("well-formed document is rejected: {e:?} (near {:?})", src.get(e.start.saturating_sub(10)..)));
    }
    structure(src, &root, &d)?;
    r.outcome(&d.nodes);
    Ok(())
}
pub static C02: Property = Property { id: "C02", cases: syntax_docs, check: c02_check, bounds: |t| format!("{} productions in 13 layouts, every trivia in every gap, all pairs, all single-token edits, token sequences of length <= {} over 37 tokens in 20 contexts, numbers of <= 5-6 characters in 8 contexts, floats, strings, growing shapes", crate::gen::FIELDS.len(), t.pick(3, 3)) };
fn c03_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let Err(why) = refwat::parse(src) else {
        r.skipped += 1;
        return Ok(());
    };
    r.step();
    let mut p = Parser::new(src);
    p.parse();
    r.outcome(&p.errors().iter().map(|e| format!("{e:?}")).collect::<Vec<_>>());
    if p.errors().is_empty() {
        // latitude of the dialect: instruction names are not checked, and the condition of a folded
        // `if` may be written flat
        if why.starts_with("not an instruction") || why == "folded" {
            r.skipped += 1;
            return Ok(());
        }
        // `inf` and `nan:..` have the shape of a name as well as that of a number
        let named = |open: &str| ["inf", "nan"].iter().any(|w| src.contains(&format!("{open}{w}")));
        if why == "instr expected" && named(" ") || why == "folded head" && (named("(") || named("( ")) {
            r.skipped += 1;
            return Ok(());
        }
        // listed finding: several underscores in a row between digits
        let mut t = src.clone();
        while t.contains("__") {
            t = t.replace("__", "_");
        }
        if t != *src && refwat::parse(&t).is_ok() {
            r.known("int-double-underscore", src);
            return Ok(());
        }
        return Err(format!("malformed document ({why}) yields no syntax error"));
    }
    Ok(())
}
pub static C03: Property = Property { id: "C03", cases: syntax_docs, check: c03_check, bounds: |t| format!("{} productions in 13 layouts, every trivia in every gap, all pairs, all single-token edits, token sequences of length <= {} over 37 tokens in 20 contexts, numbers of <= 5-6 characters in 8 contexts, floats, strings, growing shapes", crate::gen::FIELDS.len(), t.pick(3, 3)) };

//! C04-C06: the formatter.
use crate::engine::*;
use crate::gen::*;
use crate::refwat::{self, TK};
use rowan::ast::AstNode;
use wat_formatter::config::*;
use wat_syntax::ast::Root;

pub const NOPTS: i64 = 10;
pub fn opts(i: i64) -> FormatOptions {
    let mut o = FormatOptions::default();
    match i {
        0 => {}
        1 => o.layout.print_width = 1,
        2 => o.layout.print_width = 20,
        3 => o.layout.print_width = 1000,
        4 => o.layout.indent_width = 4,
        5 => {
            o.layout.use_tabs = true;
            o.layout.print_width = 30;
        }
        6 => o.layout.line_break = LineBreak::Crlf,
        7 => o.language.format_comments = true,
        8 => {
            o.language.ignore_comment_directive = "keep-me".into();
            o.layout.indent_width = 1;
        }
        9 => {
            o.layout.use_tabs = true;
            o.layout.line_break = LineBreak::Crlf;
            o.language.format_comments = true;
            o.layout.indent_width = 8;
            o.layout.print_width = 10;
        }
        _ => unreachable!(),
    }
    o
}
pub fn root(src: &str) -> Root {
    Root::cast(wat_parser::Parser::new(src).parse()).unwrap()
}
pub fn fmt(src: &str, o: &FormatOptions) -> String {
    wat_formatter::format(&root(src), o)
}

/// Significant tokens and comments, in order. Line breaks inside block comments are compared as LF.
pub fn content(src: &str, format_comments: bool) -> Vec<String> {
    let mut out = vec![];
    for t in refwat::lex(src) {
        let s = t.sp.text(src);
        match t.k {
            TK::Ws => {}
            TK::LineC if format_comments => out.push(format!(";;{}", s[2..].trim_end().trim_start_matches([' ', '\t']))),
            TK::LineC => out.push(s.trim_end().to_string()),
            TK::BlockC if format_comments => out.push(format!("(;{};)", s[2..s.len() - 2].replace("\r\n", "\n").trim_matches([' ', '\t']))),
            TK::BlockC => out.push(s.replace("\r\n", "\n")),
            TK::Bad => out.push(s.trim_end().to_string()),
            _ => out.push(s.to_string()),
        }
    }
    out
}
/// An inline export in front of an inline import: the formatter puts the import first.
fn reordered(src: &str) -> bool {
    let t: Vec<String> = sig_tokens(src);
    if refwat::parse(src).is_err() {
        return t.iter().any(|w| w == "import") && t.iter().any(|w| w == "export");
    }
    let mut stack: Vec<(String, bool)> = vec![];
    for (i, w) in t.iter().enumerate() {
        if w == "(" {
            let head = t.get(i + 1).cloned().unwrap_or_default();
            if let Some(f) = stack.last_mut().filter(|f| f.0 == "func") {
                match head.as_str() {
                    "export" => f.1 = true,
                    "import" if f.1 => return true,
                    _ => {}
                }
            }
            stack.push((head, false));
        } else if w == ")" {
            stack.pop();
        }
    }
    false
}
fn diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("source has {:?}, formatted text has {:?}", &a[i..a.len().min(i + 3)], &b[i..b.len().min(i + 3)])
}

pub const TRIVIA: &[&str] = &[" ", "\n", "\n\n", " ;;c\n", "(;c;)", " (; c ;) ", "\n;; a\n\n  (;b;)\n", "\r\n;;d\r\n", " (;(;;)x\n y;) ", " ;;\n;;e\n", " \r", "\r\t;;s\n\r", "  (;c;)\t  ", "\t;;c\n \t (;d;) \t\n  "];

pub fn fmt_docs(tier: Tier, emit: Emit) {
    crate::ladder::shapes(tier, &mut |sp, t| {
        let bad = refwat::parse(&t).is_err();
        for o in if bad { vec![0] } else { vec![0, 1, 2, 3, 9] } {
            emit(Case::new(if bad { "malformed/shape" } else { sp }, vec![t.clone()], vec![o]));
        }
    });
    for f in FIELDS {
        let doc = format!("(module {f})");
        let toks = sig_tokens(&doc);
        for o in 0..NOPTS {
            emit(Case::new("field", vec![doc.clone()], vec![o]));
            emit(Case::new("layout", vec![toks.join(" ")], vec![o]));
            emit(Case::new("layout", vec![toks.join("\n")], vec![o]));
            emit(Case::new("layout", vec![toks.join("\n\n\n")], vec![o]));
            emit(Case::new("layout", vec![format!("\n{}\n\n", toks.join("\r\n"))], vec![o]));
            for t in TRIVIA {
                emit(Case::new("all-gaps", vec![toks.join(t)], vec![o]));
            }
            for g in 0..=toks.len() {
                for t in TRIVIA {
                    emit(Case::new("gap", vec![join_with(&toks, min_sep, &[(g, t)])], vec![o]));
                    emit(Case::new("gap-spaced", vec![join_with(&toks, |_, _| " ", &[(g, t)])], vec![o]));
                }
            }
        }
        // two gaps
        let small: &[&str] = &["\n", " ;;c\n", "(;c;)", "\n\n"];
        for o in if tier.thorough() { vec![0, 2, 9] } else { vec![0] } {
            for g in 0..=toks.len() {
                for h in g + 1..=toks.len() {
                    if !tier.thorough() && h > g + 3 {
                        continue;
                    }
                    for a in small {
                        for b in small {
                            emit(Case::new("gap2", vec![join_with(&toks, min_sep, &[(g, a), (h, b)])], vec![o]));
                        }
                    }
                }
            }
        }
    }
    for a in FIELDS {
        for b in FIELDS {
            for o in [0, 2, 9] {
                emit(Case::new("pair", vec![format!("(module $m {a} {b})")], vec![o]));
                emit(Case::new("pair-nl", vec![format!("(module\n\n  {a} ;; x\n\n\n{b}\n)")], vec![o]));
            }
            emit(Case::new("modules", vec![format!(";; x\n(module {a})\n(; y ;) (module $n {b}) ;; z")], vec![0]));
        }
    }
    // nesting of blocks, flat and folded, with comments
    let units: &[&str] = &["nop", "block", "loop $l", "if", "else", "end", "(block", "(if (nop)", "(then", "(else", ")", ";;c\n", "(;c;)", "\n\n", "(nop"];
    sequences_upto(units, tier.pick(4, 5), &mut |s| {
        let t = format!("(module (func {}))", s.join(" "));
        if refwat::parse(&t).is_ok() {
            for o in [0, 9] {
                emit(Case::new("instr-seq", vec![t.clone()], vec![o]));
            }
        }
    });
    // prefix/postfix comments at top level
    let top: &[&str] = &["(module)", ";;c\n", "(;c;)", "\n", "\n\n\n", " ", "(module (func))", ";; fmt-ignore\n", "(module  (func ) )"];
    sequences_upto(top, tier.pick(4, 5), &mut |s| emit(Case::new("top", vec![s.concat()], vec![0])));
    // every character at the ends of comments
    for c in (0x20u8..0x7f).map(|c| c as char).chain(['\t', 'é', '\u{1F600}', '\u{a0}']) {
        for t in [format!("{c}"), format!("{c}{c}"), format!("{c} x"), format!(" x{c}"), format!(" {c}"), format!("{c} "), format!(" {c} "), format!("{c}x{c}"), format!("  {c}x "), format!("\t{c}")] {
            for doc in [format!("(module (;{t};) (func nop (;{t};)) (;{t};)) (;{t};)"), format!("(;{t};)(module\n(;{t};)(func (;{t};)\nnop (;{t};)\n))"), format!(";;{t}\n(module ;;{t}\n(func nop) ;;{t}\n ;;{t}\n(func)) ;;{t}"), format!("(module (func;;{t}\nnop (block;;{t}\n)\n;;{t}\nnop))")] {
                if refwat::parse(&doc).is_ok() {
                    for o in [0, 3, 9] {
                        emit(Case::new("comment-text", vec![doc.clone()], vec![o]));
                    }
                }
            }
        }
    }
    ignore_docs(tier, emit);
    for f in FIELDS {
        let doc = format!("(module {f} (func))");
        let toks = sig_tokens(&doc);
        for g in 0..=toks.len() {
            if g < toks.len() {
                let mut t = toks.clone();
                t.remove(g);
                emit(Case::new("malformed/delete", vec![t.join(" ")], vec![0]));
            }
            emit(Case::new("malformed/prefix", vec![toks[..g].join(" ")], vec![0]));
            emit(Case::new("malformed/suffix", vec![toks[g..].join(" ")], vec![0]));
            for w in crate::syntax::TOKENS {
                let mut t = toks.clone();
                t.insert(g, w.to_string());
                emit(Case::new("malformed/insert", vec![t.join(" ")], vec![0]));
                emit(Case::new("malformed/commented", vec![t.join(" ;;c\n")], vec![0]));
                if tier.thorough() {
                    emit(Case::new("malformed/commented", vec![t.join("(;c;)\n\n")], vec![0]));
                }
            }
            if g < toks.len() && toks[g].starts_with('"') {
                for w in ["\"a\n", "\"\\q\"", "\"a\\\"\n", "\"\\u{110000}\" ;;c\n"] {
                    let mut t = toks.clone();
                    t[g] = w.to_string();
                    emit(Case::new("malformed/string", vec![t.join(" ")], vec![0]));
                }
            }
        }
    }
}
pub const IGNORED: &[&str] = &["(func  $f ( nop ) )", "(func\n     $f\n (nop)\n\n\n nop\n    )", "(memory\t1)", "(module )", "(func ;;c\n\n )", "(data  \"a\" (;x;)  )", "(func  \n  nop \t\n\t\n nop)", "(func\t;; a  \n)", "(func\n\n\n (;  a\n b ;)\r\n nop )"];
fn ignore_docs(tier: Tier, emit: Emit) {
    // every sequence of lines in an ignored form
    let lines: &[&str] = &["", "  ", ";;", ";;;", ";; a ", "nop", "\tnop ", "(;x;)", "(;", ";)", "(nop", ")"];
    sequences_upto(lines, tier.pick(3, 4), &mut |s| {
        let x = format!("(func\n{}\n)", s.join("\n"));
        if refwat::parse(&format!("(module {x})")).is_err() {
            return;
        }
        for o in [0, 5, 6] {
            emit(Case::new("ignore-lines", vec![format!("(module ;; fmt-ignore\n{x} (func))"), x.clone(), "fmt-ignore".into()], vec![o, 0, 0]));
            let m = format!("(module {x})");
            emit(Case::new("ignore-lines", vec![format!(";;fmt-ignore\n{m}\n\n(module)"), m.clone(), "fmt-ignore".into()], vec![o, 0, 0]));
        }
    });
    for x in IGNORED {
        for (dir, o) in [("fmt-ignore", 0), ("fmt-ignore", 2), ("fmt-ignore", 4), ("fmt-ignore", 5), ("fmt-ignore", 6), ("keep-me", 8), ("fmt-ignore", 9), ("fmt-ignore why", 0), ("fmt-ignore\twhy", 0), ("fmt-ignore\t", 2), ("fmt-ignore ", 0), ("fmt-ignored", 0), ("keep-me", 0)] {
            for lead in [";; ", ";;", ";;  \t"] {
                for before in ["", "(func  (nop))", "(type ( func ))\n\n", ";; c\n", "(; c ;)\n"] {
                    for after in ["", "(func  (nop))", "\n\n;; z\n(memory  1)"] {
                        for gap in ["\n", "\n  ", "\n\n", "\r\n\t"] {
                            let params = vec![o, 0, 0];
                            if x.starts_with("(module") {
                                emit(Case::new("ignore-module", vec![format!("{lead}{dir}{gap}{x}\n(module  )"), x.to_string(), dir.into()], params.clone()));
                                continue;
                            }
                            emit(Case::new("ignore", vec![format!("(module {before} {lead}{dir}{gap}{x}{after})"), x.to_string(), dir.into()], params.clone()));
                        }
                    }
                }
            }
        }
    }
}

pub fn check_content(src: &str, out: &str, o: &FormatOptions) -> Result<(), String> {
    let mut a = content(src, o.language.format_comments);
    let mut b = content(out, o.language.format_comments);
    if reordered(src) {
        a.sort();
        b.sort();
    }
    if a != b {
        return Err(format!("formatting changed the content: {}\nformatted: {out:?}", diff(&a, &b)));
    }
    Ok(())
}
fn c04_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let o = opts(c.params[0]);
    r.step();
    let out = fmt(src, &o);
    r.outcome(&out);
    if c.space.starts_with("malformed") {
        // may close what is left open, but never drops text
        let strip = |s: &str| -> Vec<char> {
            let mut v: Vec<char> = s.chars().filter(|c| !c.is_whitespace() && *c != ')').collect();
            if reordered(src) {
                v.sort();
            }
            v
        };
        if strip(src) != strip(&out) {
            return Err(format!("text of a malformed document was lost, formatted: {out:?}"));
        }
        // comments stay comments, and nothing else gets into them
        let open = refwat::lex(src).last().is_some_and(|t| t.k == TK::Bad && t.sp.text(src).starts_with("(;"));
        let comments = |s: &str| {
            let mut v = content(s, o.language.format_comments);
            v.retain(|t| t.starts_with(";;") || t.starts_with("(;"));
            if reordered(src) {
                v.sort();
            }
            v
        };
        let (a, b) = (comments(src), comments(&out));
        if a != b && !open {
            return Err(format!("a comment of a malformed document was changed: {}", diff(&a, &b)));
        }
        return Ok(());
    }
    check_content(src, &out, &o)?;
    let mut p = wat_parser::Parser::new(&out);
    p.parse();
    if refwat::parse(src).is_ok() {
        if let Some(e) = p.errors().first() {
            return Err(format!("formatted text has a syntax error: {e:?}\nformatted: {out:?}"));
        }
    }
    Ok(())
}
pub static C04: Property = Property { id: "C04", cases: fmt_docs, check: c04_check, bounds: |t| format!("{} productions x every trivia in every gap and pair of near gaps x 10 option sets, all pairs of productions, instruction sequences of <= {} units, top-level sequences, ignore directives, single-token deletions/insertions, growing shapes", crate::gen::FIELDS.len(), t.pick(4, 5)) };

/// Between the modules, the fields of a module and the instructions of a body: is there a blank
/// line? (only where nothing but whitespace stands between)
fn blank_lines(src: &str) -> Vec<(String, bool)> {
    let list = |k: &str| k.starts_with("MODULE") || matches!(k, "PLAIN_INSTR" | "BLOCK_BLOCK" | "BLOCK_LOOP" | "BLOCK_IF");
    let mut out = vec![];
    for n in root(src).syntax().descendants() {
        let parent = n.parent().map(|p| format!("{:?}", p.kind())).unwrap_or_default();
        if !list(&format!("{:?}", n.kind())) || !matches!(&*parent, "ROOT" | "MODULE" | "MODULE_FIELD_FUNC" | "BLOCK_BLOCK" | "BLOCK_LOOP" | "BLOCK_IF_THEN" | "BLOCK_IF_ELSE") {
            continue;
        }
        let Some(a) = n.next_sibling_or_token() else { continue };
        let ws = format!("{:?}", a.kind()) == "WHITESPACE";
        let next = if ws { a.next_sibling_or_token() } else { Some(a.clone()) };
        if next.is_some_and(|x| list(&format!("{:?}", x.kind()))) {
            out.push((parent, ws && a.to_string().matches('\n').count() > 1));
        }
    }
    out
}
/// Fields and instructions that start a line are one level deeper than the line their parent starts on.
fn indentation(out: &str, o: &FormatOptions) -> Result<(), String> {
    let li = |off: usize| -> (usize, bool) {
        let s = out[..off].rfind('\n').map_or(0, |i| i + 1);
        let lead = out[s..].chars().take_while(|c| matches!(c, ' ' | '\t')).count();
        (if o.layout.use_tabs { lead } else { lead / o.layout.indent_width }, s + lead == off)
    };
    for n in root(out).syntax().descendants() {
        let Some(p) = n.parent() else { continue };
        let (k, pk) = (format!("{:?}", n.kind()), format!("{:?}", p.kind()));
        if !(k.starts_with("MODULE_FIELD") || matches!(&*k, "PLAIN_INSTR" | "BLOCK_BLOCK" | "BLOCK_LOOP" | "BLOCK_IF")) || !matches!(&*pk, "MODULE" | "MODULE_FIELD_FUNC" | "BLOCK_BLOCK" | "BLOCK_LOOP" | "BLOCK_IF_THEN" | "BLOCK_IF_ELSE") {
            continue;
        }
        let (at, own) = li(n.text_range().start().into());
        let (up, first) = li(p.text_range().start().into());
        if own && first && at != up + 1 {
            return Err(format!("`{n}` is indented by {at} levels, `{p}` starts on a line indented by {up}: {out:?}"));
        }
    }
    Ok(())
}
fn c05_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    if c.space.starts_with("malformed") {
        r.skipped += 1;
        return Ok(());
    }
    let o = opts(c.params[0]);
    r.step();
    let out = fmt(src, &o);
    r.outcome(&out);
    let again = fmt(&out, &o);
    if again != out {
        return Err(format!("not stable\n first: {out:?}\nsecond: {again:?}"));
    }
    let nl = if matches!(o.layout.line_break, LineBreak::Crlf) { "\r\n" } else { "\n" };
    if !out.ends_with(nl) || out.ends_with(&format!("{nl}{nl}")) && out != nl && !src.trim().is_empty() {
        return Err(format!("does not end with one line break: {out:?}"));
    }
    let (a, b) = (blank_lines(src), blank_lines(&out));
    if a != b {
        return Err(format!("blank lines between forms: {a:?} in the source, {b:?} after formatting: {out:?}"));
    }
    let ignored = c.texts.get(2).is_some_and(|d| d.split([' ', '\t']).next().unwrap() == o.language.ignore_comment_directive);
    if ignored && !out.replace("\r\n", "\n").contains(&c.texts[1].replace("\r\n", "\n")) {
        return Err(format!("ignored form was formatted: {out:?}"));
    }
    if c.texts.len() < 2 && !src.contains("fmt-ignore") {
        indentation(&out, &o)?;
    }
    let toks = refwat::lex(&out);
    let mut depth = 0;
    for (i, t) in toks.iter().enumerate() {
        if t.k != TK::Ws {
            let text = t.sp.text(&out);
            depth += (text == "(") as i32 - (text == ")") as i32;
            if let (Some(n), true, true) = (toks.get(i + 1), depth > 0 || !src.contains(")("), c.texts.len() < 2 && !src.contains("fmt-ignore")) {
                let next = n.sp.text(&out);
                let comment = |k: TK| matches!(k, TK::LineC | TK::BlockC);
                let inner = text == "(" || next == ")";
                if n.k != TK::Ws && !inner && !comment(t.k) && !comment(n.k) {
                    return Err(format!("nothing between {text:?} and {next:?}: {out:?}"));
                }
                if let (TK::Ws, Some(m), false) = (n.k, toks.get(i + 2), next.contains('\n')) {
                    if (text == "(" || m.sp.text(&out) == ")") && !comment(t.k) && !comment(m.k) {
                        return Err(format!("blank inside parenthesis {text:?} {:?}: {out:?}", m.sp.text(&out)));
                    }
                }
            }
            continue;
        }
        let s = t.sp.text(&out);
        if c.texts.len() > 1 || src.contains("fmt-ignore") {
            break;
        }
        let mut lines: Vec<&str> = s.split('\n').collect();
        let last = lines.pop().unwrap();
        for l in &lines {
            let l = if nl == "\r\n" {
                match l.strip_suffix('\r') {
                    Some(l) => l,
                    None => return Err(format!("LF line break although CRLF is asked for: {out:?}")),
                }
            } else {
                l
            };
            if !l.is_empty() {
                return Err(format!("trailing or odd whitespace {s:?}: {out:?}"));
            }
        }
        if lines.len() > 2 {
            return Err(format!("more than one blank line in a row: {out:?}"));
        }
        if lines.is_empty() {
            if s != " " && i > 0 {
                return Err(format!("blank {s:?} between tokens of a line: {out:?}"));
            }
        } else if o.layout.use_tabs {
            if last.contains(' ') {
                return Err(format!("indentation by spaces although tabs are asked for: {out:?}"));
            }
        } else if last.contains('\t') || last.len() % o.layout.indent_width != 0 {
            return Err(format!("indentation {last:?} is not a multiple of the indent width: {out:?}"));
        }
    }
    Ok(())
}
pub static C05: Property = Property { id: "C05", cases: fmt_docs, check: c05_check, bounds: |t| format!("{} productions x every trivia in every gap and pair of near gaps x 10 option sets, all pairs of productions, instruction sequences of <= {} units, top-level sequences, ignore directives, single-token deletions/insertions, growing shapes", crate::gen::FIELDS.len(), t.pick(4, 5)) };

fn range_docs(tier: Tier, emit: Emit) {
    let os = [0, 2, 4, 5, 6, 9];
    let mut all: Vec<String> = FIELDS.iter().map(|f| format!("(module {f})")).collect();
    let units: &[&str] = &["nop", "block $b", "if", "else", "end", "(block", "(if (nop)", "(then", ")", ";;c\n", "\n\n"];
    sequences_upto(units, tier.pick(4, 5), &mut |s| {
        let t = format!("(module (func {}) (func))", s.join(" "));
        if refwat::parse(&t).is_ok() {
            all.push(t);
        }
    });
    if tier.thorough() {
        for a in FIELDS {
            for b in FIELDS {
                all.push(format!("(module $m {a} {b})"));
            }
        }
    }
    for doc in &all {
        for o in os {
            emit(Case::new("range", vec![doc.clone()], vec![o]));
            emit(Case::new("range-formatted", vec![fmt(doc, &opts(o))], vec![o]));
            emit(Case::new("range-messy", vec![doc.replace(' ', "  ").replace("(func", "\n \t(func").replace("nop", "\n\nnop")], vec![o]));
            emit(Case::new("range-wide", vec![format!(" (;é😀;) {doc} ;; x\n")], vec![o]));
        }
    }
}
fn c06_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let o = opts(c.params[0]);
    let root = root(src);
    let li = line_index::LineIndex::new(src);
    let whole = fmt(src, &o);
    let already = whole == *src;
    let bounds: Vec<usize> = {
        let mut v: Vec<usize> = refwat::lex(src).iter().flat_map(|t| [t.sp.s, t.sp.e]).collect();
        v.push(0);
        v.push(src.len());
        v.sort();
        v.dedup();
        v
    };
    let mut seen = std::collections::HashMap::new();
    for (i, &a) in bounds.iter().enumerate() {
        for &b in &bounds[i..] {
            r.step();
            let tr = rowan::TextRange::new((a as u32).into(), (b as u32).into());
            let Some((text, range)) = wat_formatter::format_range(&root, &o, tr, &li) else { continue };
            let (s, e): (usize, usize) = (range.start().into(), range.end().into());
            if s > a || e < b {
                return Err(format!("affected range {s}..{e} does not cover the requested {a}..{b}"));
            }
            if seen.insert((s, e), text.clone()).is_some() {
                continue;
            }
            let out = format!("{}{}{}", &src[..s], text, &src[e..]);
            r.outcome(&out);
            check_content(src, &out, &o).map_err(|m| format!("range {a}..{b}: {m}"))?;
            let mut p = wat_parser::Parser::new(&out);
            p.parse();
            if let Some(e) = p.errors().first() {
                return Err(format!("range {a}..{b}: syntax error after formatting: {e:?} {out:?}"));
            }
            if (s, e) == (0, src.len()) && text.trim_end() != whole.trim_end() {
                return Err(format!("formatting the whole document as a range differs from formatting it: {text:?}"));
            }
            if fmt(&out, &o) != whole {
                return Err(format!("range {a}..{b}: formatting afterwards gives another document: {out:?}"));
            }
            let own_line = src[..s].rsplit('\n').next().unwrap().trim().is_empty();
            if already && own_line && o.layout.print_width >= 30 && out != *src {
                return Err(format!("range {a}..{b} of a formatted document was changed: {out:?}"));
            }
        }
    }
    Ok(())
}
pub static C06: Property = Property { id: "C06", cases: range_docs, check: c06_check, bounds: |t| format!("{} productions and instruction sequences of <= {} units in 4 shapes x 6 option sets x every pair of token boundaries", crate::gen::FIELDS.len(), t.pick(4, 5)) };

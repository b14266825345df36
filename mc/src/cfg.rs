//! C24: the options of the formatter, from a configuration file and from the editor.
use crate::engine::*;
use crate::fmt::{fmt, root};
use crate::gen::*;
use crate::refwat::{self, TK};
use crate::svc::*;
use serde_json::{json, Value};
use wat_formatter::config::*;

/// what an option is called, and valid values
fn options() -> Vec<(Vec<&'static str>, Vec<Value>)> {
    vec![
        (vec!["print_width", "printWidth"], vec![json!(1), json!(120)]),
        (vec!["indent_width", "indentWidth"], vec![json!(3), json!(8)]),
        (vec!["line_break", "lineBreak", "linebreak"], vec![json!("lf"), json!("crlf")]),
        (vec!["use_tabs", "useTabs"], vec![json!(true), json!(false)]),
        (vec!["format_comments", "formatComments"], vec![json!(true), json!(false)]),
        (vec!["ignore_comment_directive", "ignoreCommentDirective"], vec![json!("x"), json!("keep é")]),
    ]
}
fn shown(o: &FormatOptions) -> Vec<Value> {
    vec![
        json!(o.layout.print_width),
        json!(o.layout.indent_width),
        json!(if matches!(o.layout.line_break, LineBreak::Crlf) { "crlf" } else { "lf" }),
        json!(o.layout.use_tabs),
        json!(o.language.format_comments),
        json!(o.language.ignore_comment_directive),
    ]
}
fn defaults() -> Vec<Value> {
    vec![json!(80), json!(2), json!("lf"), json!(false), json!(false), json!("fmt-ignore")]
}

/// The output with every indentation of `n` blanks replaced, comments rewritten, line breaks replaced.
fn derive(wide: &str, unit: &str, crlf: bool, comments: bool) -> String {
    let mut out = String::new();
    for t in refwat::lex(wide) {
        let s = t.sp.text(wide);
        match t.k {
            TK::Ws if s.contains('\n') => {
                let i = s.rfind('\n').unwrap() + 1;
                out.push_str(&if crlf { s[..i].replace('\n', "\r\n") } else { s[..i].to_string() });
                out.push_str(&unit.repeat(s.len() - i));
            }
            TK::LineC if comments && s.len() > 2 && !s[2..].starts_with([' ', '\t']) => out.push_str(&format!(";; {}", &s[2..])),
            TK::BlockC if comments && s.len() > 4 => {
                let b = &s[2..s.len() - 2];
                let l = if b.starts_with([' ', '\t']) { "" } else { " " };
                let r = if b.ends_with([' ', '\t']) { "" } else { " " };
                out.push_str(&format!("(;{l}{b}{r};)"));
            }
            _ => out.push_str(s),
        }
    }
    out
}
fn check_layout(src: &str, r: &mut Rec) -> Result<(), String> {
    let opt = |w: usize, n: usize, tabs: bool, crlf: bool, comments: bool| {
        let mut o = FormatOptions::default();
        o.layout.print_width = w;
        o.layout.indent_width = n;
        o.layout.use_tabs = tabs;
        o.layout.line_break = if crlf { LineBreak::Crlf } else { LineBreak::Lf };
        o.language.format_comments = comments;
        o
    };
    let all = 100_000;
    let wide = fmt(src, &opt(all, 1, false, false, false));
    r.outcome(&wide);
    for (n, tabs) in [(1, false), (2, false), (3, false), (4, false), (7, false), (16, false), (2, true), (4, true), (8, true)] {
        for crlf in [false, true] {
            for comments in [false, true] {
                r.step();
                let exp = derive(&wide, &if tabs { "\t".to_string() } else { " ".repeat(n) }, crlf, comments);
                let got = fmt(src, &opt(all, n, tabs, crlf, comments));
                if got != exp {
                    return Err(format!("indent width {n}, tabs {tabs}, CRLF {crlf}, comment formatting {comments}: {got:?}, expected {exp:?}"));
                }
                // a width in which all lines of the widest layout fit
                let w = exp.lines().map(|l| l.chars().map(|c| if c == '\t' { n } else { 1 }).sum::<usize>()).max().unwrap_or(0).max(1);
                if refwat::lex(src).iter().any(|t| t.k == TK::BlockC && t.sp.text(src).contains('\n')) {
                    continue;
                }
                for w in [w, w + 1, w + 17] {
                    r.step();
                    let got = fmt(src, &opt(w, n, tabs, crlf, comments));
                    if got != exp {
                        return Err(format!("print width {w}, indent width {n}, tabs {tabs}, comment formatting {comments}: {got:?} although {exp:?} fits"));
                    }
                }
            }
        }
    }
    Ok(())
}
fn check_service(src: &str, r: &mut Rec) -> Result<(), String> {
    let mut s = Svc::new();
    s.commit(U, src);
    let l = Lines::new(src);
    let li = line_index::LineIndex::new(src);
    let rt = root(src);
    let mut bounds: Vec<usize> = refwat::lex(src).iter().flat_map(|t| [t.sp.s, t.sp.e]).collect();
    bounds.extend([0, src.len()]);
    bounds.sort();
    bounds.dedup();
    if bounds.len() > 24 {
        let step = bounds.len().div_ceil(24);
        bounds = bounds.into_iter().step_by(step).collect();
    }
    for n in [0u32, 1, 2, 3, 4, 8, 13] {
        for spaces in [true, false] {
            let mut o = FormatOptions::default();
            o.layout.indent_width = n as usize;
            o.layout.use_tabs = !spaces;
            r.step();
            if n == 0 {
                // means nothing, but is no reason to fail
                let out = s.formatting(U, fopts(n, spaces)).map(|e| apply_edits(src, &e)).transpose()?;
                if let Some(out) = out.filter(|_| refwat::parse(src).is_ok()) {
                    crate::fmt::check_content(src, &out, &o)?;
                }
                continue;
            }
            let exp = fmt(src, &o);
            let Some(e) = s.formatting(U, fopts(n, spaces)) else { return Err("formatting gives no edits".into()) };
            let got = apply_edits(src, &e)?;
            if got != exp {
                return Err(format!("formatting with tab size {n}, spaces {spaces} gives {got:?}, the formatter {exp:?}"));
            }
            if !matches!(n, 2 | 3 | 8) {
                continue;
            }
            for (i, &a) in bounds.iter().enumerate() {
                for &b in &bounds[i..] {
                    r.step();
                    let tr = rowan::TextRange::new((a as u32).into(), (b as u32).into());
                    let exp = wat_formatter::format_range(&rt, &o, tr, &li).map(|(t, g)| (t, refwat::Span::new(g.start().into(), g.end().into())));
                    let got = match s.range_formatting(U, lsp_types::Range::new(l.pos(a), l.pos(b)), fopts(n, spaces)) {
                        None => None,
                        Some(v) if v.len() == 1 => Some((v[0].new_text.clone(), l.span(v[0].range).ok_or("range of the edit")?)),
                        Some(v) => return Err(format!("range formatting gives {} edits", v.len())),
                    };
                    if got != exp {
                        return Err(format!("range formatting of {a}..{b} with tab size {n}, spaces {spaces} gives {got:?}, the formatter {exp:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}
fn check(c: &Case, r: &mut Rec) -> Result<(), String> {
    match &*c.space {
        "config" | "config-order" => {
            let mut exp = defaults();
            let mut obj = vec![];
            for (i, (names, vals)) in options().into_iter().enumerate() {
                let p = c.params[i];
                if p > 0 {
                    let (a, v) = ((p - 1) as usize / vals.len(), vals[(p - 1) as usize % vals.len()].clone());
                    obj.push(format!("{:?}: {v}", names[a]));
                    exp[i] = v;
                }
            }
            if c.space == "config-order" {
                obj.reverse();
            }
            let text = format!("{{{}}}", obj.join(", "));
            r.step();
            let o: FormatOptions = serde_json::from_str(&text).map_err(|e| format!("{text} is refused: {e}"))?;
            if shown(&o) != exp {
                return Err(format!("{text} is read as {:?}, expected {exp:?}", shown(&o)));
            }
            r.outcome(&format!("{exp:?}"));
            let w = serde_json::to_string(&o).map_err(|e| e.to_string())?;
            let back: FormatOptions = serde_json::from_str(&w).map_err(|e| format!("{w} is refused: {e}"))?;
            if shown(&back) != exp {
                return Err(format!("{w} is read back as {:?}, expected {exp:?}", shown(&back)));
            }
            Ok(())
        }
        "config-bad" => {
            r.step();
            let text = &c.texts[0];
            match serde_json::from_str::<FormatOptions>(text) {
                Ok(o) => Err(format!("{text} is accepted as {:?}", shown(&o))),
                Err(e) => {
                    r.outcome(&e.to_string());
                    Ok(())
                }
            }
        }
        "directive" => {
            // directive and text of the comment
            let (dir, comment) = (&c.texts[0], &c.texts[1]);
            let mut o = FormatOptions::default();
            o.language.ignore_comment_directive = dir.clone();
            let hit = comment.trim_start_matches([' ', '\t']).strip_prefix(dir.as_str()).is_some_and(|r| r.is_empty() || r.starts_with([' ', '\t']));
            for (pre, form, post) in [("", "(module  (func ))", "\n"), ("(module (func) ", "(func  (nop ))", ")\n"), ("(module ", "(func  (nop ))", " (func))\n")] {
                r.step();
                let out = fmt(&format!("{pre};;{comment}\n{form}{post}"), &o);
                r.outcome(&out);
                if out.contains(form) != hit {
                    return Err(format!("directive {dir:?}, comment {comment:?}: the form is {} in {out:?}", if hit { "formatted" } else { "kept" }));
                }
            }
            Ok(())
        }
        "service" => check_service(&c.texts[0], r),
        _ => check_layout(&c.texts[0], r),
    }
}
fn cases(tier: Tier, emit: Emit) {
    let o = options();
    let n: Vec<i64> = o.iter().map(|x| (x.0.len() * x.1.len()) as i64).collect();
    let mut p = vec![0i64; n.len()];
    'outer: loop {
        emit(Case::new("config", vec![], p.clone()));
        emit(Case::new("config-order", vec![], p.clone()));
        for i in 0..n.len() {
            if p[i] < n[i] {
                p[i] += 1;
                continue 'outer;
            }
            p[i] = 0;
        }
        break;
    }
    for (i, (names, _)) in o.iter().enumerate() {
        for name in names {
            for v in ["null", "[]", "{}", "-1", "1.5", "\"LF\"", "\"CrLf\"", "\"\\n\"", "1", "true", "\"x\""] {
                let ok = match i {
                    0 | 1 => v == "1",
                    2 => false,
                    3 | 4 => v == "true",
                    _ => v.starts_with('"'),
                };
                if !ok {
                    emit(Case::doc("config-bad", format!("{{{name:?}: {v}}}")));
                }
            }
        }
    }
    let letters = ["a", "B", "-", "!", " ", "é", ";"];
    let mut words = vec![];
    sequences_upto(&letters, tier.pick(2, 3), &mut |w| words.push(w.concat()));
    for d in words.iter().filter(|d| !d.is_empty() && !d.starts_with(' ')) {
        for w in &words {
            for lead in ["", " ", "\t"] {
                for end in ["", "-", " why", "\tx"] {
                    emit(Case::new("directive", vec![d.clone(), format!("{lead}{w}{end}")], vec![]));
                }
            }
        }
    }
    let plain = |t: &str| t.is_ascii() && !t.contains('\r') && !t.contains("fmt-ignore");
    let mut layout = |sp: &str, t: String| {
        if plain(&t) && refwat::parse(&t).is_ok() {
            emit(Case::doc(sp, t));
        }
    };
    // comments that begin and end with any characters
    for c in (' '..='~').chain(['\t']) {
        for t in [format!("{c}"), format!("{c}x"), format!("x{c}"), format!("{c}{c}"), format!(" {c}"), format!("{c} "), format!("\t{c}x"), format!("x{c}\t")] {
            layout("comments", format!("(module ;;{t}\n(func nop ;;{t}\nnop) ;;{t}\n) ;;{t}\n"));
            layout("comments", format!("(;{t};) (module (;{t};) (func (;{t};) nop (;{t}\n{t};)\nnop) (;{t};))"));
        }
    }
    for f in FIELDS {
        let doc = format!("(module {f})");
        let toks = sig_tokens(&doc);
        layout("field", doc.clone());
        for s in ["\n", "\n\n\n"] {
            layout("layout", toks.join(s));
        }
        for t in crate::fmt::TRIVIA {
            layout("all-gaps", toks.join(t));
            for g in 0..=toks.len() {
                layout("gap", join_with(&toks, min_sep, &[(g, t)]));
            }
        }
        for g in FIELDS {
            layout("pair", format!("(module $m {f} ;;c\n{g})"));
        }
    }
    crate::ladder::shapes(Tier::Quick, &mut |sp, t| {
        if t.len() < tier.pick(400, 1500) {
            layout(sp, t)
        }
    });
    let units: &[&str] = &["nop", "block", "loop $l", "if", "else", "end", "(block", "(if (nop)", "(then", "(else", ")", ";;c\n", "(;c\nd;)", "\n\n", "(nop"];
    sequences_upto(units, tier.pick(4, 5), &mut |s| layout("instr-seq", format!("(module (func {}))", s.join(" "))));
    let mut docs: Vec<String> = FIELDS.iter().flat_map(|f| [format!("(module {f})"), format!(" (;é😀;) (module\n\n  ;;ü😀\n {f}\n) ;; x\n")]).collect();
    docs.extend(["", " ", "(", "(module", "(module (func)))", "(module (func (block (nop", "x (module)", "(module \u{1} (func))"].map(String::from));
    sequences_upto(units, tier.pick(2, 3), &mut |s| docs.push(format!("(module\n\t(func {})\n (func))", s.join(" "))));
    for d in docs {
        emit(Case::doc("service", d));
    }
}
pub static C24: Property = Property { id: "C24", cases, check, bounds: |t| format!("configurations: all 2 x 15 x ... combinations of 6 options, each absent or one of 2 values under each of its names, in both orders, and 11 kinds of wrong values; ignore directives and comments: all pairs of words of <= {} over 7 letters; layout: {} productions with trivia in every gap, all pairs, instruction sequences of <= {} units over 15, growing shapes x 36 option sets x 4 print widths; editor: 7 tab sizes x tabs/spaces, every range between token boundaries", t.pick(2, 3), FIELDS.len(), t.pick(4, 5)) };

//! C17: code actions preserve the meaning of the document.
use crate::engine::*;
use crate::gen::*;
use crate::nav::*;
use crate::refwat::{self, *};
use crate::svc::*;
use crate::view::*;
use lsp_types::*;

const KWS: [&str; 3] = ["param", "result", "local"];
/// `(param|result|local type*)` without name: (keyword, types)
fn header<'a>(src: &'a str, x: &Sx) -> Option<(&'a str, Vec<&'a str>)> {
    let Sx::L { items, .. } = x else { return None };
    let Some(Sx::A(k)) = items.first() else { return None };
    let kw = k.sp.text(src);
    if !KWS.contains(&kw) {
        return None;
    }
    let mut types = vec![];
    for i in &items[1..] {
        let Sx::A(t) = i else { return None };
        if t.k == TK::Id {
            return None;
        }
        types.push(t.sp.text(src));
    }
    Some((kw, types))
}
/// the document with every type of a header in a form of its own, without trivia
fn meaning(src: &str) -> Result<(Vec<String>, Vec<String>), String> {
    fn walk(src: &str, x: &Sx, out: &mut Vec<String>) {
        if let Some((kw, types)) = header(src, x) {
            out.extend(types.iter().map(|t| format!("({kw} {t})")));
            return;
        }
        match x {
            Sx::A(t) => out.push(t.sp.text(src).into()),
            Sx::L { items, .. } => {
                out.push("(".into());
                items.iter().for_each(|i| walk(src, i, out));
                out.push(")".into());
            }
        }
    }
    let toks = refwat::lex(src);
    let mut out = vec![];
    for x in read(&toks)? {
        walk(src, &x, &mut out);
    }
    Ok((out, toks.iter().filter(|t| matches!(t.k, TK::LineC | TK::BlockC)).map(|t| t.sp.text(src).trim_end().to_string()).collect()))
}

fn actions(r: Option<CodeActionResponse>) -> Result<Vec<(String, String, Vec<TextEdit>)>, String> {
    let mut out = vec![];
    for a in r.into_iter().flatten() {
        let CodeActionOrCommand::CodeAction(a) = a else { return Err("command instead of action".into()) };
        let e = a.edit.ok_or("action without edit")?;
        if e.document_changes.is_some() || e.change_annotations.is_some() {
            return Err("unexpected kind of edit".into());
        }
        let mut c: Vec<_> = e.changes.ok_or("no changes")?.into_iter().collect();
        if c.len() != 1 || c[0].0.as_str() != U {
            return Err(format!("edits of other documents: {c:?}"));
        }
        out.push((a.title, a.kind.map(|k| k.as_str().to_string()).unwrap_or_default(), c.pop().unwrap().1));
    }
    Ok(out)
}
fn only(s: &Svc, r: Range, kinds: &[CodeActionKind]) -> Option<CodeActionResponse> {
    s.s.code_action(CodeActionParams {
        text_document: tdi(U),
        range: r,
        context: CodeActionContext { only: Some(kinds.to_vec()), ..Default::default() },
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
    })
}
fn check_only(s: &Svc, r: Range, all: &[(String, String, Vec<TextEdit>)]) -> Result<(), String> {
    for kinds in [vec![CodeActionKind::QUICKFIX], vec![CodeActionKind::REFACTOR_REWRITE], vec![CodeActionKind::QUICKFIX, CodeActionKind::REFACTOR_REWRITE], vec![CodeActionKind::REFACTOR_EXTRACT], vec![]] {
        let got = actions(only(s, r, &kinds))?;
        let want: Vec<_> = all.iter().filter(|a| kinds.iter().any(|k| k.as_str() == a.1)).cloned().collect();
        if got != want {
            return Err(format!("restricted to {kinds:?} expected {want:?} got {got:?}"));
        }
    }
    Ok(())
}

fn wellformed(src: &str, r: &mut Rec) -> Result<(), String> {
    doc_of(src)?;
    let toks = refwat::lex(src);
    let before = meaning(src)?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    // headers, and lists of neighbouring headers
    let mut headers: Vec<Span> = vec![];
    let mut split: Vec<(Span, Vec<Span>, String, String)> = vec![]; // form, tokens, title, replacement
    let mut join: Vec<(Span, String)> = vec![];
    fn walk(src: &str, x: &Sx, headers: &mut Vec<Span>, split: &mut Vec<(Span, Vec<Span>, String, String)>, join: &mut Vec<(Span, String)>) {
        let Sx::L { items, .. } = x else { return };
        for (i, y) in items.iter().enumerate() {
            if let Some((kw, types)) = header(src, y) {
                headers.push(y.sp());
                if types.len() > 1 {
                    let title = match kw {
                        "param" => "Split parameters",
                        "result" => "Split results",
                        _ => "Split locals",
                    };
                    let Sx::L { items, .. } = y else { return };
                    split.push((y.sp(), items.iter().map(|t| t.sp()).collect(), title.into(), types.iter().map(|t| format!("({kw} {t})")).collect::<Vec<_>>().join(" ")));
                }
                let mut all = types.clone();
                for z in &items[i + 1..] {
                    match header(src, z) {
                        Some((k, t)) if k == kw && kw == "param" => all.extend(t),
                        _ => break,
                    }
                    if all.len() > 1 {
                        join.push((Span::new(y.sp().s, z.sp().e), format!("(param {})", all.join(" "))));
                    }
                }
            }
            walk(src, y, headers, split, join);
        }
    }
    for x in read(&toks)? {
        walk(src, &x, &mut headers, &mut split, &mut join);
    }
    // ranges: all pairs of token boundaries, and the middle of tokens
    let mut ps: Vec<usize> = toks.iter().flat_map(|t| [t.sp.s, t.sp.e]).collect();
    for t in &toks {
        if t.sp.e - t.sp.s > 1 && src.is_char_boundary(t.sp.s + 1) {
            ps.push(t.sp.s + 1);
        }
    }
    ps.sort();
    ps.dedup();
    let comment_in = |sp: Span| toks.iter().any(|t| sp.contains(t.sp) && matches!(t.k, TK::LineC | TK::BlockC));
    for (i, &a) in ps.iter().enumerate() {
        for &b in &ps[i..] {
            r.step();
            let rg = Span::new(a, b);
            let got = actions(s.code_action(U, l.range(rg)))?;
            let at = || format!("range {a}..{b} `{}`", &src[a..b]);
            for (title, kind, edits) in &got {
                r.outcome(&(title, edits.first().map(|e| e.new_text.clone())));
                let t = apply_edits(src, edits).map_err(|e| format!("{} {title}: {e}", at()))?;
                doc_of(&t).map_err(|e| format!("{} {title} yields a malformed document: {e}: {t}", at()))?;
                let after = meaning(&t)?;
                if after.0 != before.0 {
                    return Err(format!("{} {title} changes the meaning: {t}", at()));
                }
                if after.1 != before.1 {
                    return Err(format!("{} {title} loses comments: {t}", at()));
                }
                let want = match title.as_str() {
                    "Split parameters" | "Split results" | "Split locals" => split.iter().filter(|x| x.0.contains(rg) && x.2 == *title).map(|x| (x.0, x.3.clone())).collect::<Vec<_>>(),
                    "Join parameters" => join.iter().filter(|x| rg.contains(x.0)).cloned().chain(headers.iter().filter(|x| rg.contains(**x)).map(|x| (*x, x.text(src).to_string()))).collect(),
                    t => return Err(format!("{} unexpected action {t}", at())),
                };
                if kind != "refactor.rewrite" {
                    return Err(format!("{} {title} is a {kind}", at()));
                }
                let norm = |t: &str| sig_tokens(t);
                if !want.iter().any(|(sp, n)| {
                    let mut w = src.to_string();
                    w.replace_range(sp.s..sp.e, n);
                    norm(&w) == norm(&t)
                }) {
                    return Err(format!("{} {title} yields {t}", at()));
                }
            }
            // what has to be offered
            for (sp, parts, title, _) in &split {
                if comment_in(*sp) || !(sp.s < a && b < sp.e) {
                    continue;
                }
                let _ = parts;
                if got.iter().filter(|g| g.0 == *title).count() != 1 {
                    return Err(format!("{} {title} not offered: {got:?}", at()));
                }
            }
            if let Some(x) = join.iter().find(|x| x.0 == rg) {
                if !comment_in(x.0) && got.iter().filter(|g| g.0 == "Join parameters").count() != 1 {
                    return Err(format!("{} Join parameters not offered: {got:?}", at()));
                }
            }
            if !got.is_empty() || a == b {
                check_only(&s, l.range(rg), &got).map_err(|e| format!("{} {e}", at()))?;
            }
        }
    }
    Ok(())
}

/// params: [1, start of the gap region, end of it, well-formed repair exists]: texts = [document, document without the white space]
fn memarg(c: &Case, r: &mut Rec) -> Result<(), String> {
    let (src, fixed) = (&c.texts[0], &c.texts[1]);
    doc_of(fixed).map_err(|e| format!("{HARNESS}{e}"))?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    let white = |t: &str| t.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let (ms, me) = (c.params[1] as usize, c.params[2] as usize);
    for a in 0..=src.len() {
        if !src.is_char_boundary(a) {
            continue;
        }
        r.step();
        let rg = l.range(Span::new(a, a));
        let got = actions(s.code_action(U, rg))?;
        for (title, kind, edits) in &got {
            r.outcome(&title);
            if title != "Fix invalid memory argument" || kind != "quickfix" {
                return Err(format!("at {a}: unexpected action {title} {kind}"));
            }
            let t = apply_edits(src, edits).map_err(|e| format!("at {a} {title}: {e}"))?;
            if white(&t) != white(src) {
                return Err(format!("at {a} {title} changes more than white space: {t}"));
            }
            let (x, y) = (crate::refwat::lex(&t), crate::refwat::lex(fixed));
            let texts = |x: &[Tok], t: &str| x.iter().filter(|k| !k.trivia()).map(|k| k.sp.text(t).to_string()).collect::<Vec<_>>();
            if texts(&x, &t) != texts(&y, fixed) {
                return Err(format!("at {a} {title} yields {t}, expected {fixed}"));
            }
        }
        check_only(&s, rg, &got).map_err(|e| format!("at {a} {e}"))?;
        if c.params[3] == 1 && ms < a && a < me && got.len() != 1 {
            return Err(format!("at {a}: no fix is offered"));
        }
        if src == fixed && !got.is_empty() {
            return Err(format!("at {a}: a fix is offered for a valid memory argument"));
        }
    }
    Ok(())
}

fn c17_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    match c.params.first() {
        Some(1) => memarg(c, r),
        _ => wellformed(&c.texts[0], r),
    }
}

fn c17_cases(tier: Tier, emit: Emit) {
    crate::ladder::ladder(tier, &mut |sp, t| {
        if (t.contains("(param") || t.contains("(result") || t.contains("(local")) && t.len() < tier.pick(220, 600) {
            emit(Case::doc(sp, t));
        }
    });
    for f in FIELDS {
        emit(Case::doc("fields", format!("(module {f})")));
        if f.contains("(param") || f.contains("(result") || f.contains("(local") {
            for st in 0..LAYOUTS {
                emit(Case::doc("fields-layout", layout(&format!("(module {f})"), st)));
            }
        }
    }
    // headers
    let hs: &[&str] = &["(param)", "(param i32)", "(param i32 i64)", "(param $x f32)", "(param f64 v128 funcref)", "(result i32)", "(result f32 f64)"];
    let ls: &[&str] = &["(local i32)", "(local i64 f32)", "(local $l i32)", "(local)"];
    let seps: &[&str] = &["", " ", "\n", "(;c;)", " ;; \u{1F600}\n"];
    let frames: &[&str] = &["(type (func @))", "(func @)", "(func (type 0) @)", "(import \"\" \"\" (func @))", "(func (block @))", "(func (block $b (type 0) @ nop))", "(func loop @ nop end)", "(func (if @ (then)))", "(func call_indirect (type 0) @)", "(func (call_indirect (type 0) @ (i32.const 0)))"];
    let mut seqs = vec![];
    sequences_upto(hs, tier.pick(3, 4), &mut |s| {
        // params precede results
        let p = s.iter().position(|x| x.contains("result")).unwrap_or(s.len());
        if s[p..].iter().all(|x| x.contains("result")) {
            seqs.push(s.to_vec());
        }
    });
    for (i, q) in seqs.iter().enumerate() {
        for (j, f) in frames.iter().enumerate() {
            if !f.starts_with("(type") && !f.starts_with("(func @") && !f.starts_with("(import") && q.iter().any(|x| x.contains('$')) {
                continue;
            }
            let sep = if q.len() < 3 { seps.len() } else { 1 };
            for k in 0..sep {
                emit(Case::doc("headers", format!("(module {})", f.replace('@', &q.join(seps[(i + j + k) % seps.len()])))));
            }
        }
    }
    // comments within a form
    for f in frames {
        for h in ["(param i32 i64)", "(param i32) (param f32)", "(result i32 i64)", "(param i32 i64) (param f32) (result f32 f64)"] {
            let t = sig_tokens(h);
            for i in 0..t.len() {
                for c in ["(;c;)", " ;; c\n", "\n"] {
                    let text = join_with(&t, min_sep, &[(i, c)]);
                    emit(Case::doc("headers-comments", format!("(module {})", f.replace('@', &text))));
                }
            }
        }
    }
    for (i, q) in { let mut v = vec![]; sequences_upto(ls, 3, &mut |s| v.push(s.to_vec())); v }.iter().enumerate() {
        for p in ["", "(param i32 i64)", "(param $x i32) (result f32 f64)"] {
            emit(Case::doc("locals", format!("(module (func {p} {} nop))", q.join(seps[i % seps.len()]))));
        }
    }
    // memory arguments
    let ops: &[(&str, &str)] = &[("i32.load", ""), ("i64.store8", ""), ("v128.load8_lane", " 3"), ("v128.store16_lane", " 0x1"), ("v128.load32_splat", "")];
    let gaps: &[&str] = &["", " ", "\n", "  \t", " (;c;) "];
    for (op, tail) in ops {
        for frame in ["(module (func @))", "(module (func (@)))", "(module (func @ drop))", "(module (func (@ (i32.const 0) (i32.const 1))))", "(module (func i32.const 0 @ i32.const 2))"] {
            for other in ["", "offset=4 ", " align=8", "align =8"] {
                for kw in ["offset", "align"] {
                    if other.contains(kw) || other.starts_with('o') && kw == "offset" {
                        continue;
                    }
                    for n in ["1", "16", "0x10", "1_0"] {
                        for g in gaps {
                            for h in gaps {
                                let arg = format!("{kw}{g}={h}{n}");
                                let white = |s: &str| !s.contains('c');
                                let fixable = white(g) && white(h);
                                if !fixable && (n != "1" || !other.is_empty()) {
                                    continue;
                                }
                                // only one argument is fixed at a time, the first one
                                let (pre, post) = if other.starts_with('o') { (other, "") } else { ("", other) };
                                if other == "align =8" && (kw == "align" || fixable && g.is_empty() && h.is_empty()) {
                                    continue;
                                }
                                let post2 = if other.is_empty() { String::new() } else { format!(" {}", post.trim()) };
                                let whole = format!("{op} {pre}{arg}{post2}{tail}");
                                let good = format!("{op} {pre}{kw}={n}{post2}{tail}");
                                let src = frame.replace('@', &whole);
                                let at = src.find(&whole).unwrap() + op.len() + 1 + pre.len();
                                if other == "align =8" || !fixable {
                                    // nothing is claimed about what is offered, only about what it does
                                    continue;
                                }
                                let dec = n.chars().all(|c| c.is_ascii_digit());
                                emit(Case::new("memarg", vec![src.clone(), frame.replace('@', &good)], vec![1, at as i64, (at + arg.len()) as i64, (dec && frame.contains("(@") && !(g.is_empty() && h.is_empty())) as i64]));
                            }
                        }
                    }
                }
            }
        }
    }
    let mut n = 0;
    nav_docs(Tier::Quick, &mut |c| {
        n += 1;
        if tier.thorough() && n % 8 == 0 && !c.space.starts_with("ladder") || n % 64 == 0 && !c.space.starts_with("ladder") || c.space == "modules" {
            emit(Case::doc(&c.space, c.texts[0].clone()));
        }
    });
}
pub static C17: Property = Property { id: "C17", cases: c17_cases, check: c17_check, bounds: |t| format!("all header sequences of <= {} of 7 param/result forms in 10 frames with 5 separators, comments in every gap, local lists of <= 3, memory arguments; every range", t.pick(3, 4)) };

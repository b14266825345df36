//! C12: hover.
use crate::engine::*;
use crate::gen::*;
use crate::nav::*;
use crate::ops;
use crate::refwat::*;
use crate::svc::*;
use crate::view::*;
use lsp_types::*;

fn marked(v: &MarkedString) -> Result<String, String> {
    match v {
        MarkedString::LanguageString(l) if l.language == "wat" => Ok(l.value.clone()),
        x => Err(format!("not a wat snippet: {x:?}")),
    }
}
/// the shown snippets or markdown; an empty answer is no answer
fn shown(h: &Option<Hover>) -> Result<Option<Vec<String>>, String> {
    let Some(h) = h else { return Ok(None) };
    let v = match &h.contents {
        HoverContents::Scalar(s) => vec![marked(s)?],
        HoverContents::Array(a) => a.iter().map(marked).collect::<Result<_, _>>()?,
        HoverContents::Markup(m) if m.kind == MarkupKind::Markdown => {
            if m.value.is_empty() {
                vec![]
            } else {
                vec![m.value.clone()]
            }
        }
        x => return Err(format!("{x:?}")),
    };
    Ok(if v.is_empty() { None } else { Some(v) })
}

/// The `;;;` comments right before a form, other line comments between them and the form aside.
fn doc_comment(d: &Doc, form: Span) -> String {
    let k = d.toks.iter().position(|t| t.sp.s == form.s).unwrap();
    let mut lines: Vec<&str> = vec![];
    for t in d.toks[..k].iter().rev() {
        match t.k {
            TK::Ws => continue,
            TK::LineC => {
                let text = d.text(t.sp);
                match text.strip_prefix(";;;") {
                    Some(x) => lines.push(x.strip_prefix([' ', '\t']).unwrap_or(x)),
                    None if lines.is_empty() => continue,
                    None => break,
                }
            }
            _ => break,
        }
    }
    lines.reverse();
    // empty lines at the end do not matter
    lines.join("\n").trim_end_matches('\n').to_string()
}
fn func_hover(d: &Doc, i: usize) -> String {
    let mut s = format!("```wat\n{}\n```", d.func_header(i));
    let doc = doc_comment(d, d.defs[i].span);
    if !doc.is_empty() {
        s.push_str("\n---\n");
        s.push_str(&doc);
    }
    s
}
fn global_hover(d: &Doc, i: usize) -> String {
    let x = &d.defs[i];
    let name = x.name.map(|n| format!(" {}", d.text(n))).unwrap_or_default();
    let ty = x.ty.clone().unwrap_or_default();
    if x.mutable {
        format!("(global{name} (mut {ty}))")
    } else {
        format!("(global{name} {ty})")
    }
}
fn type_hover(d: &Doc, i: usize) -> String {
    let x = &d.defs[i];
    let name = x.name.map(|n| format!(" {}", d.text(n))).unwrap_or_default();
    let sig = Doc::sig_text(&x.sig.clone().unwrap_or_default());
    if sig.is_empty() {
        format!("(type{name} (func))")
    } else {
        format!("(type{name} (func {sig}))")
    }
}
fn local_hover(d: &Doc, i: usize) -> String {
    let x = &d.locals[i];
    let name = x.name.map(|n| format!(" {}", d.text(n))).unwrap_or_default();
    format!("({}{name} {})", if x.is_param { "param" } else { "local" }, x.ty)
}
fn def_hover(d: &Doc, i: usize) -> Option<Vec<String>> {
    match d.defs[i].space {
        Space::Func => Some(vec![func_hover(d, i)]),
        Space::Global => Some(vec![global_hover(d, i)]),
        Space::Type => Some(vec![type_hover(d, i)]),
        _ => None,
    }
}
enum Want {
    Exact(Option<Vec<String>>),
    /// the snippet, then a description
    Described(String),
    Open,
}
fn expected(d: &Doc, tok: Span, leaf: &str) -> Want {
    use Want::*;
    let text = d.text(tok);
    if let Some(x) = d.refs.iter().find(|x| x.tok == tok) {
        let defs = d.resolve(x);
        if defs.is_empty() {
            return Exact(None);
        }
        return Exact(match x.space {
            Space::Func => Some(vec![defs.iter().map(|i| func_hover(d, *i)).collect::<Vec<_>>().join("\n---\n")]),
            Space::Type => Some(defs.iter().map(|i| type_hover(d, *i)).collect()),
            Space::Global => Some(defs.iter().map(|i| global_hover(d, *i)).collect()),
            _ => None,
        });
    }
    if let Some(x) = d.local_refs.iter().find(|x| x.tok == tok) {
        return Exact(match d.resolve_local(x) {
            Local::Def(i) => Some(vec![local_hover(d, i)]),
            Local::FromType(t) => Some(vec![format!("(param {t})")]),
            Local::None => None,
        });
    }
    match leaf {
        "IDENT" => {
            if let Some(i) = d.defs.iter().position(|x| x.name == Some(tok)) {
                return Exact(def_hover(d, i));
            }
            if let Some(i) = d.locals.iter().position(|x| x.name == Some(tok)) {
                return Exact(Some(vec![local_hover(d, i)]));
            }
            Exact(None)
        }
        "KEYWORD" => {
            if let Some(i) = d.defs.iter().position(|x| x.kw == tok) {
                return Exact(def_hover(d, i));
            }
            if let Some(i) = d.locals.iter().position(|x| x.name.is_some() && x.node.contains(tok)) {
                return Exact(Some(vec![local_hover(d, i)]));
            }
            Exact(None)
        }
        "NUM_TYPE" | "VEC_TYPE" | "REF_TYPE" => Described(format!("```wat\n{text}\n```\n\n")),
        "INSTR_NAME" => match ops::op(text) {
            Some(o) if text == "select" => {
                // the opcode of select depends on whether it has a type
                let p = d.plains.iter().find(|p| p.name == tok).unwrap();
                if p.ops.iter().any(|o| matches!(o, Opd::TypeUse(_))) {
                    Open
                } else {
                    Exact(Some(vec![format!("```wat\n{text}\n```\nBinary Opcode: {}", o.code)]))
                }
            }
            Some(o) => Exact(Some(vec![format!("```wat\n{text}\n```\nBinary Opcode: {}", o.code)])),
            None if ops::CONTROL.contains(&text) => Open,
            None => Exact(None),
        },
        _ => Exact(None),
    }
}
fn c12_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let mut d = doc_of(src)?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    let leaves: std::collections::HashMap<Span, &'static str> = d.expected_leaves().map_err(|e| format!("{HARNESS}{e}"))?.into_iter().map(|(k, s)| (s, k)).collect();
    let dups = dup_locals(&d);
    with_quirks(&mut d, r, &[0, 1], |d, r| {
        for off in cursor_offsets(d) {
            r.step();
            let h = s.hover(U, l.pos(off));
            let got = shown(&h)?;
            r.outcome(&got);
            let Some(t) = d.cursor(off).filter(|t| !t.trivia() && !matches!(t.k, TK::L | TK::R)) else {
                if h.is_some() {
                    return Err(format!("hover at offset {off}, where there is no word: {h:?}"));
                }
                continue;
            };
            if let Some(h) = &h {
                if h.range.and_then(|x| l.span(x)) != Some(t.sp) {
                    return Err(format!("hover of `{}` at {off} claims the range {:?}", d.text(t.sp), h.range));
                }
            }
            if dups && d.local_refs.iter().any(|x| x.tok == t.sp) {
                continue;
            }
            match expected(d, t.sp, leaves.get(&t.sp).copied().unwrap_or("")) {
                Want::Open => {}
                Want::Exact(e) => {
                    if got != e {
                        return Err(format!("hover of `{}` at offset {off}: expected {e:?}, got {got:?}", d.text(t.sp)));
                    }
                }
                Want::Described(p) => {
                    if !got.as_ref().is_some_and(|g| g.len() == 1 && g[0].len() > p.len() && g[0].starts_with(&p)) {
                        return Err(format!("hover of the type `{}` at offset {off}: {got:?}", d.text(t.sp)));
                    }
                }
            }
        }
        Ok(())
    })
}
fn c12_cases(tier: Tier, emit: Emit) {
    nav_docs(tier, emit);
    // every instruction
    for o in ops::table().iter().map(|o| o.name.as_str()).chain(ops::CONTROL.iter().copied()).chain(["foo", "i32.nope", "i31.get_s"]) {
        emit(Case::doc("instructions", format!("(module (func {o} ({o})))")));
    }
    // type definitions of every shape
    for p in ["", "(param i32)", "(param $x i32)", "(param i32 f64)", "(param)", "(param $x i32) (param f32)"] {
        for q in ["", "(result i64)", "(result i64 f32)", "(result f32) (result v128)", "(result)"] {
            for n in ["", "$t"] {
                emit(Case::doc("types", format!("(module (type {n} (func {p} {q})) (func $f (type 0)) (func (type $t) call_indirect (type $t)) (import \"\" \"\" (func (type 0))) (func {p} {q}) (func call $f call 3))")));
            }
        }
    }
    // signatures
    let sigs = ["", "(param i32)", "(param $x f32)", "(param i32 f64) (result i64)", "(result v128 funcref)", "(param $x i32) (param $y i64) (param externref) (result f32) (result f64)", "(param) (result)", "(type $t)", "(type 0)", "(type $t) (param i32) (result f32)", "(type $no)"];
    let shells = ["(func@ ^)", "(func@ (export \"e\") ^)", "(func@ (import \"\" \"\") ^)", "(import \"\" \"\" (func@ ^))", "(func@ ^ (local $l i32) local.get 0 local.get $l)"];
    let uses = "(func $u call $f (call 0) ref.func $f call 1) (start $f) (export \"\" (func 1)) (elem func $f 0)";
    for sig in sigs {
        for sh in shells {
            for name in ["", "$f"] {
                let f = named(&sh.replace('^', sig), name);
                for t in ["", "(type $t (func))", "(type $t (func (param i32) (param $p f32 ) (result i64)))"] {
                    for l in 0..LAYOUTS {
                        if tier.thorough() || l == 0 || (sig.len() + t.len()) % LAYOUTS == l {
                            emit(Case::doc("signatures", layout(&format!("(module {t} {f} {uses})"), l)));
                            emit(Case::doc("signatures", layout(&format!("(module {f} {t} {uses} (func $f (param i32)))"), l)));
                        }
                    }
                }
            }
        }
    }
    let tys = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];
    for t in tys {
        for g in ["(global $g @ (nop))", "(global $g (mut @) (nop))", "(global (mut @) (nop))", "(global $g (import \"\" \"\") @)", "(import \"\" \"\" (global $g (mut @)))", "(import \"\" \"\" (global @))"] {
            emit(Case::doc("globals", format!("(module (func $f (param $p {t}) (local $l {t}) (local {t}) global.get $g (global.set 0 (local.get 1)) local.get $p local.get $l (local.tee 2)) {} (export \"\" (global $g)) (global $h i32 (global.get $g)))", g.replace('@', t))));
        }
    }
    // doc comments: every sequence of pieces before and behind functions
    let pieces = [";;; a\n", ";;;b  \n", ";;;\n", ";;;\tc;;;\r\n", ";; d\n", ";;;; e\n", "(; f ;)", "\n\n", "(type (func))", "(func $g)", " "];
    sequences_upto(&pieces, tier.pick(3, 5), &mut |s| {
        let p = s.concat();
        emit(Case::doc("doc-comments", format!("(module {p}(func $f (param i32)) ;;; z\n (func $h call $f call 0))")));
        if s.len() < 4 {
            emit(Case::doc("doc-comments", format!("(module (func call $f) {p} (import \"\" \"\" (func $f)))")));
            if p.contains("(func") || p.contains("(type") {
                return;
            }
            emit(Case::doc("doc-comments", format!("(module (import \"\" \"\" {p} (func $f)) {p} (func $f call $f))")));
            emit(Case::doc("doc-comments", format!("(module (func call $f) (func {p} $f {p}) {p})")));
        }
    });
    // every character at the ends and in the middle of a doc comment
    for c in (0x20..0x250u32).chain([9, 0xb, 0xc, 0x85, 0x2003, 0x2028, 0x2029, 0x3000, 0xfeff, 0x1f600]).filter_map(char::from_u32) {
        for t in [format!("{c}x"), format!("x{c}"), format!("x{c}y"), format!("{c}"), format!(" {c}{c}"), format!(" x {c} "), format!("{c};; x")] {
            emit(Case::doc("doc-text", format!("(module\n;;;{t}\n(func $f call $f))")));
            emit(Case::doc("doc-text", format!("(module\n;;; a\n;;;{t}\n;;; b\n(func $f))")));
        }
    }
    // layouts of every production
    for f in FIELDS {
        for l in 1..LAYOUTS {
            emit(Case::doc("layouts", layout(&format!("(module (type $t (func (param i32))) {f} (func $f (param $x i32)) (global $g i32 (nop)))"), l)));
        }
    }
}
pub static C12: Property = Property { id: "C12", cases: c12_cases, check: c12_check, bounds: |t| format!("{} productions, definitions x uses, all doc-comment arrangements of <= {} of 11 pieces, every instruction name; every offset", crate::gen::FIELDS.len(), t.pick(3, 5)) };

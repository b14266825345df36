//! C13: completion.
use crate::engine::*;
use crate::gen::*;
use crate::nav::*;
use crate::refwat::*;
use crate::svc::*;
use crate::view::*;
use lsp_types::*;

/// (label, text to insert, kind, detail)
type Item = (String, Option<String>, CompletionItemKind, Option<String>);
fn items(r: Option<CompletionResponse>) -> Result<Vec<Item>, String> {
    Ok(match r {
        None => vec![],
        Some(CompletionResponse::Array(v)) => v
            .into_iter()
            .map(|i| {
                let doc = match i.documentation {
                    Some(Documentation::MarkupContent(m)) => Some(m.value),
                    Some(Documentation::String(s)) => Some(s),
                    None => None,
                };
                (i.label, i.insert_text, i.kind.unwrap_or(CompletionItemKind::TEXT), i.label_details.and_then(|d| d.description).or(doc))
            })
            .collect(),
        Some(x) => return Err(format!("{x:?}")),
    })
}
const SYMBOLS: [CompletionItemKind; 3] = [CompletionItemKind::VARIABLE, CompletionItemKind::FUNCTION, CompletionItemKind::INTERFACE];

fn item(name: Option<&str>, num: u32, dollar: bool, kind: CompletionItemKind, detail: Option<String>) -> Option<Item> {
    match (name, dollar) {
        (Some(n), true) => Some((n.to_string(), Some(n[1..].to_string()), kind, detail)),
        (None, true) => None,
        (Some(n), false) => Some((n.to_string(), None, kind, detail)),
        (None, false) => Some((num.to_string(), None, kind, detail)),
    }
}
/// what is to be offered for the operand `tok` if the text before the cursor starts with `$` or not
fn expected(d: &Doc, tok: Span, dollar: bool) -> Option<Vec<Item>> {
    if let Some(x) = d.refs.iter().find(|x| x.tok == tok) {
        let kind = match x.space {
            Space::Func => CompletionItemKind::FUNCTION,
            Space::Type => CompletionItemKind::INTERFACE,
            _ => CompletionItemKind::VARIABLE,
        };
        return Some(
            d.defs
                .iter()
                .enumerate()
                .filter(|(_, f)| f.module == x.module && f.space == x.space)
                .filter_map(|(i, f)| {
                    let detail = match x.space {
                        Space::Func => Some(format!("```wat\n{}\n```", d.func_header(i))),
                        Space::Global => f.ty.clone(),
                        _ => None,
                    };
                    item(d.name_of(f), if d.quirks.shared_index { f.shared } else { f.index }, dollar, kind, detail)
                })
                .collect(),
        );
    }
    if let Some(x) = d.local_refs.iter().find(|x| x.tok == tok) {
        let mut v: Vec<Item> = vec![];
        if !dollar {
            v.extend(d.type_params(x.func).iter().enumerate().filter_map(|(i, t)| item(None, i as u32, false, CompletionItemKind::VARIABLE, Some(t.clone()))));
        }
        v.extend(d.locals.iter().filter(|l| l.func == x.func).filter_map(|l| item(l.name.map(|n| d.text(n)), d.local_index(l), dollar, CompletionItemKind::VARIABLE, Some(l.ty.clone()))));
        return Some(v);
    }
    if let Some(x) = d.block_refs.iter().find(|x| x.tok == tok) {
        return Some(x.chain.iter().enumerate().filter_map(|(i, b)| item(d.blocks[*b].label.map(|n| d.text(n)), i as u32, dollar, CompletionItemKind::VARIABLE, None)).collect());
    }
    None
}
const TYPES: [&str; 7] = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];

/// beginnings of operands that are no tokens
const PARTIAL: [&str; 4] = ["$", "0x", "0_", "0x0_"];
/// instructions of WebAssembly 1.0 that are written without dot
const PLAIN: [&str; 15] = ["unreachable", "nop", "block", "loop", "if", "else", "end", "br", "br_if", "br_table", "return", "call", "call_indirect", "drop", "select"];
/// instructions of WebAssembly 1.0
fn is_mvp(name: &str) -> bool {
    if PLAIN.contains(&name) {
        return true;
    }
    let Some((_, op)) = name.split_once('.') else { return false };
    let code = crate::ops::op(name).map(|o| o.code.as_str());
    match code {
        Some(c) => !c.contains(' ') && !op.starts_with("extend8") && !op.starts_with("extend16") && op != "extend32_s" && !name.starts_with("ref.") && !name.starts_with("table."),
        None => false,
    }
}

fn c13_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let uses_only = c.params.first() == Some(&1);
    let mut d = doc_of(src)?;
    let leaves: Vec<(&'static str, Span)> = d
        .expected_leaves()
        .map_err(|e| format!("{HARNESS}{e}"))?
        .into_iter()
        .filter(|l| !matches!(l.0, "WHITESPACE" | "LINE_COMMENT" | "BLOCK_COMMENT"))
        .collect();
    // (token, bytes before the cursor, kind, may as well belong to something else, among instructions, is being typed, in a constant expression, answer)
    let mut answers: Vec<(Span, usize, &'static str, bool, bool, bool, bool, Vec<Item>)> = vec![];
    let s = Svc::open(src);
    let l = Lines::new(src);
    let mut flat = false;
    // per open form whether it contains instructions already, is one or the description of an import or export
    let mut forms: Vec<bool> = vec![];
    let mut konst = false;
    for (n, &(leaf, sp)) in leaves.iter().enumerate() {
        let text = d.text(sp).to_string();
        match leaf {
            "L_PAREN" => forms.push(forms.last() == Some(&true) || n > 0 && leaves[n - 1].0 == "STRING"),
            "R_PAREN" => {
                forms.pop();
            }
            "INSTR_NAME" => {
                if let Some(f) = forms.last_mut() {
                    *f = true
                }
            }
            "KEYWORD" if matches!(&*text, "block" | "loop" | "if") => {
                if let Some(f) = forms.last_mut() {
                    *f = true
                }
            }
            _ => {}
        }
        if leaf == "KEYWORD" && forms.len() == 2 && leaves[n - 1].0 == "L_PAREN" {
            konst = matches!(&*text, "global" | "data" | "elem");
        }
        let instrs = forms.last() == Some(&true) && !(leaf == "KEYWORD" && n > 1 && leaves[n - 2].0 == "STRING");
        if leaf == "INSTR_NAME" {
            flat = n > 0 && leaves[n - 1].0 != "L_PAREN";
        } else if leaf == "KEYWORD" {
            flat = n == 0 || leaves[n - 1].0 != "L_PAREN" || matches!(&*text, "elem" | "offset" | "item");
        }
        let open = flat || n > 0 && matches!(leaves[n - 1].0, "R_PAREN" | "IDENT" | "INT" | "UNSIGNED_INT");
        if matches!(leaf, "L_PAREN" | "R_PAREN") || uses_only && expected(&d, sp, false).is_none() {
            continue;
        }
        // in the complete document
        for (i, _) in text.char_indices().skip(1).chain([(text.len(), ' ')]) {
            if expected(&d, sp, false).is_some() {
                answers.push((sp, i, leaf, open, instrs, false, konst, items(s.completion(U, l.pos(sp.s + i)))?));
            }
        }
        // while it is being typed
        for k in 0..text.len() {
            if !text.is_char_boundary(k) || (k > 2 && k + 1 < text.len()) {
                continue;
            }
            let t = format!("{}{}{}", &src[..sp.s], &text[..k], &src[sp.e..]);
            let s = Svc::open(&t);
            answers.push((sp, k, leaf, open, instrs, true, konst, items(s.completion(U, Lines::new(&t).pos(sp.s + k)))?));
        }
    }
    with_quirks(&mut d, r, &[0, 1], |d, r| {
        for (sp, k, leaf, open, instrs, typing, konst, got) in &answers {
            r.step();
            let text = d.text(*sp);
            let ctx = || {
                let e = if *typing { sp.e } else { sp.s + k };
                let (mut a, mut b) = (sp.s.saturating_sub(12), (e + 8).min(src.len()));
                while !src.is_char_boundary(a) {
                    a -= 1;
                }
                while !src.is_char_boundary(b) {
                    b += 1;
                }
                format!("{} `{}|{}`", if *typing { "typing" } else { "complete" }, &src[a..sp.s + k], &src[e..b])
            };
            let syms: Vec<Item> = got.iter().filter(|i| SYMBOLS.contains(&i.2)).cloned().collect();
            r.outcome(&format!("{syms:?}"));
            // a parenthesis with nothing but blanks or comments behind it isn't taken as the beginning of an expression
            let apart = leaves.iter().rev().find(|l| l.1.e <= sp.s).is_some_and(|l| l.0 == "L_PAREN" && l.1.e < sp.s);
            if *typing && *k == 0 && *konst && !apart && *leaf == "INSTR_NAME" && is_mvp(text) && !got.iter().any(|i| i.0 == text) {
                return Err(format!("{leaf} not offered {} {:?}", ctx(), got.iter().map(|i| &i.0).take(8).collect::<Vec<_>>()));
            }
            if *open && (*k == 0 || *typing && syms.is_empty() && PARTIAL.contains(&&text[..*k])) {
                // without operand, the cursor is as well where the next instruction goes; and what isn't a token yet isn't an operand
                continue;
            }
            if let Some(e) = expected(d, *sp, *k > 0 && text.starts_with('$')) {
                if syms != e {
                    return Err(format!("{leaf} symbols {} expected {e:?}, got {syms:?}", ctx()));
                }
            } else if *k > 0 && !open && !syms.is_empty() {
                return Err(format!("{leaf} not a use {} got {syms:?}", ctx()));
            }
            if !typing || *k == 0 {
                continue;
            }
            let offered = got.iter().any(|i| i.0 == text);
            if !offered && (leaf.ends_with("_TYPE") && *leaf != "HEAP_TYPE" || *leaf == "INSTR_NAME" && is_mvp(text) || *leaf == "KEYWORD" && (!instrs && !matches!(text, "declare" | "item") || matches!(text, "block" | "loop" | "if" | "else" | "end"))) {
                return Err(format!("{leaf} not offered {} {:?}", ctx(), got.iter().map(|i| &i.0).take(8).collect::<Vec<_>>()));
            }
            if leaf.ends_with("_TYPE") && *leaf != "HEAP_TYPE" {
                let got: Vec<&str> = got.iter().map(|i| i.0.as_str()).collect();
                let all = *leaf != "REF_TYPE" || !got.contains(&"func");
                if TYPES[5..].iter().any(|t| !got.contains(t)) || all && got != TYPES && got != TYPES[5..] || *leaf != "REF_TYPE" && got != TYPES {
                    return Err(format!("{leaf} types {} {got:?}", ctx()));
                }
            }
        }
        Ok(())
    })
}
fn c13_cases(tier: Tier, emit: Emit) {
    for f in FIELDS {
        emit(Case::doc("fields", format!("(module {f})")));
    }
    for u in USES {
        for id in ["$a", "0", "$$a", "$$"] {
            if id.starts_with("$$") {
                let name = if id == "$$" { "$$$" } else { id };
                emit(Case::doc("uses-names", format!("(module (func {name}) {} (type {name} (func)) (global {name} i32 (nop)) (memory {name} 1) (table {name} 1 funcref))", u.replace('@', id))));
                continue;
            }
            emit(Case::doc("uses", format!("(module (func $a) {} (type $a (func)) (global $a i32 (nop)) (memory $a 1) (table $a 1 funcref))", u.replace('@', id))));
        }
    }
    for site in ["(module (func @))", "(module (func (@)))", "(module (func nop (block (@))))", "(module (func (if (@) (then (@)))))", "(module (func (drop (@))))", "(module (global i32 (@)))", "(module (data (offset @)))", "(module (elem funcref (item @)))"] {
        for o in crate::ops::table() {
            if is_mvp(&o.name) {
                emit(Case::doc("instructions", site.replace('@', &o.name)));
            }
        }
    }
    for site in ["(module (func (param @)))", "(module (func (param i32 @ f64)))", "(module (func (param $p @) (result f32 @) (local @) (local i64 @)))", "(module (type (func (param @) (result @ @))))", "(module (global @ (i32.const 0)) (global $g (mut @) (i32.const 0)))", "(module (import \"\" \"\" (global @)) (import \"\" \"\" (global (mut @))) (import \"\" \"\" (func (param @))))"] {
        for t in TYPES {
            emit(Case::doc("types", site.replace('@', t)));
        }
    }
    if tier.thorough() {
        for f in FIELDS {
            for style in 0..LAYOUTS {
                emit(Case::doc("fields-layout", layout(&format!("(module {f})"), style)));
            }
            for g in FIELDS {
                emit(Case::doc("fields-2", format!("(module {f} {g})")));
            }
        }
    }
    nav_docs(tier, &mut |mut c| {
        c.params = vec![1];
        emit(c)
    });
}
pub static C13: Property = Property { id: "C13", cases: c13_cases, check: c13_check, bounds: |t| format!("every operand site x every prefix of the operand being typed x module contexts, definitions x uses, growing documents (tier {:?})", t) };

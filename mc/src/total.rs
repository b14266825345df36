//! C20: positions count UTF-16 code units in every feature.
//! C22: no request crashes or answers with positions outside of the document.
use crate::engine::*;
use crate::gen::*;
use crate::inc::*;
use crate::nav::*;
use crate::svc::*;
use crate::view::*;
use lsp_types::*;

/// texts: the document with characters outside ASCII, and the same with ASCII characters of the same UTF-16 width
fn c20_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let (wide, ascii) = (&c.texts[0], &c.texts[1]);
    if wide.encode_utf16().count() != ascii.encode_utf16().count() || !ascii.is_ascii() || wide.is_ascii() {
        return Err(format!("{HARNESS}not a pair: {wide} {ascii}"));
    }
    // what the characters are replaced by; the rest of the answers has to be the same
    let mut pairs: Vec<(char, String)> = vec![];
    let mut a = ascii.chars();
    for w in wide.chars() {
        let x: String = a.by_ref().take(w.len_utf16()).collect();
        if !w.is_ascii() && !pairs.iter().any(|p| p.0 == w) {
            pairs.push((w, x));
        }
    }
    let (ps, qs) = (positions(wide), positions(ascii));
    if ps != qs {
        return Err(format!("{HARNESS}positions differ"));
    }
    let (mut s, mut t) = (Svc::with_tokens(), Svc::with_tokens());
    s.commit(U, wide);
    t.commit(U, ascii);
    let (x, y) = (answers(&s, U, wide, false), answers(&t, U, ascii, false));
    for (i, (x, y)) in x.into_iter().zip(y).enumerate() {
        r.step();
        if i == 6 || i == 7 {
            // the width of the line decides where the formatter breaks it; what is replaced has to be the same
            if x.split("\"newText\"").next() != y.split("\"newText\"").next() {
                return Err(format!("edits of document request {i}: {x}, but with ASCII characters {y}"));
            }
            continue;
        }
        let n = pairs.iter().fold(x.clone(), |x, (w, a)| x.replace(*w, a));
        r.outcome(&y);
        if n != y {
            let at = if i < DOC_REQUESTS { format!("document request {i}") } else { format!("request {} at {:?}", (i - DOC_REQUESTS) % POS_REQUESTS, ps[(i - DOC_REQUESTS) / POS_REQUESTS]) };
            return Err(format!("{at}: {x}, but with ASCII characters {y}"));
        }
    }
    Ok(())
}
fn c20_pair(space: &str, text: &str, pads: &[(&str, &str)], emit: Emit) {
    for (k, (w, a)) in pads.iter().enumerate() {
        emit(Case::new(space, vec![text.replace('\u{1}', w), text.replace('\u{1}', a)], vec![k as i64]));
    }
}
fn c20_cases(tier: Tier, emit: Emit) {
    // (two columns, two units), (one column, one unit), (two columns, one unit), (no column), several
    let pads: &[(&str, &str)] = &[("\u{1F600}", "xx"), ("é", "x"), ("中", "x"), ("e\u{301}", "ex"), ("é\u{1F600}中\u{10FFFF}", "xxxxxx")];
    let few = &pads[..tier.pick(1, 2)];
    let trivia: &[&str] = &["(;\u{1};)", " ;;\u{1}\n", "(;\u{1}\n\u{1};)"];
    for f in FIELDS {
        let doc = format!("(module {f})");
        // every string
        for t in crate::refwat::lex(&doc).iter().filter(|t| t.k == crate::refwat::TK::Str) {
            let mut d = doc.clone();
            d.insert(t.sp.s + 1, '\u{1}');
            c20_pair("string", &d, pads, emit);
        }
        // a comment in every gap
        let t = sig_tokens(&doc);
        for i in 0..=t.len() {
            for (k, c) in trivia.iter().enumerate() {
                if k > 0 && !tier.thorough() && i % 3 != k {
                    continue;
                }
                c20_pair("comment", &join_with(&t, min_sep, &[(i, c)]), if k == 0 { pads } else { few }, emit);
            }
        }
        for st in 3..5 {
            let l = layout(&doc, st).replace("\u{1F600}", "\u{1}").replace('é', "\u{1}");
            c20_pair("layout", &l, pads, emit);
        }
    }
    // so many of them before, between and behind the tokens of a line
    for n in crate::ladder::sizes(tier) {
        let p = "\u{1}".repeat(n);
        c20_pair("many", &format!("(module (func $f (;{p};) call $f) (start $f))"), pads, emit);
        c20_pair("many", &format!("(module{} (func $f call $f) (start $f))", format!("(;{p};)\n").repeat(n.min(9))), few, emit);
        c20_pair("many", &format!("(module (func $f {}))", "(;\u{1};) call $f ".repeat(n)), few, emit);
        c20_pair("many", &format!("(module (export \"{p}\" (func $f)) (func $f {}))", format!("\n(;\u{1};)SPcall $f").replace("SP", &" ".repeat(n))), pads, emit);
    }
    let mut n = 0;
    nav_docs(Tier::Quick, &mut |c| {
        n += 1;
        if tier.thorough() && n % 8 == 0 || n % 48 == 0 && !c.space.starts_with("ladder") || c.space == "modules" {
            let l = layout(&c.texts[0], 3 + n / 48 % 2).replace("\u{1F600}", "\u{1}").replace('é', "\u{1}");
            // (texts without a wide character in this layout make no pair)
            if l.contains('\u{1}') {
                c20_pair(&c.space, &l, few, emit);
            }
        }
    });
    // malformed documents
    for f in ["(module (func \"\u{1}\" $a call $b))", "(module (func $a call (;\u{1};)))", "(;\u{1};)(module (func $a call $b", "(module (func \"\u{1}\" $a call $a) (start $b))", "(module (fu(;\u{1};)nc $a call $a) (start $b))", "(module (func $ call $ i32.add) (start $b) \"\u{1}\") (; \u{1} ;) )", "(module (func (;\u{1};) i32.load offset = 1))"] {
        c20_pair("malformed", f, pads, emit);
    }
}
pub static C20: Property = Property { id: "C20", cases: c20_cases, check: c20_check, bounds: |t| format!("documents of C07/C10/C15 with wide characters in every gap, line and string, against ASCII of the same UTF-16 length; every request at every position (tier {:?})", t) };

/// every "line"/"character" pair of an answer
fn answer_positions(a: &str) -> Vec<Position> {
    let mut v = vec![];
    for (i, m) in a.match_indices("\"line\":") {
        let rest = &a[i + m.len()..];
        let n = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
        let Some(rest2) = rest[n..].strip_prefix(",\"character\":") else { continue };
        let k = rest2.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest2.len());
        if let (Ok(l), Ok(c)) = (rest[..n].parse(), rest2[..k].parse()) {
            v.push(Position::new(l, c));
        }
    }
    v
}
fn c22_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    if c.space.starts_with("stale") {
        return c22_stale(c, r);
    }
    let text = &c.texts[0];
    let l = Lines::new(text);
    let mut s = Svc::with_tokens();
    s.commit(U, text);
    let step = |inside: bool, what: String, f: &mut dyn FnMut() -> String, r: &mut Rec| -> Result<(), String> {
        r.step();
        let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| format!("{what} panics: {}", panic_text(e)))?;
        if !inside {
            return Ok(());
        }
        for p in answer_positions(&a) {
            if l.off(p).is_none() {
                return Err(format!("{what}: position {p:?} in the answer is outside of the document: {a}"));
            }
        }
        r.outcome(&a);
        Ok(())
    };
    for spaces in [true, false] {
        step(true, format!("formatting with tab size 0, spaces {spaces}"), &mut || serde_json::to_string(&s.formatting(U, fopts(0, spaces))).unwrap(), r)?;
    }
    for n in 0..DOC_REQUESTS {
        step(true, format!("document request {n}"), &mut || doc_request(&s, U, text, n), r)?;
    }
    let mut ps: Vec<Position> = positions(text);
    if c.params.first() == Some(&1) {
        // every position
        ps = text.char_indices().map(|c| l.pos(c.0)).chain([l.pos(text.len())]).collect();
    }
    let far = [Position::new(0, 1_000_000), Position::new(1_000_000, 0), Position::new(u32::MAX, u32::MAX), Position::new(l.line_count() as u32, 0), Position::new(l.line_count() as u32 - 1, l.pos(text.len()).character + 1), Position::new(0, u32::MAX)];
    let all: Vec<Position> = ps.iter().chain(&far).cloned().collect();
    for p in &all {
        for n in 0..POS_REQUESTS {
            step(!far.contains(p), format!("request {n} at {p:?}"), &mut || pos_request(&s, U, *p, n), r)?;
        }
        for name in ["", "$", "x", "\u{1F600}", "$a b"] {
            step(true, format!("rename to {name:?} at {p:?}"), &mut || format!("{:?}", s.rename(U, *p, name)), r)?;
        }
    }
    // ranges, also inverted and beyond the end
    let few: Vec<Position> = ps.iter().step_by((ps.len() / 4).max(1)).chain(&far).cloned().collect();
    for a in &few {
        for b in &few {
            let g = Range::new(*a, *b);
            step(!far.contains(a) && !far.contains(b), format!("inlay hints of {g:?}"), &mut || serde_json::to_string(&s.inlay(U, g)).unwrap(), r)?;
            step(!far.contains(a) && !far.contains(b), format!("code actions of {g:?}"), &mut || serde_json::to_string(&s.code_action(U, g)).unwrap(), r)?;
            step(!far.contains(a) && !far.contains(b), format!("range formatting of {g:?}"), &mut || serde_json::to_string(&s.range_formatting(U, g, fopts(2, true))).unwrap(), r)?;
            step(!far.contains(a) && !far.contains(b), format!("semantic tokens of {g:?}"), &mut || format!("{:?}", s.tokens_range(U, g)), r)?;
            step(!far.contains(a) && !far.contains(b), format!("selection of {g:?}"), &mut || serde_json::to_string(&s.selection(U, vec![*a, *b])).unwrap(), r)?;
        }
    }
    Ok(())
}
/// items of a call hierarchy that the client got for an earlier text, or made up
fn c22_stale(c: &Case, r: &mut Rec) -> Result<(), String> {
    let mut s = Svc::with_tokens();
    s.commit(U, &c.texts[0]);
    let mut items: Vec<CallHierarchyItem> = vec![];
    for p in positions(&c.texts[0]) {
        for i in s.prepare_calls(U, p).unwrap_or_default() {
            if !items.contains(&i) {
                items.push(i);
            }
        }
    }
    let made_up: Vec<CallHierarchyItem> = items
        .iter()
        .take(1)
        .flat_map(|i| {
            let far = [Position::new(0, u32::MAX), Position::new(u32::MAX, 0), Position::new(0, 0), Position::new(1, 3)];
            far.into_iter().flat_map(move |a| {
                far.into_iter().map(move |b| {
                    let mut i = i.clone();
                    i.range = Range::new(a, b);
                    i
                })
            })
        })
        .collect();
    items.extend(made_up);
    s.commit(U, &c.texts[1]);
    let l = Lines::new(&c.texts[1]);
    for i in items {
        r.step();
        let (x, y) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.incoming(i.clone()), s.outgoing(i.clone())))).map_err(|e| format!("call hierarchy of {i:?} panics: {}", panic_text(e)))?;
        let a = serde_json::to_string(&(x, y)).unwrap();
        for p in answer_positions(&a) {
            // the item itself comes back in the answer
            if l.off(p).is_none() && p != i.range.start && p != i.range.end && p != i.selection_range.start && p != i.selection_range.end {
                return Err(format!("call hierarchy of {i:?}: position {p:?} in the answer is outside of the document: {a}"));
            }
        }
        r.outcome(&a);
    }
    Ok(())
}
fn c22_cases(tier: Tier, emit: Emit) {
    let stale = ["", "\n", "(module)", "\n\n(module (func $f))", "(module\n (func $f\n  call $f)\n (func call $f call 0)\n (start $f))", "(module (func $f) (func $g call $f (call 0)))", "(module (import \"\" \"\" (func $f)) (func\n call $f))", "(module (func (block (block (call 0) \u{1F600}", ";; \u{1F600}\u{1F600}\u{1F600}\n(module (func $f (func $f call $f)))", "(module (func $f\n\n\n\n\n\n\n\n\n\n call $f))"];
    for a in stale {
        for b in stale {
            emit(Case::new("stale", vec![a.into(), b.into()], vec![]));
            for (i, _) in b.char_indices() {
                emit(Case::new("stale-cut", vec![a.into(), b[i..].into()], vec![]));
            }
        }
    }
    crate::ladder::ladder(Tier::Quick, &mut |sp, t| {
        if t.len() < tier.pick(250, 1200) {
            emit(Case::doc(sp, t));
        }
    });
    for f in FIELDS {
        let doc = format!("(module {f})");
        emit(Case::new("well-formed", vec![doc.clone()], vec![1]));
        let t = sig_tokens(&doc);
        let join = |t: &[String]| join_with(t, min_sep, &[]);
        for i in 0..t.len() {
            let mut d = t.clone();
            d.remove(i);
            emit(Case::doc("deleted-token", join(&d)));
            let mut d = t.clone();
            d.insert(i, t[i].clone());
            emit(Case::doc("doubled-token", join(&d)));
            for x in ["(", ")", "$", "$a", "0", "\"", "(;", "x", "\u{1F600}", "func", "nop", "block", "99999999999999999999"].iter().take(tier.pick(7, 13)) {
                let mut d = t.clone();
                d[i] = x.to_string();
                emit(Case::doc("replaced-token", join(&d)));
                if tier.thorough() {
                    let mut d = t.clone();
                    d.insert(i, x.to_string());
                    emit(Case::doc("inserted-token", join(&d)));
                }
            }
            for x in WORDS.iter().take(tier.pick(24, 99)) {
                let mut d = t.clone();
                d[i] = x.to_string();
                // with a use of everything that could be of an unknown kind
                emit(Case::doc("replaced-word", format!("{} (func (local.get 0) (drop (global.get 0)) (call 0 (local.get 0))))", join(&d).strip_suffix(')').unwrap_or(""))));
            }
            if tier.thorough() && i + 1 < t.len() {
                let mut d = t.clone();
                d.swap(i, i + 1);
                emit(Case::doc("swapped-tokens", join(&d)));
            }
        }
        for (i, _) in doc.char_indices() {
            if tier.thorough() || i % 2 == 0 {
                emit(Case::doc("truncated", doc[..i].to_string()));
            }
            if tier.thorough() {
                emit(Case::doc("truncated-front", doc[i..].to_string()));
            }
        }
    }
    for (name, pre, post) in [("raw", "", ""), ("module", "(module ", ")"), ("func", "(module (func ", "))"), ("elem", "(module (elem ", ") (func))"), ("import", "(module (import \"\" \"\" (", ")))"), ("type", "(module (type $t (func ", ")) (func (type $t)))"), ("if", "(module (func (if ", ")))"), ("global", "(module (global ", ") (func global.get 0))"), ("operand", "(module (func (param $a i32) (call 0 ", ")))")] {
        sequences_upto(crate::syntax::TOKENS, tier.pick(2, 2), &mut |s| emit(Case::doc(&format!("tokens/{name}"), format!("{pre}{}{post}", s.join(" ")))));
    }
    // deep nesting
    let open: &[(&str, &str)] = &[("(block ", ")"), ("block ", "end "), ("(i32.add ", ")"), ("(if (then ", "))"), ("(", ")"), ("if else ", "end "), ("(;", ";)"), ("(if (", ") (then))"), ("loop ", "")];
    for (a, x) in open {
        for (b, y) in open {
            let n = tier.pick(12, 40);
            emit(Case::doc("nested", format!("(module (func {}{}))", format!("{a}{b}").repeat(n), format!("{y}{x}").repeat(n))));
        }
    }
    let chars: &[&str] = &["(", ")", ";", "\"", "$", "a", "0", " ", "\n", "\r\n", "\u{1F600}"];
    sequences_upto(chars, tier.pick(3, 4), &mut |s| emit(Case::doc("chars", s.concat())));
    if tier.thorough() {
        let small: &[&str] = &["(", ")", "$a", "0", "func", "block", "if", "then", "end", "call", "param", "i32"];
        for (name, pre, post) in [("raw", "", ""), ("func", "(module (func ", "))")] {
            sequences(small, 4, &mut |s| emit(Case::doc(&format!("tokens4/{name}"), format!("{pre}{}{post}", s.join(" ")))));
        }
    }
}
pub static C22: Property = Property { id: "C22", cases: c22_cases, check: c22_check, bounds: |t| format!("token deletions, doublings and replacements of {} productions, token sequences of <= {} in 8 contexts, characters, growing documents, stale call hierarchy items; every request at every position and range, also outside", crate::gen::FIELDS.len(), t.pick(2, 3)) };

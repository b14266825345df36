//! C19: answers depend only on the current text of the document, not on the history of edits,
//! the requests asked before, or other documents.
use crate::engine::*;
use crate::refwat;
use crate::svc::*;
use lsp_types::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const B: &str = "file:///other.wat";
/// addresses of different documents that look alike
const ADDRESSES: [&str; 18] = [
    "file:///d/a.wat", "file:///d/A.wat", "file:///D/a.wat", "file:///d/a.WAT", "file:///d/a.wast", "file:///d/a", "file:///d/a.wat/", "file:///a.wat", "file:///e/a.wat", "file:///d/b.wat", "file://h/d/a.wat",
    "untitled:///d/a.wat", "file:///d/a.wat?x", "file:///d/a.wat#x", "file:///d/a%20.wat", "file:///d/a%21.wat", "file:///d/aa.wat", "untitled:Untitled-1",
];
fn doc_uri(d: usize) -> String {
    match d {
        0 => U.into(),
        1 => B.into(),
        n if n >= 100 => ADDRESSES[n - 100].into(),
        n => format!("file:///dir%20{}/%C3%A9{n}.wat", n % 3),
    }
}

fn j<T: serde::Serialize>(x: &T) -> String {
    serde_json::to_string(x).unwrap()
}
pub fn positions(text: &str) -> Vec<Position> {
    let l = Lines::new(text);
    let mut v: Vec<usize> = refwat::lex(text).iter().filter(|t| !matches!(t.k, refwat::TK::Ws)).flat_map(|t| [t.sp.s, if t.sp.e - t.sp.s > 1 && text.is_char_boundary(t.sp.s + 1) { t.sp.s + 1 } else { t.sp.s }]).collect();
    v.push(text.len());
    v.dedup();
    v.into_iter().map(|o| l.pos(o)).collect()
}
pub const DOC_REQUESTS: usize = 8;
pub const POS_REQUESTS: usize = 13;
/// the answer to request `n`, about the document or about a position
pub fn doc_request(s: &Svc, u: &str, text: &str, n: usize) -> String {
    let l = Lines::new(text);
    let all = l.range(refwat::Span::new(0, text.len()));
    match n {
        // in no particular order
        0 => j(&canon(&serde_json::to_value(s.diagnostics(u)).unwrap())),
        1 => j(&canon(&serde_json::to_value(s.publish(u)).unwrap())),
        2 => j(&s.symbols(u)),
        3 => j(&s.folding(u)),
        4 => format!("{:?}", s.tokens_full(u)),
        5 => j(&s.inlay(u, all)),
        6 => j(&s.formatting(u, fopts(2, true))),
        _ => j(&s.range_formatting(u, all, fopts(4, true))),
    }
}
pub fn pos_request(s: &Svc, u: &str, p: Position, n: usize) -> String {
    match n {
        0 => j(&s.definition(u, p)),
        1 => j(&s.type_definition(u, p)),
        2 => j(&s.declaration(u, p)),
        3 => j(&s.references(u, p, true)),
        4 => j(&s.references(u, p, false)),
        5 => j(&s.prepare_rename(u, p)),
        6 => j(&s.rename(u, p, "$new").map_err(|e| e.to_string())),
        7 => j(&s.hover(u, p)),
        8 => match s.completion(u, p) {
            None => String::new(),
            Some(CompletionResponse::Array(v)) => {
                let fixed = [CompletionItemKind::OPERATOR, CompletionItemKind::KEYWORD];
                let n = v.iter().filter(|i| i.kind.is_some_and(|k| fixed.contains(&k))).count();
                n.to_string() + &j(&v.into_iter().filter(|i| !i.kind.is_some_and(|k| fixed.contains(&k))).collect::<Vec<_>>())
            }
            x => j(&x),
        },
        9 => j(&s.code_action(u, Range::new(p, p))),
        10 => j(&s.selection(u, vec![p])),
        11 => j(&s.prepare_calls(u, p)),
        _ => {
            let Some(items) = s.prepare_calls(u, p) else { return String::new() };
            items.into_iter().map(|i| j(&s.incoming(i.clone())) + &j(&s.outgoing(i))).collect()
        }
    }
}
/// every answer about a document, in order; `B`'s uri is normalized to `U`
pub fn answers(s: &Svc, u: &str, text: &str, reversed: bool) -> Vec<String> {
    let ps = positions(text);
    let n = DOC_REQUESTS + ps.len() * POS_REQUESTS;
    let mut out = vec![String::new(); n];
    for k in 0..n {
        let i = if reversed { n - 1 - k } else { k };
        let a = if i < DOC_REQUESTS { doc_request(s, u, text, i) } else { pos_request(s, u, ps[(i - DOC_REQUESTS) / POS_REQUESTS], (i - DOC_REQUESTS) % POS_REQUESTS) };
        out[i] = if u == U { a } else { a.replace(u, U) };
    }
    out
}
fn fresh(text: &str) -> Arc<Vec<String>> {
    static CACHE: OnceLock<Mutex<HashMap<String, Arc<Vec<String>>>>> = OnceLock::new();
    let c = CACHE.get_or_init(Default::default);
    if let Some(a) = c.lock().unwrap().get(text) {
        return a.clone();
    }
    let mut s = Svc::with_tokens();
    s.commit(U, text);
    let a = Arc::new(answers(&s, U, text, false));
    c.lock().unwrap().insert(text.to_string(), a.clone());
    a
}
fn compare(s: &Svc, u: &str, text: &str, reversed: bool, r: &mut Rec) -> Result<(), String> {
    let want = fresh(text);
    let got = answers(s, u, text, reversed);
    r.transitions += got.len() as u64;
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        if g != w {
            let ps = positions(text);
            let what = if i < DOC_REQUESTS { format!("document request {i}") } else { format!("request {} at {:?}", (i - DOC_REQUESTS) % POS_REQUESTS, ps[(i - DOC_REQUESTS) / POS_REQUESTS]) };
            return Err(format!("{what} on {u}: a fresh service answers {w}, this one {g}; current text {text}"));
        }
    }
    r.outcome(&got);
    Ok(())
}

/// params: per text [document (0 or 1), what is asked after committing it (0 nothing, 1 everything, 2.. single document request)]
fn c19_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let mut s = Svc::with_tokens();
    let mut current: std::collections::BTreeMap<usize, &str> = Default::default();
    let again = c.space == "edit";
    for (i, t) in c.texts.iter().enumerate() {
        let (d, ask) = (c.params[2 * i] as usize, c.params[2 * i + 1]);
        let u = &*doc_uri(d);
        s.commit(u, t);
        r.step();
        current.insert(d, t);
        match ask {
            0 => {}
            1 => compare(&s, u, t, false, r)?,
            n => {
                let n = n as usize - 2;
                if n < DOC_REQUESTS {
                    let a = doc_request(&s, u, t, n);
                    if a.replace(u, U) != fresh(t)[n] {
                        return Err(format!("document request {n} on {u} after {i} edits: a fresh service answers {}, this one {a}; current text {t}", fresh(t)[n]));
                    }
                } else {
                    // one kind of request at every position
                    let n = n - DOC_REQUESTS;
                    for (k, p) in positions(t).into_iter().enumerate() {
                        let a = pos_request(&s, u, p, n);
                        let w = &fresh(t)[DOC_REQUESTS + k * POS_REQUESTS + n];
                        if &a.replace(u, U) != w {
                            return Err(format!("request {n} at {p:?} on {u} after {i} edits: a fresh service answers {w}, this one {a}; current text {t}"));
                        }
                    }
                }
            }
        }
    }
    for (d, t) in current {
        compare(&s, &doc_uri(d), t, false, r)?;
        if again {
            compare(&s, &doc_uri(d), t, true, r)?;
        }
    }
    Ok(())
}

fn families() -> Vec<Vec<String>> {
    let mut f: Vec<Vec<String>> = vec![];
    // names, uses and types of the same length: all nodes keep their places
    let mut v = vec![];
    for a in ["$a", "$b"] {
        for b in ["$b", "$c"] {
            for u in ["$a", "$b", "00", "01"] {
                for t in ["i32", "f64"] {
                    v.push(format!("(module (func {a} (param {t})) (func {b} call {u}))"));
                }
            }
        }
    }
    f.push(v);
    let mut v = vec![];
    for a in ["$s", "$t"] {
        for u in ["$s", "$t", "00", "01"] {
            for t in ["i32", "i64"] {
                for k in ["param ", "result"] {
                    v.push(format!("(module (type {a} (func ({k} {t}))) (type $t (func)) (func $f (type {u})) (func call $f))"));
                }
            }
        }
    }
    f.push(v);
    let mut v = vec![];
    for g in ["$g", "$h"] {
        for t in ["i32", "f32"] {
            for n in ["$x", "$y"] {
                for u in ["$x", "00"] {
                    for l in ["$l", "$m"] {
                        v.push(format!("(module (global {g} {t} (i32.const 0)) (func (param i64) (local {n} {t}) (block {l} local.get {u} br $l global.get $g)))"));
                    }
                }
            }
        }
    }
    f.push(v);
    // kinds that change in place, imports, exports
    f.push(
        [
            "(module (memory $a 10) (func $f call $f) (export \"\" (func  $f)))",
            "(module (global $a i32) (func $f call $f) (export \"\" (global $a)))",
            "(module (import \"\" \"\" (func $a)) (func call $a))",
            "(module (import \"\" \"\" (func $b)) (func call $a))",
            "(module (import \"\" \"\" (func $a (type $t))) (type $t (func)) (func call $a))",
            "(module (import \"\" \"\" (func $a (type $t))) (type $s (func)) (func call $a))",
            "(module (import \"\" \"\" (func $a (type $t))) (type $t (func (param i32))) (func call $a))",
            "(module (import \"\" \"\" (func $a (type 0))) (type $t (func (param i64))) (func call $a))",
            "(module (func $a) (start $a)) (module (func $a) (start $a))",
            "(module (func $a) (start $b)) (module (func $b) (start $a))",
            "(module (type $a (func)) (func $a (type $a)))",
            "(module (func $a (type $a)) (type $a (func)))",
            "(module (func $f (param $x i32) (local.set $x (i32.const 1))))",
            "(module (func $f (local $x i32) (local.set $x (i32.const 1))))",
            "(module (func $f (param $x f32) (local.set $x (i32.const 1))))",
            "(module (func $f (local $x f32) (local.set $x (i32.const 1))))",
            ";; doc\n(module (func $f) (func call $f))",
            "(module\n;; a\n(func $f) (func call $f))",
            "(module\n;; b\n(func $f) (func call $f))",
            "(module (func $f) (func call $f\u{1F600}))",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect(),
    );
    // malformed and unfinished texts
    f.push(
        ["", " ", "\n\n", "(", ")", "(module", "(module (func $a", "(module (func $a call $a))", "(module (func $a call $))", "(module (func $a call \u{1F600}))", "(module (func $a (call $a) )", "module (func $a call $a))", "(module (func $a (param) call $a)))", "(module (func $a (type) call 0))", "(module (fun $a call $a))", "(module (func $a i32.load offset = 1))", "(;", "\"", "(module (func (block $a br $a)))", "(module (func block $a br $a))", "(module (func block $a br $a end))"]
            .iter()
            .map(|s| s.to_string())
            .collect(),
    );
    f
}

fn c19_cases(tier: Tier, emit: Emit) {
    let f = families();
    let all: Vec<&String> = f.iter().flatten().collect();
    // every edit between two texts of a family, everything asked before
    for v in &f {
        for a in v {
            for b in v {
                emit(Case::new("edit", vec![a.clone(), b.clone()], vec![0, 1, 0, 0]));
            }
        }
    }
    let n = DOC_REQUESTS + POS_REQUESTS;
    if tier.thorough() {
        for a in &all {
            for b in &all {
                emit(Case::new("edit-any", vec![a.to_string(), b.to_string()], vec![0, 1, 0, 0]));
                emit(Case::new("two-documents", vec![a.to_string(), b.to_string()], vec![0, 1, 1, 0]));
            }
        }
    }
    // one kind of request before and after the edit
    for v in &f {
        for (i, a) in v.iter().enumerate() {
            for (k, b) in v.iter().enumerate() {
                if tier.thorough() || (i * 7 + k) % 5 == 0 {
                    for q in 0..n {
                        if tier.thorough() || (i + k + q) % 3 == 0 {
                            emit(Case::new("edit-partial", vec![a.clone(), b.clone(), a.clone()], vec![0, 2 + q as i64, 0, 2 + q as i64, 0, 0]));
                        }
                    }
                }
            }
        }
    }
    // documents whose addresses look alike
    for i in 0..ADDRESSES.len() {
        for k in 0..ADDRESSES.len() {
            for v in f.iter().take(tier.pick(2, 5)) {
                if i != k {
                    let (a, b) = (v[0].clone(), v[v.len() / 2].clone());
                    let (i, k) = (100 + i as i64, 100 + k as i64);
                    emit(Case::new("addresses", vec![a.clone(), b.clone()], vec![i, 0, k, 0]));
                    emit(Case::new("addresses", vec![a.clone(), b, a], vec![i, 1, k, 1, k, 0]));
                }
            }
        }
    }
    // many documents, long histories
    for v in &f {
        for start in 0..v.len() {
            if !tier.thorough() && start % 5 != 0 {
                continue;
            }
            for n in tier.pick(vec![3, 5, 9, 17], (3..=12).chain([17, 33, 65]).collect()) {
                for step in [1, 3] {
                    let texts: Vec<String> = (0..n).map(|i| v[(start + i * step) % v.len()].clone()).collect();
                    // one document each, then all are asked
                    emit(Case::new("many-documents", texts.clone(), (0..n).flat_map(|i| [i as i64, (i % 3 == 1) as i64]).collect()));
                    // the first of them is edited again at the end
                    let mut t = texts.clone();
                    t.push(v[(start + 1) % v.len()].clone());
                    emit(Case::new("many-documents", t, (0..n).chain([0]).flat_map(|i| [i as i64, 0]).collect()));
                    // one document, all its versions; two in turn
                    emit(Case::new("long-history", texts.clone(), (0..n).flat_map(|i| [0, (i % 4 == 2) as i64]).collect()));
                    emit(Case::new("long-history", texts.clone(), (0..n).flat_map(|i| [(i % 2) as i64, 2 + (i % (DOC_REQUESTS + POS_REQUESTS)) as i64]).collect()));
                    emit(Case::new("long-history", texts, (0..n).flat_map(|i| [(i % 3) as i64, 0]).collect()));
                }
            }
        }
    }
    // histories of three edits over one or two documents
    let small: Vec<String> = f.iter().flat_map(|v| { let s = v.len() / tier.pick(2, 4); v.iter().step_by(s.max(1)).cloned().collect::<Vec<_>>() }).collect();
    for a in &small {
        for b in &small {
            for c in &small {
                for docs in 0..8 {
                    for asks in 0..4 {
                        if !tier.thorough() && (docs > 2 || asks == 2) {
                            continue;
                        }
                        emit(Case::new("history-3", vec![a.clone(), b.clone(), c.clone()], vec![docs & 1, asks & 1, docs >> 1 & 1, asks >> 1 & 1, docs >> 2 & 1, 0]));
                    }
                }
            }
        }
    }
}
pub static C19: Property = Property { id: "C19", cases: c19_cases, check: c19_check, bounds: |t| format!("all edits between two texts of each family of colliding texts with every request before the edit, every single kind of request between edits, histories of 3 edits over 1-2 documents, up to {} documents or versions in a row", t.pick(17, 65)) };

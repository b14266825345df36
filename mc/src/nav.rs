//! C07-C10: names and indices -- go to definition, references, rename, undefined/duplicate names.
use crate::engine::*;
use crate::gen::*;
use crate::refwat::{self, *};
use crate::svc::*;
use std::collections::BTreeSet;

pub const QUIRKS: [&str; 4] = ["shared-index", "type-use-params", "function-label", "branch-outside-blocks"];
/// The correct model first; then, if the real code deviates, the smallest set of known deviations
/// (listed in known_findings.jsonl) that explains its answers exactly.
pub fn with_quirks(d: &mut Doc, r: &mut Rec, allowed: &[usize], mut f: impl FnMut(&Doc, &mut Rec) -> Result<(), String>) -> Result<(), String> {
    let first = match f(d, r) {
        Ok(()) => return Ok(()),
        Err(e) => e,
    };
    let mut masks: Vec<u32> = (1u32..16).filter(|m| (0..4).all(|i| m >> i & 1 == 0 || allowed.contains(&i))).collect();
    masks.sort_by_key(|m| m.count_ones());
    for m in masks {
        d.quirks = Quirks { shared_index: m & 1 != 0, no_type_params: m & 2 != 0, no_func_label: m & 4 != 0, top_br: m & 8 != 0 };
        let ok = f(d, r).is_ok();
        d.quirks = Quirks::default();
        if ok {
            for (i, q) in QUIRKS.iter().enumerate() {
                if m >> i & 1 == 1 {
                    r.known(q, &d.src);
                }
            }
            return Ok(());
        }
    }
    Err(first)
}

// ---------------------------------------------------------------- spaces

/// A definition of every kind: (text with `@` for the optional name)
pub const DEFS: &[&str] = &[
    "(func@)",
    "(func@ (import \"\" \"\"))",
    "(import \"\" \"\" (func@))",
    "(type@ (func))",
    "(global@ i32 (i32.const 0))",
    "(global@ (import \"\" \"\") i32)",
    "(import \"\" \"\" (global@ i32))",
    "(memory@ 1)",
    "(memory@ (import \"\" \"\") 1)",
    "(import \"\" \"\" (memory@ 1))",
    "(table@ 1 funcref)",
    "(table@ (import \"\" \"\") 1 funcref)",
    "(import \"\" \"\" (table@ 1 funcref))",
    "(table@ funcref (elem))",
    "(memory@ (data))",
];
/// A place where module-level names are used (`@` is the index)
pub const USES: &[&str] = &[
    "(func call @)",
    "(func (call @ (nop)))",
    "(func ref.func @ drop)",
    "(func (return_call @))",
    "(start @)",
    "(export \"\" (func @))",
    "(export \"\" (memory @))",
    "(export \"\" (table @))",
    "(export \"\" (global @))",
    "(func (type @))",
    "(func call_indirect (type @))",
    "(import \"\" \"\" (func (type @)))",
    "(func (block (type @)))",
    "(func if (type @) end)",
    "(func global.get @ drop)",
    "(func (global.set @ (i32.const 1)))",
    "(global i32 (global.get @))",
    "(func (table.get @ (i32.const 0)))",
    "(func table.set @)",
    "(func table.size @)",
    "(func table.grow @)",
    "(func table.fill @)",
    "(func table.copy @ @)",
    "(func table.init @ 0)",
    "(func table.init @)",
    "(func call_indirect @ (type 0))",
    "(func (return_call_indirect @ (type @)))",
    "(func loop (type @) end)",
    "(data (memory @) (i32.const 0))",
    "(elem (table @) (i32.const 0) func)",
    "(elem func @ @)",
    "(elem (i32.const 0) @)",
    "(elem funcref (ref.func @) (item ref.func @))",
    "(table funcref (elem @))",
    "(table funcref (elem (ref.func @)))",
    "(data (offset (global.get @)))",
    "(elem (global.get @) func @)",
];
fn space_of_use(u: &str) -> &'static [&'static str] {
    let has = |s: &str| u.contains(s);
    if has("global") {
        if has("func @") {
            &["global", "func"]
        } else {
            &["global"]
        }
    } else if has("memory") {
        &["memory"]
    } else if has("(type @") {
        &["type"]
    } else if has("table.") || has("(table @") || has("call_indirect @") {
        &["table"]
    } else {
        &["func"]
    }
}
pub fn named(t: &str, n: &str) -> String {
    if n.is_empty() {
        t.replace('@', "")
    } else {
        t.replace('@', &format!(" {n}"))
    }
}
pub const IDS: &[&str] = &["$a", "$b", "0", "1", "2"];

pub fn nav_docs(tier: Tier, emit: Emit) {
    let all: Vec<String> = DEFS.iter().flat_map(|d| ["", "$a", "$b"].iter().map(move |n| named(d, n))).collect();
    let small: Vec<String> = ["(func@)", "(import \"\" \"\" (func@))", "(type@ (func))", "(global@ i32 (i32.const 0))", "(memory@ 1)", "(table@ 1 funcref)"]
        .iter()
        .flat_map(|d| ["", "$a"].iter().map(move |n| named(d, n)))
        .collect();
    // definitions x use sites
    for u in USES {
        let kinds = space_of_use(u);
        let relevant: Vec<String> = all.iter().filter(|d| kinds.iter().any(|k| d.contains(&format!("({k}")))).cloned().collect();
        let ids: &[&str] = if tier.thorough() { IDS } else { &["$a", "0", "1"] };
        for id in ids {
            let use_ = u.replace('@', id);
            for a in &all {
                emit(Case::doc("use-1", format!("(module {a} {use_})")));
                emit(Case::doc("use-1", format!("(module {use_} {a})")));
                for b in &relevant {
                    if !tier.thorough() && *id == "1" && u.len() > 24 {
                        continue;
                    }
                    emit(Case::doc("use-2", format!("(module {a} {b} {use_})")));
                    if tier.thorough() {
                        emit(Case::doc("use-2", format!("(module {a} {use_} {b})")));
                    }
                }
            }
        }
    }
    // three definitions, used in every index space
    let uses_all = |x: &str, y: &str| {
        format!("(func $u call {x} global.get {x} table.size {x} call {y} (global.get {y}) (table.size {y}) call_indirect (type {x}) ref.func {y}) (export \"\" (memory {x})) (data (memory {y}) (i32.const 0)) (start {x}) (func (type {y}))")
    };
    sequences(&small, 3, &mut |s| {
        emit(Case::doc("three", format!("(module {} {})", s.join(" "), uses_all("$a", "1"))));
        if tier.thorough() {
            emit(Case::doc("three", format!("(module {} {})", uses_all("$a", "2"), s.join(" "))));
            emit(Case::doc("three", format!("(module {} {} {})", s[0], uses_all("0", "$a"), s[1..].join(" "))));
        }
    });
    // spelling of indices
    for id in ["0x0", "0x1", "0_0", "00", "0x0_1", "4294967295", "4294967296", "0xffffffff", "99999999999999999999"] {
        emit(Case::doc("index-spelling", format!("(module (func) (func call {id}) (func (param i32 i32) local.get {id}) (func (block (block br {id}))) (start {id}) (global i32 (global.get {id})))")));
    }
    // locals
    let ps: &[&str] = &["(param)", "(param i32)", "(param i32 i64)", "(param $a i32)", "(param $b f32)"];
    let ls: &[&str] = &["(local)", "(local i32)", "(local f32 v128)", "(local $a i32)", "(local $c funcref)"];
    let n = tier.pick(2, 3);
    let mut pseq = vec![];
    sequences_upto(ps, n, &mut |s| pseq.push(s.join(" ")));
    let mut lseq = vec![];
    sequences_upto(ls, 2, &mut |s| lseq.push(s.join(" ")));
    for p in &pseq {
        for l in &lseq {
            emit(Case::doc(
                "locals",
                format!("(module (func {p} {l} local.get 0 local.set 1 local.tee 2 local.get $a (local.set $b (local.get 3)) (local.tee $c (local.get 4)) (block (local.get $a))) (func (param $a i64) local.get $a local.get 0 local.get $b))"),
            ));
        }
        for t in ["(type $t)", "(type 0)"] {
            emit(Case::doc("locals-type", format!("(module (type $t (func {p})) (func {t} (local $z i32) local.get 0 (local.get 1) local.get 2 local.get $z local.get $a))")));
            emit(Case::doc("locals-type", format!("(module (type $t (func {p})) (func {t} (local f64) (local $z i32) (local i64) local.get 0 local.get 3 local.get $z))")));
            emit(Case::doc("locals-type", format!("(module (type $t (func {p})) (func {t} {p} (local $z i32) local.get 0 (local.get 1) local.get 2 local.get $z local.get $a))")));
        }
    }
    // labels
    block_docs(tier, emit);
    // two modules
    let mods: &[&str] = &[
        "(module (func $a call $a call 0 call $b) (start $b))",
        "(module (func $b (param $a i32) local.get $a call 0 call $a))",
        "(module $a (global $a i32 (i32.const 0)) (func $b global.get $a global.get 0 (block $a br $a)))",
        "(module (type $a (func)) (func (type $a) (block (type 0))) )",
        "(module (memory $a 1) (table $b 1 funcref) (export \"\" (memory $a)) (func table.size $b table.size 0))",
        "(module)",
    ];
    sequences_upto(mods, tier.pick(2, 3), &mut |s| emit(Case::doc("modules", s.join(" "))));
    // uses and definitions in different modules
    let defs = |x: &str| {
        ["(func@)", "(type@ (func))", "(global@ i32 (nop))", "(memory@ 1)", "(table@ 1 funcref)", "(func (param@ i32) block@ end)"].map(|d| named(d, x)).join(" ")
    };
    for u in USES {
        for id in ["$a", "0", "1"] {
            let use_ = u.replace('@', id);
            emit(Case::doc("modules-uses", format!("(module {}) (module {use_})", defs("$a"))));
            emit(Case::doc("modules-uses", format!("(module {use_}) (module {})", defs("$a"))));
            emit(Case::doc("modules-uses", format!("(module {} {use_}) (module {use_} {})", defs("$a"), defs("$a"))));
            emit(Case::doc("modules-uses", format!("(module $a {use_} {}) (module $a {} {use_})", defs("$a"), defs("$b"))));
            if u.contains("@ @") {
                for y in ["$a", "$b", "0", "1", "2"] {
                    emit(Case::doc("two-operands", format!("(module {} {} {})", u.replacen('@', id, 1).replacen('@', y, 1), defs("$b"), defs("$a"))));
                }
            }
        }
        // names that resemble each other
        for (i, x) in NAMES.iter().enumerate() {
            for y in &NAMES[i + 1..] {
                emit(Case::doc("names", format!("(module {} {} {} {})", defs(x), u.replace('@', y), u.replace('@', x), defs(y))));
            }
        }
    }
    for (i, x) in NAMES.iter().enumerate() {
        for y in &NAMES[i + 1..] {
            for (a, b) in [(x, y), (y, x)] {
                emit(Case::doc("names-locals", format!("(module (func {a} (param {a} i32) (local {b} i64) local.get {a} local.set {b} (block {b} (br {b}) block {a} br {a} br {b} end {a})))")));
            }
        }
    }
    // growing in one dimension
    crate::ladder::ladder(tier, &mut |sp, t| emit(Case::doc(sp, t)));
    // every production, every position
    for f in FIELDS {
        emit(Case::doc("fields", format!("(module {f})")));
        emit(Case::doc("fields", format!("(module (func $f) {f} (type $t (func)))")));
        if tier.thorough() {
            for g in FIELDS {
                emit(Case::doc("field-pairs", format!("(module {f} {g})")));
            }
        }
    }
}

pub const NAMES: &[&str] = &["$a", "$aa", "$$a", "$A", "$a.", "$0", "$!#%&*+-/:<=>?@\\^_`|~"];

pub const SHELLS: &[(&str, &str)] = &[
    ("block@ ", " end"),
    ("block@ ", " end@"),
    ("(block@ ", ")"),
    ("loop@ ", " end"),
    ("(loop@ ", ")"),
    ("if@ ", " end@"),
    ("if@ nop else@ ", " end"),
    ("if@ ", " else nop end"),
    ("(if@ (nop) (then ", "))"),
    ("(if@ (nop) (then) (else ", "))"),
    ("(if@ (block ", ") (then))"),
];
fn block_docs(tier: Tier, emit: Emit) {
    let shells: Vec<(String, String)> = SHELLS
        .iter()
        .flat_map(|(a, b)| ["", "$a", "$b"].iter().map(move |n| (named(a, n), named(b, n))))
        .collect();
    let leaf = "br_table $a $b 0 1 2 3 4";
    for (a, x) in &shells {
        emit(Case::doc("labels-1", format!("(module (func {a} {leaf} {x} br $a br 0 br 1))")));
        emit(Case::doc("labels-1", format!("(module (func {a} br_if 0 (br $a) (br_if 1 (nop)) {x}) (func {a} br 0 {x}))")));
        for (b, y) in &shells {
            emit(Case::doc("labels-2", format!("(module (func {a} {b} {leaf} {y} br $a br 1 {x}))")));
            emit(Case::doc("labels-2", format!("(module (func (local $a i32) {a} {x} {b} br $a local.get $a br 0 {y}))")));
            for (i, (c, z)) in shells.iter().enumerate() {
                if !tier.thorough() && (i % 3 == 2 || b.contains("$b")) {
                    continue;
                }
                emit(Case::doc("labels-3", format!("(module (func {a} {b} {c} {leaf} {z} br $a {y} (br 1) {x}))")));
            }
        }
    }
}

// ---------------------------------------------------------------- C07

type Loc = (usize, usize);
fn at(s: Span) -> Loc {
    (s.s, s.e)
}
pub fn def_target(d: &Def) -> Span {
    d.name.unwrap_or(d.kw)
}
pub fn block_target(b: &Block) -> Span {
    b.label.unwrap_or(b.kw)
}
pub fn offsets(src: &str) -> Vec<usize> {
    (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect()
}
/// Cursor positions that matter: both ends and the inside of every token.
pub fn cursor_offsets(d: &Doc) -> Vec<usize> {
    let mut v: BTreeSet<usize> = BTreeSet::new();
    v.insert(0);
    v.insert(d.src.len());
    for t in &d.toks {
        v.insert(t.sp.s);
        v.insert(t.sp.e);
        if !t.trivia() {
            let mut m = t.sp.s + 1;
            while !d.src.is_char_boundary(m) {
                m += 1;
            }
            v.insert(m);
        }
    }
    v.into_iter().collect()
}
fn spans(l: &Lines, v: Vec<(String, lsp_types::Range)>) -> Result<BTreeSet<Loc>, String> {
    let n = v.len();
    let s: BTreeSet<Loc> = v
        .into_iter()
        .map(|(u, r)| {
            if u != U {
                return Err(format!("answer for another document: {u}"));
            }
            l.span(r).map(at).ok_or_else(|| format!("range {r:?} outside of the document"))
        })
        .collect::<Result<_, _>>()?;
    if s.len() != n {
        return Err("the same location is listed twice".into());
    }
    Ok(s)
}
fn want<T: std::fmt::Debug + PartialEq>(what: &str, d: &Doc, off: usize, got: T, exp: T) -> Result<(), String> {
    if got != exp {
        let c = d.cursor(off).map(|t| d.text(t.sp).to_string());
        return Err(format!("{what} at offset {off} (token {c:?}): expected {exp:?}, got {got:?}"));
    }
    Ok(())
}

pub fn expect_definition(d: &Doc, tok: Span) -> BTreeSet<Loc> {
    if let Some(r) = d.refs.iter().find(|r| r.tok == tok) {
        return d.resolve(r).into_iter().map(|i| at(def_target(&d.defs[i]))).collect();
    }
    if let Some(r) = d.local_refs.iter().find(|r| r.tok == tok) {
        return match d.resolve_local(r) {
            Local::Def(i) => [at(d.locals[i].target)].into(),
            _ => Default::default(),
        };
    }
    if let Some(r) = d.block_refs.iter().find(|r| r.tok == tok) {
        return d.resolve_block(r).map(|b| at(block_target(&d.blocks[b]))).into_iter().collect();
    }
    Default::default()
}
fn c07_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let mut d = match refwat::parse(src) {
        Ok(d) => d,
        Err(e) => return Err(format!("{HARNESS}{e}")),
    };
    let s = Svc::open(src);
    let l = Lines::new(src);
    with_quirks(&mut d, r, &[0, 1], |d, r| {
        for off in cursor_offsets(d) {
            let p = l.pos(off);
            let tok = d.cursor(off).map(|t| t.sp);
            r.step();
            let got = spans(&l, locs(s.definition(U, p)))?;
            r.outcome(&(src.len(), off, &got));
            let exp = tok.map(|t| expect_definition(d, t)).unwrap_or_default();
            want("definition", d, off, got, exp)?;
            // declaration: the same for operands of instructions that name a module-level definition
            let iref = tok.and_then(|t| d.refs.iter().find(|x| x.tok == t && x.ctx == RefCtx::Instr));
            let exp: BTreeSet<Loc> = iref.map(|x| expect_definition(d, x.tok)).unwrap_or_default();
            want("declaration", d, off, spans(&l, locs(s.declaration(U, p)))?, exp)?;
            // type definition: of the called function
            let exp: BTreeSet<Loc> = iref
                .filter(|x| x.space == Space::Func)
                .map(|x| {
                    d.resolve(x)
                        .into_iter()
                        .filter_map(|f| d.defs[f].type_ref)
                        .flat_map(|t| d.resolve(&d.refs[t]))
                        .map(|t| at(def_target(&d.defs[t])))
                        .collect()
                })
                .unwrap_or_default();
            want("type definition", d, off, spans(&l, locs(s.type_definition(U, p)))?, exp)?;
        }
        Ok(())
    })
}
pub static C07: Property = Property { id: "C07", cases: nav_docs, check: c07_check, bounds: |t| format!("every kind of use (by name and index) x all modules of 1-2 definitions before or after it, all modules of 3 of 12 definitions with uses in every index space, parameter/local lists of <= {} + 2 groups, label nests over the block shapes, sequences of <= {} of 6 modules, index spellings, growing and look-alike documents; every offset of every token", t.pick(2, 3), t.pick(2, 3)) };

// ---------------------------------------------------------------- C08

/// What a token designates.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sym {
    Defs(Vec<usize>),
    Local(usize),
    Block(usize),
}
/// The symbol named or used by a token. `Err` = left open (see DESIGN.md).
pub fn symbol_at(d: &Doc, tok: Span) -> Result<Option<Sym>, ()> {
    if let Some(r) = d.refs.iter().find(|r| r.tok == tok) {
        return Ok(Some(Sym::Defs(d.resolve(r))));
    }
    if let Some(r) = d.local_refs.iter().find(|r| r.tok == tok) {
        return Ok(match d.resolve_local(r) {
            Local::Def(i) => Some(Sym::Local(i)),
            Local::FromType(_) => return Err(()),
            Local::None => None,
        });
    }
    if let Some(r) = d.block_refs.iter().find(|r| r.tok == tok) {
        return Ok(d.resolve_block(r).map(Sym::Block));
    }
    if let Some(i) = d.defs.iter().position(|x| x.name == Some(tok) || x.kw == tok) {
        return Ok(Some(Sym::Defs(vec![i])));
    }
    if let Some(i) = d.locals.iter().position(|x| x.name == Some(tok) || x.target == tok) {
        return Ok(Some(Sym::Local(i)));
    }
    if let Some(i) = d.locals.iter().position(|x| x.name.is_some() && x.list.s < tok.s && tok.e <= x.name.unwrap().s) {
        return Ok(Some(Sym::Local(i)));
    }
    if let Some(i) = d.blocks.iter().position(|x| x.label == Some(tok) || x.kw == tok) {
        if d.blocks[i].label.is_none() && !d.blocks[i].label_repeats.is_empty() {
            return Err(()); // label after `end` that the block does not have
        }
        return Ok(Some(Sym::Block(i)));
    }
    if d.blocks.iter().any(|x| x.label_repeats.contains(&tok)) || d.text(tok) == "end" {
        return Err(());
    }
    if matches!(d.text(tok), "funcref" | "externref") {
        return Err(());
    }
    Ok(None)
}
pub fn dup_locals(d: &Doc) -> bool {
    d.locals.iter().enumerate().any(|(i, a)| {
        a.name.is_some() && d.locals[i + 1..].iter().any(|b| b.func == a.func && b.name.is_some_and(|n| d.text(n) == d.text(a.name.unwrap())))
    })
}
pub fn refs_of(d: &Doc, s: &Sym) -> BTreeSet<Loc> {
    match s {
        Sym::Defs(v) => d.refs.iter().filter(|r| d.resolve(r).iter().any(|x| v.contains(x))).map(|r| at(r.tok)).collect(),
        Sym::Local(i) => d.local_refs.iter().filter(|r| d.resolve_local(r) == Local::Def(*i)).map(|r| at(r.tok)).collect(),
        Sym::Block(b) => d.block_refs.iter().filter(|r| d.resolve_block(r) == Some(*b)).map(|r| at(r.tok)).collect(),
    }
}
pub fn decls_of(d: &Doc, s: &Sym) -> BTreeSet<Loc> {
    match s {
        Sym::Defs(v) => v.iter().map(|i| at(def_target(&d.defs[*i]))).collect(),
        Sym::Local(i) => [at(d.locals[*i].target)].into(),
        Sym::Block(b) => [at(block_target(&d.blocks[*b]))].into(),
    }
}
fn c08_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let mut d = refwat::parse(src).map_err(|e| format!("{HARNESS}{e}"))?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    let dup = dup_locals(&d);
    with_quirks(&mut d, r, &[0, 1], |d, r| {
        for off in cursor_offsets(d) {
            let p = l.pos(off);
            let sym = match d.cursor(off) {
                Some(t) => match symbol_at(d, t.sp) {
                    Ok(s) => s,
                    Err(()) => continue,
                },
                None => None,
            };
            if dup && matches!(sym, Some(Sym::Local(_))) {
                continue;
            }
            for decl in [false, true] {
                r.step();
                let v = s.references(U, p, decl).unwrap_or_default().into_iter().map(|x| (x.uri.to_string(), x.range)).collect();
                let got = spans(&l, v)?;
                r.outcome(&(src.len(), off, &got));
                let mut exp = sym.as_ref().map(|s| refs_of(d, s)).unwrap_or_default();
                if decl {
                    exp.extend(sym.as_ref().map(|s| decls_of(d, s)).unwrap_or_default());
                }
                want(if decl { "references with declaration" } else { "references" }, d, off, got, exp)?;
            }
        }
        Ok(())
    })
}
pub static C08: Property = Property { id: "C08", cases: nav_docs, check: c08_check, bounds: |t| format!("every kind of use (by name and index) x all modules of 1-2 definitions before or after it, all modules of 3 of 12 definitions with uses in every index space, parameter/local lists of <= {} + 2 groups, label nests over the block shapes, sequences of <= {} of 6 modules, index spellings, growing and look-alike documents; every offset of every token", t.pick(2, 3), t.pick(2, 3)) };

// ---------------------------------------------------------------- C09

fn rename_docs(tier: Tier, emit: Emit) {
    nav_docs(tier, emit);
    // spelling of new names
    let chars = ["$", "a", "Z", "0", "!", "~", " ", "(", ")", "\"", ";", ",", "é", "\n", "#", "|"];
    sequences_upto(&chars, tier.pick(3, 4), &mut |s| {
        emit(Case::new("new-name", vec!["(module (func $a call $a call $b) (start $a))".into(), s.concat()], vec![]));
    });
    for c in (0u8..128).map(char::from).chain(['\u{80}', '\u{a0}', 'ß', '\u{2028}', '中']) {
        for n in [format!("${c}"), format!("$a{c}b"), format!("{c}$a"), format!("$a{c}"), format!("{c}a"), format!("{c}"), format!("${c}{c}")] {
            emit(Case::new("new-name-char", vec!["(module (func $a call $a call $b) (start $a))".into(), n], vec![]));
        }
    }
    // identifiers that are no symbols
    for t in ["(module $a (func $a))", "(module (data $a) (elem $a func) (func $b data.drop $a))", "(module (func i32.foo $a))", "(module (type (func (param $a i32))) (func (block (param $a i32))))"] {
        emit(Case::doc("no-symbol", t));
    }
}
/// Scope-wide same-name tokens: what a rename may touch besides the symbol itself.
fn same_name(d: &Doc, tok: Span, module: usize, func: Option<usize>) -> BTreeSet<Loc> {
    let n = d.text(tok);
    let mut s = BTreeSet::new();
    match func {
        Some(f) => {
            s.extend(d.locals.iter().filter(|x| x.func == f).filter_map(|x| x.name).filter(|x| d.text(*x) == n).map(at));
            s.extend(d.local_refs.iter().filter(|x| x.func == f && d.text(x.tok) == n).map(|x| at(x.tok)));
        }
        None => {
            s.extend(d.defs.iter().filter(|x| x.module == module).filter_map(|x| x.name).filter(|x| d.text(*x) == n).map(at));
            s.extend(d.refs.iter().filter(|x| x.module == module && d.text(x.tok) == n).map(|x| at(x.tok)));
        }
    }
    s
}
/// (tokens that must be renamed, tokens that may be renamed)
fn expect_rename(d: &Doc, tok: Span) -> Option<(BTreeSet<Loc>, BTreeSet<Loc>)> {
    let n = d.text(tok).to_string();
    let by_space = |space: Space, module: usize| -> BTreeSet<Loc> {
        let mut s: BTreeSet<Loc> = d.defs.iter().filter(|x| x.module == module && x.space == space).filter_map(|x| x.name).filter(|x| d.text(*x) == n).map(at).collect();
        s.extend(d.refs.iter().filter(|x| x.module == module && x.space == space && d.text(x.tok) == n).map(|x| at(x.tok)));
        s
    };
    if let Some(x) = d.refs.iter().find(|x| x.tok == tok) {
        return Some((by_space(x.space, x.module), same_name(d, tok, x.module, None)));
    }
    if let Some(x) = d.defs.iter().find(|x| x.name == Some(tok)) {
        return Some((by_space(x.space, x.module), same_name(d, tok, x.module, None)));
    }
    let func = d.locals.iter().find(|x| x.name == Some(tok)).map(|x| x.func).or(d.local_refs.iter().find(|x| x.tok == tok).map(|x| x.func));
    if let Some(f) = func {
        let s = same_name(d, tok, 0, Some(f));
        return Some((s.clone(), s));
    }
    let block = d
        .blocks
        .iter()
        .position(|b| b.label == Some(tok) || b.label_repeats.contains(&tok) && b.label.is_some_and(|l| d.text(l) == n))
        .or_else(|| d.block_refs.iter().find(|x| x.tok == tok).and_then(|x| d.resolve_block(x)));
    if let Some(b) = block {
        let mut s: BTreeSet<Loc> = [at(d.blocks[b].label.unwrap())].into();
        s.extend(d.blocks[b].label_repeats.iter().filter(|x| d.text(**x) == n).map(|x| at(*x)));
        s.extend(d.block_refs.iter().filter(|x| d.text(x.tok) == n && d.resolve_block(x) == Some(b)).map(|x| at(x.tok)));
        return Some((s.clone(), s));
    }
    None
}
/// Which definition every reference has, as a value that does not mention names.
fn binding(d: &Doc) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = d.refs.iter().map(|r| d.resolve(r)).collect();
    v.extend(d.local_refs.iter().map(|r| match d.resolve_local(r) {
        Local::Def(i) => vec![i],
        Local::FromType(_) => vec![9999],
        Local::None => vec![],
    }));
    v.extend(d.block_refs.iter().map(|r| d.resolve_block(r).into_iter().collect()));
    v
}
fn c09_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let d = refwat::parse(src).map_err(|e| format!("{HARNESS}{e}"))?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    if let Some(new) = c.texts.get(1) {
        r.step();
        let toks = refwat::lex(new);
        let valid = toks.len() == 1 && toks[0].k == TK::Id;
        let off = src.find("$a").unwrap() + 1;
        return match s.rename(U, l.pos(off), new) {
            Ok(_) if !valid => Err(format!("{new:?} is not an identifier but was accepted as new name")),
            Err(e) if valid => Err(format!("{new:?} was rejected as new name: {e}")),
            Ok(Some(e)) => {
                let edits = e.changes.ok_or("no changes")?.remove(&uri(U)).ok_or("no changes for the document")?;
                r.outcome(&apply_edits(src, &edits));
                want("rename", &d, off, apply_edits(src, &edits)?, src.replace("$a", new))
            }
            Ok(None) => Err("no edits".into()),
            Err(_) => Ok(()),
        };
    }
    let before = binding(&d);
    for off in cursor_offsets(&d) {
        let p = l.pos(off);
        let tok = d.cursor(off).filter(|t| t.k == TK::Id).map(|t| t.sp);
        r.step();
        let prep = match s.prepare_rename(U, p) {
            None => None,
            Some(lsp_types::PrepareRenameResponse::Range(x)) => Some(l.span(x).ok_or("range outside of the document")?),
            Some(x) => return Err(format!("unexpected prepareRename answer {x:?}")),
        };
        want("prepareRename", &d, off, prep, tok)?;
        let res = s.rename(U, p, "$fresh-name");
        let Some(tok) = tok else {
            if let Ok(Some(e)) = res {
                return Err(format!("rename at offset {off}, which is no identifier, gave {e:?}"));
            }
            continue;
        };
        let exp = expect_rename(&d, tok);
        let edits = match res {
            Ok(Some(e)) => e.changes.unwrap_or_default().remove(&uri(U)).unwrap_or_default(),
            Ok(None) | Err(_) if exp.is_some() && binding_token(&d, tok) => return Err(format!("rename of {:?} at offset {off} gave {res:?}", d.text(tok))),
            Ok(None) | Err(_) => vec![],
        };
        let got = spans(&l, edits.iter().map(|e| (U.to_string(), e.range)).collect())?;
        if let Some(e) = edits.iter().find(|e| e.new_text != "$fresh-name") {
            return Err(format!("edit inserts {:?}", e.new_text));
        }
        if let Some(x) = got.iter().find(|x| src[x.0..x.1] != *d.text(tok)) {
            return Err(format!("rename of {:?} at offset {off} replaces {:?}", d.text(tok), &src[x.0..x.1]));
        }
        let Some((must, may)) = exp else {
            if !got.is_subset(&[at(tok)].into()) {
                return Err(format!("rename of an identifier that is no symbol at {off} touches {got:?}"));
            }
            continue;
        };
        if binding_token(&d, tok) && (!must.is_subset(&got) || !got.is_subset(&may)) {
            return Err(format!("rename of {:?} at offset {off}: must change {must:?}, may change {may:?}, changes {got:?}", d.text(tok)));
        }
        let new = apply_edits(src, &edits)?;
        r.outcome(&new);
        let nd = refwat::parse(&new).map_err(|e| format!("rename broke the document: {e}: {new}"))?;
        if binding(&nd) != before {
            return Err(format!("rename of {:?} at offset {off} changed what a reference is bound to: {new}", d.text(tok)));
        }
    }
    Ok(())
}
/// Identifier of a definition, or of a reference that has one.
fn binding_token(d: &Doc, tok: Span) -> bool {
    if let Some(x) = d.refs.iter().find(|x| x.tok == tok) {
        return !d.resolve(x).is_empty();
    }
    if let Some(x) = d.local_refs.iter().find(|x| x.tok == tok) {
        return matches!(d.resolve_local(x), Local::Def(_));
    }
    true
}
pub static C09: Property = Property { id: "C09", cases: rename_docs, check: c09_check, bounds: |t| format!("every kind of use (by name and index) x all modules of 1-2 definitions before or after it, all modules of 3 of 12 definitions with uses in every index space, parameter/local lists of <= {} + 2 groups, label nests over the block shapes, sequences of <= {} of 6 modules, index spellings, growing and look-alike documents; every offset of every token", t.pick(2, 3), t.pick(2, 3)) };

// ---------------------------------------------------------------- C10

pub fn diag_span(l: &Lines, r: lsp_types::Range) -> Result<Loc, String> {
    l.span(r).map(at).ok_or_else(|| format!("diagnostic range {r:?} outside of the document"))
}
fn c10_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let mut d = refwat::parse(src).map_err(|e| format!("{HARNESS}{e}"))?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    let diags = s.diagnostics(U);
    let mut undef: Vec<(Loc, String)> = vec![];
    let mut dups: Vec<(Loc, BTreeSet<Loc>)> = vec![];
    let mut mods: Vec<Loc> = vec![];
    for x in &diags {
        let sp = diag_span(&l, x.range)?;
        if x.severity != Some(lsp_types::DiagnosticSeverity::ERROR) {
            return Err(format!("not an error: {x:?}"));
        }
        if let Some(n) = x.message.strip_prefix("cannot find `").and_then(|m| m.split('`').next()) {
            undef.push((sp, n.to_string()));
        } else if x.message.starts_with("duplicated name") {
            if !x.message.contains(&format!("`{}`", &src[sp.0..sp.1])) {
                return Err(format!("duplicate name reported at another token: {x:?}"));
            }
            let rel = x.related_information.clone().unwrap_or_default();
            let rel: BTreeSet<Loc> = spans(&l, rel.into_iter().map(|i| (i.location.uri.to_string(), i.location.range)).collect())?;
            dups.push((sp, rel));
        } else if x.message.starts_with("only one module") {
            mods.push(sp);
        }
    }
    undef.sort();
    dups.sort();
    mods.sort();
    r.outcome(&format!("{undef:?}{dups:?}{mods:?}"));
    want("second modules", &d, 0, mods, d.modules.iter().skip(1).map(|m| at(m.span)).collect())?;
    // duplicates
    let mut exp: Vec<(Loc, BTreeSet<Loc>)> = vec![];
    let groups: Vec<Vec<Span>> = {
        let mut g: std::collections::BTreeMap<(usize, Option<usize>, String), Vec<Span>> = Default::default();
        for x in &d.defs {
            if let Some(n) = x.name {
                g.entry((x.module, None, d.text(n).into())).or_default().push(n);
            }
        }
        for x in &d.locals {
            if let Some(n) = x.name {
                g.entry((0, Some(x.func), d.text(n).into())).or_default().push(n);
            }
        }
        g.into_values().filter(|v| v.len() > 1).collect()
    };
    for g in &groups {
        for a in g {
            exp.push((at(*a), g.iter().filter(|b| *b != a).map(|b| at(*b)).collect()));
        }
    }
    exp.sort();
    let is_label = |x: &Loc| d.blocks.iter().any(|b| b.label.map(at) == Some(*x));
    let (labels, others): (Vec<_>, Vec<_>) = dups.into_iter().partition(|x| is_label(&x.0));
    want("duplicated names", &d, 0, others, exp)?;
    // labels: may shadow; only related labels may be reported, and those with two or more on their path must be
    let named: Vec<(usize, &Block)> = d.blocks.iter().enumerate().filter(|(_, b)| b.label.is_some()).collect();
    // shadowing through a branch of an `if` is left open
    let has_if = d.blocks.iter().any(|b| b.kind == "if");
    for (i, b) in &named {
        let n = d.text(b.label.unwrap());
        let same: Vec<usize> = named.iter().filter(|(j, x)| j != i && d.text(x.label.unwrap()) == n && x.func == b.func).map(|x| x.0).collect();
        let nested: BTreeSet<Loc> =
            same.iter().filter(|j| d.blocks[**j].span.contains(b.span) || b.span.contains(d.blocks[**j].span)).map(|j| at(d.blocks[*j].label.unwrap())).collect();
        for (_, rel) in labels.iter().filter(|x| x.0 == at(b.label.unwrap())) {
            if rel.is_empty() || !rel.is_subset(&nested) {
                return Err(format!("label {n} at {:?} reported as duplicate of {rel:?}", b.label));
            }
        }
        if nested.len() >= 2 && !has_if && !labels.iter().any(|x| x.0 == at(b.label.unwrap()) && x.1 == nested) {
            return Err(format!("label {n} at {:?} not reported as duplicate of {nested:?}: {labels:?}", b.label));
        }
    }
    with_quirks(&mut d, r, &[0, 1, 2, 3], |d, r| {
        r.step();
        let mut exp: Vec<(Loc, String)> = vec![];
        let show = |id: &Ident, t: Span| match id {
            Ident::Num(n) => n.to_string(),
            _ => d.text(t).to_string(),
        };
        exp.extend(d.refs.iter().filter(|x| x.id != Ident::Bad && d.resolve(x).is_empty()).map(|x| (at(x.tok), show(&x.id, x.tok))));
        exp.extend(d.local_refs.iter().filter(|x| x.id != Ident::Bad && d.resolve_local(x) == Local::None).map(|x| (at(x.tok), show(&x.id, x.tok))));
        exp.extend(d.block_refs.iter().filter(|x| x.id != Ident::Bad && !d.branch_ok(x)).map(|x| (at(x.tok), show(&x.id, x.tok))));
        exp.sort();
        want("undefined names", d, 0, undef.clone(), exp)
    })
}
pub static C10: Property = Property { id: "C10", cases: nav_docs, check: c10_check, bounds: |t| format!("every kind of use (by name and index) x all modules of 1-2 definitions before or after it, all modules of 3 of 12 definitions with uses in every index space, parameter/local lists of <= {} + 2 groups, label nests over the block shapes, sequences of <= {} of 6 modules, index spellings, growing and look-alike documents; every offset of every token", t.pick(2, 3), t.pick(2, 3)) };

//! C14-C16, C18: semantic tokens, outline/folding/selection, call hierarchy, inlay hints.
use crate::engine::*;
use crate::gen::*;
use crate::nav::*;
use crate::refwat::{self, *};
use crate::svc::*;
use lsp_types::*;
use std::collections::{BTreeMap, BTreeSet};

/// Tokens of a document laid out again: every gap gets `sep(previous, next)`.
pub fn relayout(src: &str, sep: &dyn Fn(usize, &str, &str) -> String) -> String {
    let toks = sig_tokens(src);
    let mut out = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            out.push_str(&sep(i, &toks[i - 1], t));
        }
        out.push_str(t);
    }
    out
}
pub const LAYOUTS: usize = 5;
pub fn layout(src: &str, style: usize) -> String {
    match style {
        0 => src.to_string(),
        1 => relayout(src, &|_, _, _| "\n".into()),
        2 => format!("\n{}\n", relayout(src, &|i, a, b| if b == "(" { "\n".to_string() + &"\t".repeat(i % 3) } else { min_sep(a, b).into() })),
        3 => format!(";; é\u{1F600}\r\n{} (; x\u{1F600} ;)", relayout(src, &|i, a, b| match i % 3 {
            0 => "(;\u{1F600}é;) ".into(),
            1 => "\r\n".into(),
            _ => min_sep(a, b).into(),
        })),
        _ => format!("{};;z", relayout(src, &|i, a, b| if i % 4 == 0 { " ;; c\n ".into() } else if i % 4 == 2 { "(; (;n;) \n é;)".into() } else { min_sep(a, b).into() })),
    }
}
/// Documents x layouts
fn view_docs(tier: Tier, emit: Emit) {
    for f in FIELDS {
        for l in 0..LAYOUTS {
            emit(Case::doc("fields", layout(&format!("(module {f})"), l)));
        }
        for (i, g) in FIELDS.iter().enumerate() {
            if tier.thorough() {
                for l in 0..LAYOUTS {
                    emit(Case::doc("field-pairs", layout(&format!("(module {f} {g})"), l)));
                }
            } else {
                emit(Case::doc("field-pairs", layout(&format!("(module {f} {g})"), i % LAYOUTS)));
            }
        }
    }
    let mut k = 0;
    nav_docs(tier, &mut |c| {
        k += 1;
        if tier.thorough() {
            emit(Case::doc(&c.space, layout(&c.texts[0], k % LAYOUTS)));
        }
        if c.space != "labels-3" || k % 4 == 0 || tier.thorough() {
            emit(Case::doc(&c.space, layout(&c.texts[0], k / 3 % LAYOUTS)));
        }
    });
}
pub fn doc_of(src: &str) -> Result<Doc, String> {
    refwat::parse(src).map_err(|e| format!("{HARNESS}{e}"))
}

// ---------------------------------------------------------------- C14 semantic tokens

const RICH: &str = "(module ;; c\n (type $t (func (param $a i32) (result f64)))\n (import \"m\" \"n\" (func $i (type $t)))\n (global $g (mut i32) (i32.const -1)) (; b ;)\n (memory 1 2 shared)\n (func $f (param $p i32) (param i64) (local $l v128)\n  local.get $p local.get 1 local.get 2 (local.set $l (f32.const 1.5))\n  call $f (call 0) ref.func $f block $b br $b br 0 end i32.load offset=4 ref.null func)\n (start $f) (export \"e\" (func 0)) (elem func $f 0))";

fn kinds(d: &Doc) -> Result<Vec<(Span, Vec<&'static str>)>, String> {
    let func_ref = |sp: Span| d.refs.iter().find(|r| r.tok == sp && r.space == Space::Func);
    let local_ref = |sp: Span| d.local_refs.iter().find(|r| r.tok == sp);
    let is_param = |r: &LocalRef| match d.resolve_local(r) {
        Local::Def(i) => d.locals[i].is_param || d.locals.iter().any(|l| l.is_param && l.func == r.func && l.name.is_some_and(|n| d.text(n) == d.text(r.tok))),
        Local::FromType(_) => true,
        Local::None => false,
    };
    let in_elem = |r: &Ref| r.ctx == RefCtx::Index && !d.fields.iter().any(|f| f.span.contains(r.tok) && matches!(f.kind.as_str(), "start" | "export"));
    let mut v = vec![];
    for (k, sp) in d.expected_leaves().map_err(|e| format!("{HARNESS}{e}"))? {
        let t: Vec<&'static str> = match k {
            "NUM_TYPE" | "VEC_TYPE" | "REF_TYPE" => vec!["type"],
            "KEYWORD" => vec!["keyword"],
            "INSTR_NAME" => vec!["operator"],
            "FLOAT" => vec!["number"],
            "STRING" => vec!["string"],
            "LINE_COMMENT" | "BLOCK_COMMENT" => vec!["comment"],
            "INT" | "UNSIGNED_INT" => match (func_ref(sp), local_ref(sp)) {
                (Some(r), _) if in_elem(r) => vec!["function", "number"],
                (Some(_), _) => vec!["function"],
                (_, Some(r)) if is_param(r) => vec!["parameter"],
                (_, Some(_)) => vec!["variable"],
                _ => vec!["number"],
            },
            "IDENT" => {
                let def = d.defs.iter().find(|x| x.name == Some(sp));
                match (func_ref(sp), local_ref(sp), def) {
                    (Some(r), _, _) if in_elem(r) => vec!["function", "variable"],
                    (Some(_), _, _) => vec!["function"],
                    (_, Some(r), _) if is_param(r) => vec!["parameter"],
                    (_, _, Some(x)) if x.space == Space::Func && x.field != x.span => vec!["function", "variable"],
                    (_, _, Some(x)) if x.space == Space::Func => vec!["function"],
                    _ if d.nodes.iter().any(|(k, n)| *k == "PARAM" && n.contains(sp)) => vec!["parameter"],
                    _ => vec!["variable"],
                }
            }
            _ => continue,
        };
        v.push((sp, t));
    }
    Ok(v)
}
type Abs = (u32, u32, u32, u32);
fn decode(v: &[SemanticToken], first_col: u32) -> Vec<Abs> {
    let (mut line, mut col) = (0, 0);
    v.iter()
        .enumerate()
        .map(|(i, t)| {
            if t.delta_line > 0 {
                line += t.delta_line;
                col = t.delta_start;
            } else {
                col += t.delta_start;
            }
            if i == 0 {
                col += first_col;
            }
            (line, col, t.length, t.token_type)
        })
        .collect()
}
fn c14_cases(tier: Tier, emit: Emit) {
    // 9 token types: every subset the client may support
    let mut n = 0;
    for m in 0u32..512 {
        for src in [RICH.to_string(), layout(RICH, 3)] {
            n += 1;
            if tier.thorough() || n % 2 == 0 || m.count_ones() < 2 || m.count_ones() > 7 {
                let src = if n % 2 == 0 && !tier.thorough() && m % 2 == 0 { layout(RICH, 4) } else { src };
                emit(Case::new("legend", vec![src], vec![m as i64, 0]));
            }
        }
    }
    // every order of two supported types among unsupported ones, reversed and rotated lists
    for i in 0..9i64 {
        for j in 0..9i64 {
            emit(Case::new("legend-order", vec![RICH.into()], vec![-1, i * 9 + j]));
        }
        emit(Case::new("legend-order", vec![RICH.into()], vec![-2, i]));
        emit(Case::new("legend-order", vec![RICH.into()], vec![-3, i]));
    }
    view_docs(tier, emit);
    // ranges
    let docs: Vec<String> = FIELDS.iter().flat_map(|f| (0..LAYOUTS).map(move |l| layout(&format!("(module {f})"), l))).collect();
    for (i, t) in docs.iter().enumerate() {
        if tier.thorough() || i % 5 == (i / 5) % 5 {
            emit(Case::new("ranges", vec![t.clone()], vec![511, 1]));
        }
    }
    emit(Case::new("ranges", vec![RICH.into()], vec![511, 1]));
    if tier.thorough() {
        emit(Case::new("ranges", vec![RICH.into()], vec![0b000111010, 1]));
        emit(Case::new("ranges", vec![layout(RICH, 4)], vec![0b100110111, 1]));
    }
}
fn c14_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let mut d = doc_of(src)?;
    let mode = c.params.first().copied().unwrap_or(511);
    let arg = c.params.get(1).copied().unwrap_or(0);
    let types: Vec<&str> = match mode {
        -1 => vec!["class", TOKEN_TYPES[(arg / 9) as usize], "macro", TOKEN_TYPES[(arg % 9) as usize], "event"],
        -2 => {
            let mut v = TOKEN_TYPES.to_vec();
            v.rotate_left(arg as usize);
            v
        }
        -3 => {
            let mut v = TOKEN_TYPES.to_vec();
            v.rotate_left(arg as usize);
            v.reverse();
            v
        }
        m => (0..9).filter(|i| m >> i & 1 == 1).map(|i| TOKEN_TYPES[i]).collect(),
    };
    let mut s = Svc::new();
    let init = s.s.initialize(init_params(&types));
    let legend: Vec<String> = match init.capabilities.semantic_tokens_provider {
        Some(SemanticTokensServerCapabilities::SemanticTokensOptions(o)) => o.legend.token_types.iter().map(|t| t.as_str().to_string()).collect(),
        x => return Err(format!("no semantic tokens: {x:?}")),
    };
    if legend.iter().any(|t| !types.contains(&t.as_str())) {
        return Err(format!("legend {legend:?} has types the client does not know ({types:?})"));
    }
    for t in &TOKEN_TYPES {
        if types.contains(t) && !legend.iter().any(|x| x == t) {
            return Err(format!("legend {legend:?} lacks {t}"));
        }
    }
    s.commit(U, src);
    let l = Lines::new(src);
    let full = s.tokens_full(U);
    r.outcome(&format!("{full:?}"));
    let abs = decode(&full, 0);
    with_quirks(&mut d, r, &[1], |d, r| {
        r.step();
        let exp: Vec<(Span, Vec<&'static str>)> =
            kinds(d)?.into_iter().map(|(sp, t)| (sp, t.into_iter().filter(|t| types.contains(t)).collect::<Vec<_>>())).collect();
        let mut it = abs.iter().peekable();
        for (sp, t) in &exp {
            let p = l.pos(sp.s);
            let here = it.peek().is_some_and(|x| (x.0, x.1) == (p.line, p.character));
            if t.is_empty() {
                // not supported by the client (an open classification may still fall to an unsupported type)
                if here {
                    return Err(format!("token {:?} has a type the client does not support", d.text(*sp)));
                }
                continue;
            }
            if !here {
                let open = kinds(d)?.iter().any(|(x, k)| x == sp && k.len() > t.len());
                if open {
                    continue;
                }
                return Err(format!("token {:?} at {p:?} is missing; next is {:?}", d.text(*sp), it.peek()));
            }
            let x = it.next().unwrap();
            let name = legend.get(x.3 as usize).ok_or("token type outside of the legend")?;
            if !t.contains(&name.as_str()) {
                return Err(format!("token {:?} at {p:?} is {name}, expected {t:?}", d.text(*sp)));
            }
            let len = d.text(*sp).encode_utf16().count() as u32;
            if x.2 != len && !d.text(*sp).contains('\n') {
                return Err(format!("token {:?} at {p:?} has length {}, expected {len}", d.text(*sp), x.2));
            }
        }
        if let Some(x) = it.next() {
            return Err(format!("token at {x:?} that is none"));
        }
        Ok(())
    })?;
    if full.iter().any(|t| t.token_modifiers_bitset != 0) {
        return Err("modifiers that are not in the legend".into());
    }
    if arg == 1 && mode >= 0 {
        // every range between token boundaries and insides: exactly the tokens of the full answer that overlap it
        let offs = cursor_offsets(&d);
        let starts: Vec<(usize, usize)> = abs.iter().map(|x| l.off(Position::new(x.0, x.1)).unwrap()).map(|o| (o, d.toks.iter().find(|t| t.sp.s == o).unwrap().sp.e)).collect();
        for (i, a) in offs.iter().enumerate() {
            for b in &offs[i..] {
                r.step();
                let got = s.tokens_range(U, Range::new(l.pos(*a), l.pos(*b))).ok_or("no answer")?;
                let exp: Vec<Abs> = abs.iter().zip(&starts).filter(|(_, (s, e))| s < b && e > a).map(|(x, _)| *x).collect();
                if decode(&got, 0) == exp {
                    continue;
                }
                // tokens that merely touch the range may be listed as well
                let loose: Vec<Abs> = abs.iter().zip(&starts).filter(|(_, (s, e))| s <= b && e >= a).map(|(x, _)| *x).collect();
                if decode(&got, 0) == loose {
                    continue;
                }
                let first = d.toks.iter().find(|t| t.sp.e > *a).map(|t| l.pos(t.sp.s)).unwrap_or_default();
                let quirk = if exp.first().is_some_and(|e| e.0 == first.line) { first.character } else { 0 };
                if quirk > 0 && decode(&got, quirk) == exp {
                    r.known("range-first-column", src);
                    continue;
                }
                return Err(format!("range {a}..{b}: expected {exp:?}, got {:?}", decode(&got, 0)));
            }
        }
    }
    Ok(())
}
pub static C14: Property = Property { id: "C14", cases: c14_cases, check: c14_check, bounds: |t| format!("documents of C07 in one-line and multi-line layouts x client token type subsets x every range between line and token boundaries (tier {:?})", t) };

// ---------------------------------------------------------------- C15 outline, folding, selection

#[derive(Debug, PartialEq, Clone)]
struct Outline {
    kind: String,
    name: String,
    range: Span,
    sel: Span,
    children: Vec<Outline>,
}
fn outline_of(l: &Lines, s: &DocumentSymbol) -> Result<Outline, String> {
    let range = l.span(s.range).ok_or("symbol range outside of the document")?;
    let sel = l.span(s.selection_range).ok_or("selection range outside of the document")?;
    if !range.contains(sel) {
        return Err("selection range is not inside of the symbol".into());
    }
    Ok(Outline {
        kind: format!("{:?}", s.kind),
        name: s.name.clone(),
        range,
        sel,
        children: s.children.iter().flatten().map(|c| outline_of(l, c)).collect::<Result<_, _>>()?,
    })
}
fn def_name(d: &Doc, x: &Def) -> String {
    d.name_of(x).map(|s| s.to_string()).unwrap_or_else(|| if d.quirks.shared_index { x.shared } else { x.index }.to_string())
}
fn expect_outline(d: &Doc) -> Vec<Outline> {
    d.modules
        .iter()
        .enumerate()
        .map(|(m, x)| Outline {
            kind: "Module".into(),
            name: "module".into(),
            range: x.span,
            sel: x.span,
            children: d
                .defs
                .iter()
                .enumerate()
                .filter(|(_, x)| x.module == m)
                .map(|(i, x)| Outline {
                    kind: if x.space == Space::Func { "Function" } else { "Variable" }.into(),
                    name: def_name(d, x),
                    range: x.span,
                    sel: x.name.unwrap_or(x.span),
                    children: d
                        .funcs
                        .iter()
                        .position(|f| f.def == i)
                        .map(|f| {
                            d.locals
                                .iter()
                                .filter(|y| y.func == f && !y.is_param)
                                .map(|y| Outline {
                                    kind: "Variable".into(),
                                    name: y.name.map(|n| d.text(n).to_string()).unwrap_or_else(|| d.local_index(y).to_string()),
                                    range: y.node,
                                    sel: y.name.unwrap_or(y.node),
                                    children: vec![],
                                })
                                .collect()
                        })
                        .unwrap_or_default(),
                })
                .collect(),
        })
        .collect()
}
fn c15_cases(tier: Tier, emit: Emit) {
    view_docs(tier, emit);
    let mods = ["(module)", "(module (func))", "(module (type $t (func)) (func (local i32)))", "(module\n(global $g i32 (i32.const 0))\n)"];
    sequences_upto(&mods, tier.pick(5, 6), &mut |s| emit(Case::doc("outline-modules", s.join("\n"))));
}
fn c15_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let mut d = doc_of(src)?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    // outline
    let got: Vec<Outline> = match s.symbols(U) {
        Some(DocumentSymbolResponse::Nested(v)) => v.iter().map(|x| outline_of(&l, x)).collect::<Result<_, _>>()?,
        x => return Err(format!("document symbols: {x:?}")),
    };
    r.outcome(&format!("{got:?}"));
    with_quirks(&mut d, r, &[0, 1], |d, r| {
        r.step();
        let exp = expect_outline(d);
        // a module without symbols may be left out
        let show = |v: &[Outline]| v.iter().filter(|m| !m.children.is_empty()).cloned().collect::<Vec<_>>();
        if show(&got) != show(&exp) || got.iter().any(|g| !exp.iter().any(|e| e.range == g.range)) {
            return Err(format!("outline: expected {exp:?}, got {got:?}"));
        }
        Ok(())
    })?;
    // folding: the multi-line forms
    let v = s.folding(U).ok_or("no folding ranges")?;
    let mut folds = BTreeSet::new();
    for f in &v {
        r.step();
        let full = Range::new(Position::new(f.start_line, f.start_character.unwrap_or(0)), Position::new(f.end_line, f.end_character.unwrap_or(0)));
        let sp = l.span(full).ok_or_else(|| format!("folding range {f:?} outside of the document"))?;
        if f.start_line >= f.end_line {
            return Err(format!("folding range {f:?} on one line"));
        }
        if !folds.insert(sp) {
            return Err(format!("folding range {f:?} listed twice"));
        }
    }
    let multi = |sp: &Span| l.line_of(sp.s) != l.line_of(sp.e);
    let mut must: BTreeSet<Span> = BTreeSet::new();
    fn forms(x: &Sx, out: &mut BTreeSet<Span>) {
        if let Sx::L { sp, items: v } = x {
            out.insert(*sp);
            v.iter().for_each(|y| forms(y, out));
        }
    }
    d.sx.iter().for_each(|x| forms(x, &mut must));
    must.extend(d.blocks.iter().map(|b| b.span));
    // the reference to a type folds with the parameters and results it belongs to
    for (t, u) in &d.type_uses {
        must.remove(t);
        must.insert(*u);
    }
    let must: BTreeSet<Span> = must.into_iter().filter(multi).collect();
    let may: BTreeSet<Span> = d.nodes.iter().map(|n| n.1).filter(multi).collect();
    r.outcome(&format!("{folds:?}"));
    if let Some(m) = must.iter().find(|m| !folds.contains(m)) {
        return Err(format!("no folding range for {:?}", d.text(*m)));
    }
    if let Some(m) = folds.iter().find(|m| !may.contains(m)) {
        return Err(format!("folding range {:?} is no form", d.text(*m)));
    }
    // selection: from the token outwards
    let offs = cursor_offsets(&d);
    let whole = Span::new(0, src.len());
    let all = s.selection(U, offs.iter().map(|o| l.pos(*o)).collect()).ok_or("no selection ranges")?;
    if all.len() != offs.len() {
        return Err(format!("{} positions but {} selection ranges", offs.len(), all.len()));
    }
    for (o, sel) in offs.iter().zip(&all) {
        r.step();
        let mut chain: Vec<Span> = vec![];
        let mut cur = Some(sel);
        while let Some(x) = cur {
            chain.push(l.span(x.range).ok_or("selection range outside of the document")?);
            cur = x.parent.as_deref();
        }
        if chain.iter().any(|x| x.s > *o || *o > x.e) {
            return Err(format!("selection at {o} does not contain the position: {chain:?}"));
        }
        if chain.windows(2).any(|w| !w[1].contains(w[0])) {
            return Err(format!("selection at {o} does not grow: {chain:?}"));
        }
        if let Some(t) = d.cursor(*o) {
            // a form may have blanks and comments around it
            let trim = |x: &Span| {
                let inner: Vec<Span> = d.toks.iter().filter(|t| !t.trivia() && x.contains(t.sp)).map(|t| t.sp).collect();
                match inner.as_slice() {
                    [] => *x,
                    v => Span::new(v[0].s, v[v.len() - 1].e),
                }
            };
            let set: BTreeSet<Span> = chain.iter().skip(1).map(trim).collect();
            let mut exp: BTreeSet<Span> = d.nodes.iter().map(|n| n.1).filter(|n| n.contains(t.sp)).collect();
            exp.insert(trim(&whole));
            let mut may = exp.clone();
            may.extend(d.nodes.iter().map(|n| n.1).filter(|_| t.trivia()));
            if chain[0] != t.sp || chain[chain.len() - 1] != whole || !exp.is_subset(&set) || !set.is_subset(&may) {
                return Err(format!("selection at {o}: expected {exp:?}, got {chain:?}"));
            }
        } else if chain.iter().any(|x| *x != whole && x.s != x.e && !d.nodes.iter().any(|n| n.1 == *x) && !d.toks.iter().any(|t| t.sp == *x)) {
            return Err(format!("selection at {o}: {chain:?}"));
        }
        let one = s.selection(U, vec![l.pos(*o)]).unwrap_or_default();
        if one.len() != 1 || one[0] != *sel {
            return Err(format!("selection at {o} depends on the other positions"));
        }
    }
    Ok(())
}
pub static C15: Property = Property { id: "C15", cases: c15_cases, check: c15_check, bounds: |t| format!("documents of C07 in several layouts, every position list of length <= 2, all multi-line shapes (tier {:?})", t) };

// ---------------------------------------------------------------- C16 call hierarchy

fn c16_cases(tier: Tier, emit: Emit) {
    view_docs(tier, emit);
    // call graphs: every set of calls among three functions (one imported), by name or index
    let sites = ["call $a", "(call 1)", "return_call $c", "(return_call 0)", "ref.func $b", "(ref.func 2)", "(block (call $a))", "(drop (call $c (call $b)))", "call $nope", "call 9", "(call_indirect (type 0))", "if call 2 else call $a end"];
    let mut bodies: Vec<String> = vec![];
    sequences_upto(&sites, 2, &mut |s| bodies.push(s.join(" ")));
    let few: Vec<&String> = bodies.iter().filter(|b| b.len() < tier.pick(9, 21)).collect();
    for b in &bodies {
        for c in &few {
            emit(Case::doc("call-graph", format!("(module (import \"\" \"\" (func $a (param i32))) (func $b {b}) (func $c {c}) (start $b) (elem func $c) (export \"\" (func 0)))")));
            emit(Case::doc("call-graph", format!("(module (func {c}) (func $a (import \"\" \"\")) (func $b {b}) (func $b)) (module (func $b {c}))")));
        }
    }
}
type Item = (String, Option<String>, Span, Span);
fn item(l: &Lines, x: &CallHierarchyItem) -> Result<Item, String> {
    if x.uri != uri(U) || x.kind != SymbolKind::FUNCTION {
        return Err(format!("not a function of the document: {x:?}"));
    }
    Ok((x.name.clone(), x.detail.clone(), l.span(x.range).ok_or("range")?, l.span(x.selection_range).ok_or("range")?))
}
fn expect_item(d: &Doc, i: usize) -> Item {
    let x = &d.defs[i];
    (def_name(d, x), Some(d.func_header(i)), x.span, def_target(x))
}
fn c16_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let mut d = doc_of(src)?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    with_quirks(&mut d, r, &[0], |d, r| {
        let funcs: Vec<usize> = (0..d.defs.len()).filter(|i| d.defs[*i].space == Space::Func).collect();
        // prepare
        let mut items: BTreeMap<usize, CallHierarchyItem> = BTreeMap::new();
        for off in cursor_offsets(d) {
            let Some(t) = d.cursor(off) else { continue };
            r.step();
            let got = s.prepare_calls(U, l.pos(off)).unwrap_or_default();
            let mut g: Vec<Item> = got.iter().map(|x| item(&l, x)).collect::<Result<_, _>>()?;
            g.sort();
            r.outcome(&format!("{g:?}"));
            let def = funcs.iter().copied().find(|i| d.defs[*i].name == Some(t.sp) || d.defs[*i].kw == t.sp);
            let rf = d.refs.iter().find(|x| x.tok == t.sp && x.space == Space::Func);
            let mut exp: Vec<Item> = match (def, rf) {
                (Some(i), _) => vec![expect_item(d, i)],
                (_, Some(x)) => d.resolve(x).into_iter().map(|i| expect_item(d, i)).collect(),
                // blanks, comments and parentheses directly in a function may stand for it
                _ if t.trivia() || matches!(t.k, TK::L | TK::R) => match g.as_slice() {
                    [x] if funcs.iter().any(|i| d.defs[*i].span.contains(t.sp) && expect_item(d, *i) == *x) => g.clone(),
                    _ => vec![],
                },
                _ => vec![],
            };
            exp.sort();
            if g != exp {
                return Err(format!("prepareCallHierarchy at {off} ({:?}): expected {exp:?}, got {g:?}", d.text(t.sp)));
            }
            if let Some(i) = def {
                items.insert(i, got[0].clone());
            }
        }
        // calls
        let calls: Vec<&Ref> = d.refs.iter().filter(|x| x.space == Space::Func && x.ctx == RefCtx::Instr && x.func.is_some()).collect();
        for (i, it) in &items {
            r.step();
            let mut inc: Vec<(Item, Span)> = vec![];
            for x in s.incoming(it.clone()).ok_or("no incoming calls")? {
                let f = item(&l, &x.from)?;
                for y in &x.from_ranges {
                    inc.push((f.clone(), l.span(*y).ok_or("call range outside of the document")?));
                }
            }
            inc.sort();
            r.outcome(&format!("{inc:?}"));
            let mut exp: Vec<(Item, Span)> =
                calls.iter().filter(|x| d.resolve(x).contains(i)).map(|x| (expect_item(d, d.funcs[x.func.unwrap()].def), x.instr.unwrap())).collect();
            exp.sort();
            if inc != exp {
                return Err(format!("incoming calls of {:?}: expected {exp:?}, got {inc:?}", it.name));
            }
            let mut out: Vec<(Item, Span)> = vec![];
            for x in s.outgoing(it.clone()).ok_or("no outgoing calls")? {
                let f = item(&l, &x.to)?;
                for y in &x.from_ranges {
                    out.push((f.clone(), l.span(*y).ok_or("call range outside of the document")?));
                }
            }
            out.sort();
            let mut exp: Vec<(Item, Span)> = calls
                .iter()
                .filter(|x| d.funcs[x.func.unwrap()].def == *i)
                .flat_map(|x| d.resolve(x).into_iter().map(|t| (expect_item(d, t), x.instr.unwrap())))
                .collect();
            exp.sort();
            if out != exp {
                return Err(format!("outgoing calls of {:?}: expected {exp:?}, got {out:?}", it.name));
            }
        }
        Ok(())
    })
}
pub static C16: Property = Property { id: "C16", cases: c16_cases, check: c16_check, bounds: |t| format!("all bodies of <= 2 of 12 call sites x short second bodies in two module shapes, plus the documents of C14; every offset (tier {:?})", t) };

// ---------------------------------------------------------------- C18 inlay hints

fn c18_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    let mut d = doc_of(src)?;
    let s = Svc::open(src);
    let l = Lines::new(src);
    // ranges: whole document, and all pairs of token boundaries when asked for
    let mut ranges = vec![(0, src.len())];
    let toks: Vec<Span> = d.toks.iter().map(|t| t.sp).collect();
    if c.params.first() == Some(&1) {
        let offs = cursor_offsets(&d);
        for (i, a) in offs.iter().enumerate() {
            ranges.extend(offs[i..].iter().map(|b| (*a, *b)));
        }
    } else {
        // around every token
        for t in &toks {
            ranges.push((t.s, t.e));
            ranges.push((0, t.e));
            ranges.push((t.s, src.len()));
            if t.e - t.s > 1 && src.is_char_boundary(t.e - 1) {
                ranges.push((0, t.e - 1));
            }
        }
    }
    ranges.sort();
    ranges.dedup();
    with_quirks(&mut d, r, &[0, 1], |d, r| {
        let mut all: Vec<(Span, String)> = vec![];
        for x in &d.local_refs {
            match d.resolve_local(x) {
                Local::Def(i) => all.push((x.tok, d.locals[i].ty.clone())),
                Local::FromType(t) => all.push((x.tok, t)),
                Local::None => {}
            }
        }
        for x in d.refs.iter().filter(|x| x.space == Space::Global && x.ctx == RefCtx::Instr) {
            if let Some(t) = d.resolve(x).first().and_then(|i| d.defs[*i].ty.clone()) {
                all.push((x.tok, t));
            }
        }
        for x in d.defs.iter().filter(|x| x.space == Space::Func && x.name.is_some()) {
            all.push((Span::new(x.span.e - 1, x.span.e), format!("(func {})", d.text(x.name.unwrap()))));
        }
        for (a, b) in &ranges {
            r.step();
            let rg = Span::new(*a, *b);
            let mut got: Vec<(usize, String)> = vec![];
            // a global that is exported may have a hint
            let open: BTreeSet<usize> = d.refs.iter().filter(|x| x.space == Space::Global && x.ctx != RefCtx::Instr).map(|x| x.tok.e).collect();
            for h in s.inlay(U, Range::new(l.pos(*a), l.pos(*b))).ok_or("no answer")? {
                let InlayHintLabel::String(t) = h.label else { return Err("label".into()) };
                let o = l.off(h.position).ok_or("hint outside of the document")?;
                if !open.contains(&o) {
                    got.push((o, t));
                }
            }
            got.sort();
            r.outcome(&format!("{got:?}"));
            let mut exp: Vec<(usize, String)> = all.iter().filter(|x| rg.contains(x.0)).map(|x| (x.0.e, x.1.clone())).collect();
            exp.sort();
            if got != exp {
                return Err(format!("hints in {a}..{b}: expected {exp:?}, got {got:?}"));
            }
        }
        Ok(())
    })
}
fn c18_cases(tier: Tier, emit: Emit) {
    view_docs(tier, emit);
    let tys = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];
    for t in tys {
        for u in tys {
            let src = format!("(module (import \"\" \"\" (global $h (mut {u}))) (global $g {t} (nop)) (global (mut {t}) (global.get $h)) (func $f (param $x {t}) (param {u} {t}) (local {u}) (local $y {t})\n local.get $x local.set 1 (local.tee 2 (local.get 3)) local.get $y local.get 5 global.get $g (global.set 2 (global.get 0)) global.get $h) (func $g (import \"\" \"\") (param $x {t})))");
            emit(Case::doc("types", src.clone()));
            if tier.thorough() || t == u {
                emit(Case::new("ranges", vec![src], vec![1]));
            }
        }
    }
    for f in FIELDS {
        for l in 0..LAYOUTS {
            if tier.thorough() || l == f.len() % LAYOUTS {
                emit(Case::new("ranges", vec![layout(&format!("(module (func $f) {f})"), l)], vec![1]));
            }
        }
    }
}
pub static C18: Property = Property { id: "C18", cases: c18_cases, check: c18_check, bounds: |t| format!("documents of C07 x every range between line and token boundaries (tier {:?})", t) };

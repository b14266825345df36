//! C11: operand counts, operand types and immediates are checked like the specification says.
use crate::engine::*;
use crate::gen::*;
use crate::nav::*;
use crate::ops::{self, Imm, ANY, CONTROL, DIVERGE};
use crate::refwat::{self, *};
use crate::svc::*;
use std::collections::HashSet;

type Rel = Option<Vec<Span>>;
#[derive(Clone, Debug)]
struct Exp {
    at: Span,
    msg: String,
    /// Some: the related locations must be these
    rel: Rel,
}
/// what must be reported, and what may be
#[derive(Default)]
struct Plan {
    must: Vec<Exp>,
    /// at least one report at the instruction or one of its operands
    some: Vec<(Span, HashSet<Span>)>,
    /// mismatch reports at these places are left open
    may_mismatch: HashSet<Span>,
    /// any report at these places is left open
    may_any: HashSet<Span>,
}

struct Param {
    ty: String,
    rel: Rel,
}
/// None: the types are not evident
struct Types {
    params: Option<Vec<Param>>,
    results: Option<Vec<String>>,
}

fn count_msg(want: usize, got: usize) -> String {
    format!("expected {want} {}, found {got}", if want == 1 { "operand" } else { "operands" })
}
fn diverges(d: &Doc, i: &Instr) -> bool {
    match i {
        Instr::Block(..) => false,
        Instr::Plain(p) => DIVERGE.contains(&d.text(p.name)) || inner(p).any(|i| diverges(d, i)),
    }
}
fn inner(p: &Plain) -> impl Iterator<Item = &Instr> {
    p.ops.iter().filter_map(|o| match o {
        Opd::Instr(i) => Some(i),
        _ => None,
    })
}
fn osp(d: &Doc, o: &Opd) -> Span {
    match o {
        Opd::Lit(t) => t.sp,
        Opd::TypeUse(s) => *s,
        Opd::Instr(i) => i.span(d),
    }
}
fn leading(p: &Plain) -> usize {
    p.ops.iter().take_while(|o| !matches!(o, Opd::Instr(_))).count()
}
fn types_of(d: &Doc, p: &Plain) -> Types {
    let none = Types { params: None, results: None };
    let name = d.text(p.name);
    let lit = match p.ops.first() {
        Some(Opd::Lit(t)) => Some(t.sp),
        _ => None,
    };
    match name {
        "nop" => Types { params: None, results: Some(vec![]) },
        "call" => {
            let Some(f) = d.refs.iter().find(|r| Some(r.tok) == lit && r.space == Space::Func).and_then(|r| d.resolve(r).first().copied()) else { return none };
            let sig = if d.defs[f].sig.is_none() && d.defs[f].type_ref.is_none() { Some(Sig { params: vec![], results: vec![] }) } else { d.sig_of(f) };
            let Some(sig) = sig else { return none };
            let own: Vec<Span> = d.funcs.iter().position(|x| x.def == f).map(|k| d.locals.iter().filter(|l| l.func == k && l.is_param).map(|l| l.node).collect()).unwrap_or_default();
            let def = &d.defs[f];
            Types {
                params: Some(
                    sig.params
                        .iter()
                        .enumerate()
                        .map(|(i, (t, _))| Param {
                            ty: t.clone(),
                            // what is related to parameters of imported functions is left open
                            rel: if def.imported { None } else { Some(own.get(i).map(|s| vec![*s]).unwrap_or_default()) },
                        })
                        .collect(),
                ),
                results: Some(sig.results),
            }
        }
        _ => {
            let Some(o) = ops::op(name) else { return none };
            let params = o.params.iter().map(|t| Param { ty: t.to_string(), rel: Some(vec![]) }).collect();
            let results = match name {
                "local.get" => {
                    d.local_refs.iter().find(|r| Some(r.tok) == lit).and_then(|r| match d.resolve_local(r) {
                        Local::Def(i) => Some(vec![d.locals[i].ty.clone()]),
                        Local::FromType(t) => Some(vec![t]),
                        Local::None => None,
                    })
                }
                "global.get" => d
                    .refs
                    .iter()
                    .find(|r| Some(r.tok) == lit && r.space == Space::Global)
                    .and_then(|r| d.resolve(r).first().copied())
                    .and_then(|g| d.defs[g].ty.clone())
                    .map(|t| vec![t]),
                _ => Some(o.results.iter().map(|t| t.to_string()).collect()),
            };
            Types { params: Some(params), results }
        }
    }
}
/// least and greatest number of immediates
fn imm_range(d: &Doc, p: &Plain) -> Option<(usize, usize)> {
    let name = d.text(p.name);
    if matches!(name, "call" | "br" | "br_if") {
        return Some((1, 1));
    }
    Some(match ops::op(name)?.imm {
        Imm::None => (0, 0),
        Imm::Index | Imm::Int | Imm::Float | Imm::Lane | Imm::HeapType | Imm::V128 => (1, 1),
        Imm::Indices(a, b) => (a, b),
        Imm::Mem => (0, 2),
        Imm::MemLane => (1, 3),
        Imm::Lanes16 => (16, 16),
        Imm::Select if p.ops.iter().any(|o| matches!(o, Opd::Lit(_))) => (0, 0),
        Imm::Select => (0, usize::MAX),
    })
}
fn mismatch(want: &Param, got: &str, at: Span) -> Option<Exp> {
    (want.ty != ANY && got != ANY && want.ty != got).then(|| Exp { at, msg: format!("expected type `{}`, found `{got}`", want.ty), rel: want.rel.clone() })
}

fn literal(d: &Doc, p: &Plain, plan: &mut Plan) {
    let name = d.text(p.name);
    let n = leading(p);
    let kind = |t: &Tok| -> &'static str {
        let s = d.text(t.sp);
        if s.starts_with('$') {
            "id"
        } else if s.starts_with('"') {
            "str"
        } else if refwat::is_int(s) {
            "int"
        } else if refwat::is_float(s) {
            "float"
        } else if refwat::is_memarg(s) {
            "mem"
        } else {
            "word"
        }
    };
    let index: (&[&str], &str) = (&["id", "int"], "expected identifier or unsigned integer");
    let mem: (&[&str], &str) = (&["mem"], "expected memory argument");
    let imm = match name {
        "call" | "br" | "br_if" => Imm::Index,
        _ => match ops::op(name) {
            Some(o) => o.imm,
            None => return,
        },
    };
    for (i, o) in p.ops.iter().take(n).enumerate() {
        let want = match imm {
            Imm::Index | Imm::Lane if i == 0 => index,
            Imm::Indices(_, m) if i < m => index,
            Imm::Int if i == 0 => (&["int"][..], "expected integer"),
            Imm::Float if i == 0 => (&["float", "int"][..], "expected floating-point number"),
            Imm::Mem if i < 2 => mem,
            Imm::MemLane if n <= 3 && i + 1 < n => mem,
            Imm::MemLane if n <= 3 => index,
            Imm::Lanes16 if i == 0 => index,
            _ => {
                // superfluous ones and the shape of vector constants: not judged here
                plan.may_any.insert(osp(d, o));
                continue;
            }
        };
        let ok = match o {
            Opd::Lit(t) => want.0.contains(&kind(t)),
            _ => false,
        };
        if ok {
            continue;
        }
        match o {
            Opd::Lit(t) => plan.must.push(Exp { at: t.sp, msg: want.1.into(), rel: Some(vec![]) }),
            // the report is at the opening parenthesis of a type use
            _ => {
                let sp = osp(d, o);
                plan.must.push(Exp { at: Span::new(sp.s, sp.s + 1), msg: want.1.into(), rel: Some(vec![]) });
            }
        }
    }
}

fn folded(d: &Doc, p: &Plain, plan: &mut Plan) {
    let Some(range) = imm_range(d, p) else { return };
    let n = leading(p);
    let lits = p.ops.iter().filter(|o| !matches!(o, Opd::Instr(_))).count();
    let everywhere: HashSet<Span> = p.ops.iter().map(|o| osp(d, o)).chain([p.span]).collect();
    let t = types_of(d, p);
    if n < range.0 {
        // a missing immediate: reported somehow, if the types are known
        if t.params.is_some() {
            plan.some.push((p.span, everywhere.clone()));
        }
        plan.may_any.extend(everywhere);
        plan.may_any.extend(p.ops.iter().map(|o| osp(d, o)).map(|s| Span::new(s.s, s.s + 1)));
        return;
    }
    if n > range.1 || lits > n {
        // superfluous or misplaced immediates
        if !matches!(d.text(p.name), "call" | "br" | "br_if" | "select") {
            let mut rest = false;
            for (i, o) in p.ops.iter().enumerate() {
                rest |= matches!(o, Opd::Instr(_)) || i >= range.1;
                if rest && !matches!(o, Opd::Instr(_)) {
                    plan.must.push(Exp { at: osp(d, o), msg: "expected instr".into(), rel: Some(vec![]) });
                }
            }
        }
        plan.may_any.extend(everywhere);
        return;
    }
    let Some(params) = t.params else { return };
    let mut got: Vec<(String, Span)> = vec![];
    let mut known = true;
    for i in inner(p) {
        let ty = match i {
            Instr::Block(..) => None,
            Instr::Plain(q) => {
                if diverges(d, i) {
                    None
                } else {
                    types_of(d, q).results
                }
            }
        };
        match ty {
            Some(ts) => got.extend(ts.into_iter().map(|t| (t, i.span(d)))),
            None => known = false,
        }
    }
    if !known {
        // what stands before or behind a block or branch may belong to it
        plan.may_mismatch.extend(got.iter().map(|g| g.1));
        return;
    }
    if got.len() != params.len() {
        plan.must.push(Exp { at: p.span, msg: count_msg(params.len() + n, got.len() + n), rel: Some(vec![]) });
        plan.may_mismatch.extend(got.iter().map(|g| g.1));
        return;
    }
    for (w, (g, at)) in params.iter().zip(&got) {
        plan.must.extend(mismatch(w, g, *at));
    }
}

fn flat(d: &Doc, body: &[Instr], plan: &mut Plan) {
    let mut st: Vec<(String, Span)> = vec![];
    let mut known = true;
    for i in body {
        let Instr::Plain(p) = i else {
            st.clear();
            known = false;
            continue;
        };
        let name = d.text(p.name);
        let t = types_of(d, p);
        let imms_ok = imm_range(d, p).is_none_or(|r| leading(p) >= r.0);
        if name != "nop" && (t.params.is_none() || !imms_ok) {
            if let Some(ps) = t.params.filter(|_| !p.folded) {
                // an incomplete instruction: what is said about it is left open
                plan.may_any.insert(p.span);
                plan.may_mismatch.extend(st.iter().rev().take(ps.len()).map(|s| s.1));
            }
            if !imms_ok {
                // the tool goes on with the types it knows
                plan.may_any.extend(body.iter().map(|i| i.span(d)));
                return;
            }
            st.clear();
            known = false;
            continue;
        }
        if !p.folded && name != "nop" {
            let ps = t.params.unwrap();
            if st.len() < ps.len() {
                if known {
                    plan.must.push(Exp { at: p.span, msg: count_msg(ps.len(), st.len()), rel: Some(vec![]) });
                    plan.may_mismatch.extend(st.iter().map(|s| s.1));
                } else {
                    let k = ps.len() - st.len();
                    for (w, (g, at)) in ps[k..].iter().zip(&st) {
                        plan.must.extend(mismatch(w, g, *at));
                    }
                }
                st.clear();
            } else {
                let k = st.len() - ps.len();
                for (w, (g, at)) in ps.iter().zip(&st[k..]) {
                    plan.must.extend(mismatch(w, g, *at));
                }
                st.truncate(k);
            }
        }
        match t.results.filter(|_| !diverges(d, i)) {
            Some(r) => st.extend(r.into_iter().map(|t| (t, p.span))),
            None => {
                st.clear();
                known = false;
            }
        }
    }
}

const PREFIXES: [&str; 6] = ["expected type `", "expected instr", "expected integer", "expected floating-point", "expected memory argument", "expected identifier or"];
fn is_ours(m: &str) -> bool {
    PREFIXES.iter().any(|p| m.starts_with(p)) || (m.starts_with("expected ") && m.contains(" operand") && m.contains(", found "))
}

fn c11_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    let src = &c.texts[0];
    // the spaces also contain malformed combinations, which C03 is about
    let mut d = match refwat::parse(src) {
        Ok(d) => d,
        Err(e) => {
            if c.params.first() == Some(&1) {
                r.skipped += 1;
                return Ok(());
            }
            return Err(format!("{HARNESS}{e}"));
        }
    };
    let s = Svc::open(src);
    let l = Lines::new(src);
    let mut got: Vec<(Span, String, Vec<Span>)> = vec![];
    for x in s.diagnostics(U) {
        if x.message.starts_with("cannot find `") || x.message.starts_with("duplicated name") || x.message.starts_with("only one module") {
            continue;
        }
        if !is_ours(&x.message) {
            return Err(format!("unexpected report {x:?}"));
        }
        if x.severity != Some(lsp_types::DiagnosticSeverity::ERROR) {
            return Err(format!("not an error: {x:?}"));
        }
        let sp = l.span(x.range).ok_or_else(|| format!("range outside of the document: {x:?}"))?;
        let mut rel = vec![];
        for i in x.related_information.unwrap_or_default() {
            if i.location.uri.to_string() != U {
                return Err("related location in another document".into());
            }
            rel.push(l.span(i.location.range).ok_or("related range outside of the document")?);
        }
        got.push((sp, x.message, rel));
    }
    r.outcome(&format!("{:?}", got.iter().map(|g| &g.1).collect::<Vec<_>>()));
    with_quirks(&mut d, r, &[0, 1], |d, r| {
        r.step();
        let mut plan = Plan::default();
        for p in &d.plains {
            literal(d, p, &mut plan);
            if p.folded {
                folded(d, p, &mut plan);
            }
        }
        for f in &d.funcs {
            flat(d, &f.body, &mut plan);
        }
        for (_, b) in &d.inits {
            flat(d, b, &mut plan);
        }
        let mut rest = got.clone();
        for e in &plan.must {
            let k = rest.iter().position(|g| g.0 == e.at && g.1 == e.msg && e.rel.as_ref().is_none_or(|w| *w == g.2));
            match k {
                Some(k) => {
                    rest.remove(k);
                }
                None => return Err(format!("`{}` is not reported at {:?} `{}` (related {:?}); reported: {got:?}", e.msg, e.at, d.text(e.at), e.rel)),
            }
        }
        for (at, ev) in &plan.some {
            if !got.iter().any(|g| ev.contains(&g.0)) {
                return Err(format!("nothing is reported for the incomplete instruction `{}`", d.text(*at)));
            }
        }
        for g in &rest {
            if plan.may_any.contains(&g.0) || (g.1.starts_with("expected type") && plan.may_mismatch.contains(&g.0)) {
                continue;
            }
            return Err(format!("`{}` reported without reason at {:?} `{}`", g.1, g.0, d.text(g.0)));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- spaces

const HEAD: &str = "(module (type $t (func (param i32 f32) (result i64))) (memory 1) (table 1 funcref) (global $g (mut f64) (f64.const 0)) (func $f (param $x i32) (param f32 f64) (result i64 v128) (unreachable)) (func $e) (func $k (type $t) (unreachable)) (func $m (import \"\" \"\") (param i64)) ";
fn in_func(body: &str) -> String {
    format!("{HEAD}(func (param $p i64) (local $l f32) {body}))")
}
fn const_of(ty: &str) -> &'static str {
    match ty {
        "i32" | "?" => "i32.const 1",
        "i64" => "i64.const 1",
        "f32" => "f32.const 1",
        "f64" => "f64.const 1",
        "v128" => "v128.const 1",
        _ => "ref.func $f",
    }
}
const ALL_TYS: [&str; 7] = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];
const TYS: [&str; 6] = ["i32", "i64", "f32", "f64", "v128", "funcref"];
fn imms(i: Imm) -> Vec<&'static str> {
    match i {
        Imm::None => vec![""],
        Imm::Index => vec!["$l", "0", "1", "$g", "$f"],
        Imm::Indices(0, 1) => vec!["", "0", "$t"],
        Imm::Indices(0, _) => vec!["", "0", "0 1"],
        Imm::Indices(..) => vec!["0", "0 $e"],
        Imm::Int => vec!["0", "-0x1_F"],
        Imm::Float => vec!["1.5", "0", "nan", "-inf"],
        Imm::Mem => vec!["", "offset=4", "align=8", "offset=0x4 align=1"],
        Imm::MemLane => vec!["0", "offset=4 0", "offset=4 align=1 1"],
        Imm::Lane => vec!["0"],
        Imm::Lanes16 => vec!["0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15"],
        Imm::Select => vec!["", "(result i32)", "(result f32 i64)", "(result i32) (result)"],
        Imm::HeapType => vec!["func", "extern"],
        Imm::V128 => vec!["1", "i32x4 1 2 3 4"],
    }
}
/// every instruction with the right operands, one of another type, one more, one less
fn each_op(name: &str, params: &[&str], imms: &[&str], results: usize, emit: Emit) {
    let mut lists: Vec<Vec<&str>> = vec![params.to_vec()];
    for i in 0..params.len() {
        for t in TYS {
            let mut l = params.to_vec();
            l[i] = t;
            lists.push(l);
        }
        let mut l = params.to_vec();
        l.remove(i);
        lists.push(l);
    }
    for i in 0..=params.len() {
        for t in ["i32", "f64"] {
            let mut l = params.to_vec();
            l.insert(i, t);
            lists.push(l);
        }
    }
    if params.len() > 1 {
        let mut l = params.to_vec();
        l.reverse();
        lists.push(l);
        lists.push(vec![]);
    }
    for im in imms {
        for l in &lists {
            let ops: String = l.iter().map(|t| format!(" ({})", const_of(t))).collect();
            let f = format!("({name} {im}{ops})");
            // its results are consumed by something that shows their type
            emit(Case::new("instr-folded", vec![in_func(&f)], vec![1]));
            let ops: String = l.iter().map(|t| format!("{} ", const_of(t))).collect();
            emit(Case::new("instr-flat", vec![in_func(&format!("{ops}{name} {im}"))], vec![1]));
        }
        // the types of the results
        let ok: String = params.iter().map(|t| format!(" ({})", const_of(t))).collect();
        let flat: String = params.iter().map(|t| format!("{} ", const_of(t))).collect();
        for u in ["i32.eqz", "i64.eqz", "f32.abs", "f64.abs", "v128.not", "drop", "call $m"] {
            emit(Case::new("result-folded", vec![in_func(&format!("({u} ({name} {im}{ok}))"))], vec![1]));
            emit(Case::new("result-flat", vec![in_func(&format!("{flat}{name} {im} {u}"))], vec![1]));
        }
        let _ = results;
    }
}

fn c11_cases(tier: Tier, emit: Emit) {
    crate::ladder::ladder(tier, &mut |sp, t| emit(Case::new(sp, vec![t], vec![1])));
    for o in ops::table() {
        each_op(&o.name, &o.params, &imms(o.imm), o.results.len(), emit);
    }
    for c in CONTROL {
        for im in ["", "0", "$f", "(type $t)", "0 1"] {
            for l in [&[][..], &["i32"], &["i64"], &["i32", "f32"]] {
                let ops: String = l.iter().map(|t| format!(" ({})", const_of(t))).collect();
                for u in ["", "drop", "i32.eqz", "call $f"] {
                    emit(Case::new("control", vec![in_func(&format!("({c} {im}{ops}) {u}"))], vec![1]));
                    emit(Case::new("control", vec![in_func(&format!("({u} ({c} {im}{ops}))"))], vec![1]));
                    let ops: String = l.iter().map(|t| format!("{} ", const_of(t))).collect();
                    emit(Case::new("control", vec![in_func(&format!("{ops}{c} {im} {u}"))], vec![1]));
                }
            }
        }
    }
    // callees
    let callees = [
        "(func $c)",
        "(func $c (param i32))",
        "(func $c (param $a i32))",
        "(func $c (param $a i32) (param f32) (result f32))",
        "(func $c (param i32 f32) (result i32 f32))",
        "(func $c (result i64))",
        "(func $c (param) (result))",
        "(func $c (local i32))",
        "(func $c (type $t1))",
        "(func $c (type $t2))",
        "(func $c (type $t1) (param i32) (param f32) (result f32))",
        "(func $c (type $nope))",
        "(func $c (type 1) (local i64))",
        "(func $c (export \"e\") (param i32) (result f32))",
        "(func $c (import \"\" \"\") (param i32 f32) (result f32))",
        "(func $c (import \"\" \"\") (type $t1))",
        "(func $c (import \"\" \"\"))",
        "(import \"\" \"\" (func $c (param i32 f32) (result f32)))",
        "(import \"\" \"\" (func $c (type $t1)))",
        "(import \"\" \"\" (func $c))",
        "",
    ];
    let args = ["", "i32", "f32", "i32 f32", "f32 i32", "i32 i32", "i32 f32 i64"];
    let types = "(type $t1 (func (param i32 f32) (result f32))) (type $t2 (func))";
    for k in callees {
        for at in 0..4 {
            for idx in ["$c", "0", "1", "2"] {
                for a in args {
                    let list: Vec<&str> = a.split_whitespace().map(const_of).collect();
                    let fo: String = list.iter().map(|x| format!(" ({x})")).collect();
                    let fl: String = list.iter().map(|x| format!("{x} ")).collect();
                    for (body, sp) in [(format!("(call {idx}{fo})"), "call-folded"), (format!("{fl}call {idx}"), "call-flat"), (format!("(f32.abs (call {idx}{fo}))"), "call-result"), (format!("{fl}(i32.const 1) call {idx} f32.add"), "call-result")] {
                        let u = format!("(func $u {body})");
                        let m = match at {
                            0 => format!("(module {types} {k} {u})"),
                            1 => format!("(module {u} {k} {types})"),
                            2 => format!("(module {k} {types} {u})"),
                            _ => format!("(module (func (param f64)) {types} {u} {k})"),
                        };
                        if at < 2 || tier.thorough() || idx == "$c" {
                            emit(Case::new(sp, vec![m], vec![1]));
                        }
                    }
                }
            }
        }
    }
    // variables
    let vars = ["local.get $p", "local.get $l", "local.get 0", "local.get 1", "local.get 2", "local.get 3", "local.get $nope", "global.get $g", "global.get 0", "global.get 1", "global.get $nope", "local.tee $p (i32.const 1)", "local.tee 0"];
    let heads = [
        "(param $p i32) (local $l f32)",
        "(param $p i32) (local $l f32 )(local i64 v128)",
        "(param i32 f64) (param $p f32) (local $l i64)",
        "(type $s) (local $l f32)",
        "(type $s) (param $p i64) (local f64 i32)",
        "(local $l f64)",
        "",
    ];
    let globals = ["(global $g i32 (i32.const 0))", "(global $g (mut f32) (f32.const 0)) (global i64 (i64.const 0))", "(import \"\" \"\" (global $g (mut v128)))", "(global $g (import \"\" \"\") f64)", ""];
    for v in vars {
        for h in heads {
            for g in globals {
                for u in ["i32.eqz", "i64.eqz", "f32.abs", "f64.abs", "v128.not"] {
                    for s in [format!("(module (type $s (func (param i64))) {g} (func {h} ({u} ({v}))))"), format!("(module {g} (func {h} {v} {u}) (type $s (func (param i64))))")] {
                        emit(Case::new("variables", vec![s], vec![1]));
                    }
                }
            }
        }
    }
    // every type against every type, from every source to every consumer
    for a in ALL_TYS {
        let sources = [
            ("", format!("(param $v {a})"), "local.get $v"),
            ("", format!("(param {a})"), "local.get 0"),
            ("", format!("(param f32 {a})"), "local.get 1"),
            ("", format!("(param f32) (local {a} {a})"), "local.get 2"),
            ("", format!("(local $v {a})"), "local.get $v"),
            (&*format!("(type $s (func (param {a})))"), "(type $s)".to_string(), "local.get 0"),
            (&*format!("(global $v {a} (unreachable))"), String::new(), "global.get $v"),
            (&*format!("(global $v (mut {a}) (unreachable))"), String::new(), "global.get 0"),
            (&*format!("(import \"\" \"\" (global $v {a}))"), String::new(), "global.get $v"),
            (&*format!("(import \"\" \"\" (global $v (mut {a})))"), String::new(), "global.get $v"),
            (&*format!("(global $v (import \"\" \"\") {a})"), String::new(), "global.get $v"),
            (&*format!("(func $v (result {a}) (unreachable))"), String::new(), "call $v"),
            (&*format!("(type $s (func (result {a}))) (func $v (type $s) (unreachable))"), String::new(), "call $v"),
            (&*format!("(import \"\" \"\" (func $v (result {a})))"), String::new(), "call $v"),
        ]
        .map(|(x, y, z)| (x.to_string(), y, z));
        for b in ALL_TYS {
            let sinks = [format!("(func $w (param {b}))"), format!("(func $w (param $x {b}))"), format!("(type $u (func (param $x {b}))) (func $w (type $u))"), format!("(import \"\" \"\" (func $w (param {b})))")];
            for (def, head, src) in &sources {
                for w in &sinks {
                    emit(Case::new("type-pairs", vec![format!("(module {def} {w} (func {head} (call $w ({src}))))")], vec![1]));
                    emit(Case::new("type-pairs", vec![format!("(module (func {head} {src} call $w) {def} {w})")], vec![1]));
                }
            }
        }
    }
    // sequences of flat instructions, also mixed with folded ones and blocks
    let alpha = ["i32.const 1", "f32.const 1", "i64.add", "i32.add", "drop", "select", "local.get $p", "local.set $l", "call $f", "call $k", "call $m", "block end", "unreachable", "nop", "(i32.const 1)", "(drop (i32.const 1))", "i32.store", "(block)", "global.get $g", "return", "br_if 0", "foo", "i64.const 1", "(i32.eqz (br 0))"];
    sequences_upto(&alpha[..tier.pick(14, 24)], 4, &mut |s| emit(Case::new("flat", vec![in_func(&s.join(" "))], vec![1])));
    sequences_upto(&alpha, 3, &mut |s| emit(Case::new("flat", vec![in_func(&s.join(" "))], vec![1])));
    if tier.thorough() {
        sequences(&alpha[..14], 5, &mut |s| emit(Case::new("flat", vec![in_func(&s.join(" "))], vec![1])));
    }
    sequences_upto(&alpha, 3, &mut |s| emit(Case::new("global-init", vec![format!("(module (global $g (mut f64) {}) (func $f (param i32) (result i64)))", s.join(" "))], vec![1])));
    // two functions do not share a stack, blocks neither
    for a in alpha {
        for b in alpha {
            emit(Case::new("flat-two", vec![format!("{HEAD}(func (param $p i64) (local $l f32) {a}) (func (param $p i32) (local $l f32) {b}))")], vec![1]));
            emit(Case::new("flat-nested", vec![in_func(&format!("{a} (block {b}) drop"))], vec![1]));
            emit(Case::new("flat-nested", vec![in_func(&format!("{a} (block) {b}"))], vec![1]));
            emit(Case::new("flat-nested", vec![in_func(&format!("block {a} {b} end {b}"))], vec![1]));
        }
    }
    // folded trees
    let h = ["i32.add", "f32.add", "i64.eqz", "drop", "select", "select (result i32)", "i32.store offset=1", "i64.store", "local.set $l", "local.tee 0", "call $f", "call $k", "call $e", "call $nope", "memory.fill", "table.set", "br_if 0", "i32.const 1", "nop", "foo"];
    let o = ["(i32.const 1)", "(f32.const 1)", "(i64.const 1)", "(local.get $p)", "(call $f)", "(call $k (i32.const 1) (f32.const 1))", "(nop)", "(drop (i32.const 1))", "(block (result i32) (i32.const 1))", "(unreachable)", "(i32.eqz (f32.const 1))", "(drop (unreachable))", "(foo)"];
    for x in h {
        sequences_upto(&o, tier.pick(3, 4), &mut |s| emit(Case::new("folded", vec![in_func(&format!("({x} {})", s.join(" ")))], vec![1])));
        for y in h {
            for s in ["(i32.const 1)", "(i32.const 1) (f32.const 1)", "(local.get 0) (i64.const 1)", "(f32.const 1) (f32.const 1) (i32.const 0)", "(block)"] {
                for t in ["", "(i32.const 1)", "(f32.const 1) (i32.const 2)"] {
                    emit(Case::new("folded-deep", vec![in_func(&format!("({x} ({y} {s}) {t})"))], vec![1]));
                    emit(Case::new("folded-deep", vec![in_func(&format!("(block (if (i32.const 1) (then ({x} {t} ({y} {s})))))"))], vec![1]));
                    emit(Case::new("folded-deep", vec![in_func(&format!("if {y} else ({x} {t} ({y} {s})) end"))], vec![1]));
                }
            }
        }
    }
    // immediates
    let lits = ["0", "$l", "1.0", "\"\"", "offset=1", "align=2", "-1", "inf", "func"];
    let names: Vec<String> = ops::table().iter().filter(|o| o.imm != Imm::None).map(|o| o.name.clone()).chain(["i32.add", "drop", "i32.eqz", "memory.size", "memory.fill", "call", "br", "br_if", "br_table", "nop", "unreachable", "return", "foo"].map(String::from)).collect();
    for n in &names {
        let params = ops::op(n).map(|o| o.params.clone()).unwrap_or_default();
        let ok: String = params.iter().map(|t| format!(" ({})", const_of(t))).collect();
        sequences_upto(&lits, tier.pick(2, 3), &mut |s| {
            let s = s.join(" ");
            emit(Case::new("immediates", vec![in_func(&format!("({n} {s}{ok})"))], vec![1]));
            emit(Case::new("immediates", vec![in_func(&format!("({n} {s})"))], vec![1]));
            emit(Case::new("immediates", vec![in_func(&format!("{n} {s}"))], vec![1]));
            if s.len() < 9 {
                emit(Case::new("immediates", vec![in_func(&format!("({n}{ok} {s})"))], vec![1]));
            }
        });
    }
}
pub static C11: Property = Property { id: "C11", cases: c11_cases, check: c11_check, bounds: |t| format!("every instruction of the specification x operand counts n-1..n+1, folded and flat, x every wrong type per operand; calls with signatures of every origin; flat sequences of <= {} instructions; every immediate", t.pick(3, 4)) };

//! Documents that grow along one dimension, every size up to a bound: what holds for one or two of
//! something has to hold for every number of them (limits, thresholds, quadratic slips).
use crate::engine::*;
use crate::gen::*;
use crate::nav::{named, SHELLS};

pub fn sizes(tier: Tier) -> Vec<usize> {
    if tier.thorough() {
        (1..=40).chain([48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]).collect()
    } else {
        (1..=20).chain([31, 32, 33, 64, 65, 100]).collect()
    }
}
/// every second one has a name
fn nm(i: usize, p: &str) -> String {
    if i % 2 == 1 {
        format!("${p}{i}")
    } else {
        String::new()
    }
}
fn id(i: usize, p: &str) -> String {
    if i % 2 == 1 {
        format!("${p}{i}")
    } else {
        i.to_string()
    }
}
fn rep(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(sep)
}
const TYS: [&str; 4] = ["i32", "f64", "i64", "f32"];

/// Documents whose meaning depends on counting.
pub fn ladder(tier: Tier, emit: &mut dyn FnMut(&str, String)) {
    for n in sizes(tier) {
        // definitions of one kind, each used by name and by index
        for (def, use_) in [
            ("(func@ (param TY))", "(func call U (call U))"),
            ("(import \"\" \"\" (func@ (param TY)))", "(func call U (ref.func U))"),
            ("(type@ (func (param TY)))", "(func (type U))"),
            ("(global@ TY (nop))", "(func global.get U drop)"),
            ("(memory@ 1)", "(export \"\" (memory U))"),
            ("(table@ 1 funcref)", "(func table.size U)"),
        ] {
            let d = |i: usize| named(def, &nm(i, "d")).replace("TY", TYS[i % 4]);
            let u = |i: usize| use_.replace('U', &id(i, "d"));
            if def.contains("func@") {
                emit("ladder/defs", format!("(module {} (func {}))", rep(n, " ", d), rep(n + 1, " ", |i| format!("call {}", id(i, "d")))));
                // the last, the middle and one too many; uses first
                emit("ladder/defs", format!("(module (start {}) (elem func {} {} {n}) {})", id(n - 1, "d"), id(n / 2, "d"), n - 1, rep(n, "\n", d)));
            } else {
                emit("ladder/defs", format!("(module {} {})", rep(n, " ", d), rep(n + 1, " ", u)));
                emit("ladder/defs", format!("(module {} {})", u(n - 1), rep(n, "\n", d)));
            }
            // many uses of one definition
            emit("ladder/uses", format!("(module {} {})", named(def, "$a").replace("TY", "i32"), rep(n, " ", |i| use_.replace('U', if i % 2 == 0 { "$a" } else { "0" }))));
        }
        emit("ladder/uses-one-func", format!("(module (func $a (param $x i32) {}))", rep(n, " ", |i| ["call $a", "local.get $x", "(local.set 0 (i32.const 1))", "(call 0 (local.get 0))"][i % 4].into())));
        // params, results and locals
        let p = |i: usize| format!("(param {} {})", nm(i, "p"), TYS[i % 4]);
        let l = |i: usize| format!("(local {} {})", nm(i, "l"), TYS[(i + 1) % 4]);
        emit("ladder/params", format!("(module (func $f {} {}) (start $f))", rep(n, " ", p), rep(n + 1, " ", |i| format!("local.get {}", id(i, "p")))));
        emit("ladder/params", format!("(module (func $f (param {}) (local {}) {}))", rep(n, " ", |i| TYS[i % 4].into()), rep(n, " ", |i| TYS[(i + 1) % 4].into()), rep(2 * n + 1, " ", |i| format!("local.get {i}"))));
        emit("ladder/params", format!("(module (func $f (param $x i32) {} local.get $x local.get {} (local.get {n}) local.get {}))", rep(n, "\n", l), id(n - 1, "l"), n + 1));
        emit("ladder/params", format!("(module (type $t (func {} (result {}))) (func $f (type $t) (local $z i32) local.get $z) (func (call $f {})))", rep(n, " ", p), rep(n, " ", |i| TYS[i % 4].into()), rep(n, " ", |i| format!("({}.const {i})", TYS[i % 4]))));
        // operands
        for k in [n - 1, n, n + 1] {
            let ops = rep(k, " ", |i| format!("({}.const {i})", TYS[i % 4]));
            let flat = rep(k, " ", |i| format!("{}.const {i}", TYS[i % 4]));
            emit("ladder/operands", format!("(module (func $f {}) (func (call $f {ops})) (func {flat} call $f))", rep(n, " ", p)));
        }
        emit("ladder/results", format!("(module (func $f (result {}) unreachable) (func call $f {}) (func (drop (call $f))))", rep(n, " ", |i| TYS[i % 4].into()), rep(n, " ", |i| if i == 0 { "local.set 0".into() } else { "drop".into() })));
        // labels
        if n <= 40 {
            for (i, (a, x)) in SHELLS.iter().enumerate() {
                if !tier.thorough() && n > 12 && i % 4 != n % 4 {
                    continue;
                }
                let open: String = rep(n, "", |i| named(a, &nm(i, "l")));
                let close: String = (0..n).rev().map(|i| named(x, &nm(i, "l"))).collect::<Vec<_>>().concat();
                emit("ladder/nested", format!("(module (func {open} br_table {} {} {close}))", rep(n + 1, " ", |i| i.to_string()), rep(n / 2, " ", |i| format!("$l{}", 2 * i + 1))));
                let (open, close) = (named(a, "$l").repeat(n), named(x, "$l").repeat(n));
                emit("ladder/nested", format!("(module (func {open} br $l br {} (br_if {} (nop)) {close}))", n - 1, n / 2));
            }
        }
        emit("ladder/siblings", format!("(module (func {}))", rep(n, " ", |i| named(SHELLS[i % SHELLS.len()].0, &nm(i, "l")) + &format!("br {} br 0", if i % 2 == 1 { format!("$l{i}") } else { "0".into() }) + &named(SHELLS[i % SHELLS.len()].1, &nm(i, "l")))));
        // modules
        emit("ladder/modules", rep(n, "\n", |i| format!("(module (func {} call {} call 0))", nm(i, "f"), if i % 2 == 1 { format!("$f{i}") } else { "0".into() })));
        // names, strings, comments, blank lines
        emit("ladder/long", "(module (func $L (param $L i32) (block $L (br $L) (call $L (local.get $L)))) (export \"L\" (func $L)) (func (call $Lx) (local.get $L)))".replace('L', &"n".repeat(n)));
        emit("ladder/lines", format!("(module{}(func $f{}call $f) (start{} $f))", "\n".repeat(n), "\n ".repeat(n), "\r\n".repeat(n)));
        emit("ladder/columns", format!("(module{}(func $f{}call $f)(;{};) (start $f))", " ".repeat(n), "\t".repeat(n), "é".repeat(n)));
        emit("ladder/comments", format!("(module {} (func $f call $f) (start $f))", rep(n, "", |i| format!(";;; c{i}\n"))));
    }
    // more than a byte can count
    if !tier.thorough() {
        for n in [257] {
            emit("ladder/byte", format!("(module (start {}) (elem func 0 1 {n}) {})", n - 1, "(func)".repeat(n)));
            emit("ladder/byte", format!("(module {} (func (type {}) global.get 0 global.get 256))", "(type (func))".repeat(n), n - 1));
            emit("ladder/byte", format!("(module (func (param{}) (local i32 i64) local.get 0 local.get 1 local.get {n} (local.get {})))", " f32".repeat(n - 1), n - 1));
        }
    }
    alike(tier, emit);
}

/// Nested labels and functions that look alike: every combination.
pub fn alike(tier: Tier, emit: &mut dyn FnMut(&str, String)) {
    for depth in 1..=tier.pick(5, 6) {
        for code in 0..3usize.pow(depth as u32) {
            let lab: Vec<&str> = (0..depth).map(|i| ["", "$a", "$b"][code / 3usize.pow(i as u32) % 3]).collect();
            for (i, (a, x)) in SHELLS.iter().enumerate() {
                if i != code % SHELLS.len() && i != 0 && !tier.thorough() {
                    continue;
                }
                let open: String = lab.iter().map(|l| named(a, l)).collect();
                let close: String = lab.iter().rev().map(|l| named(x, l)).collect();
                emit("alike/labels", format!("(module (func {open} br $a br $b br {} br_table {} {} {close} br $a))", depth - 1, depth / 2, depth));
            }
        }
    }
    // definitions of every two kinds with names that are easily mixed up, used everywhere
    const NAMES: &[&str] = &["$a", "$A", "$ab", "$a.", "$0", "$aa", "$$a", "$_a"];
    const KINDS: &[(&str, &str, &str)] = &[
        ("(func @)", "call @ (ref.func @)", "(start @) (export \"\" (func @)) (elem func @ 0)"),
        ("(type @ (func))", "(block (type @)) call_indirect (type @)", "(import \"\" \"\" (func (type @)))"),
        ("(global @ i32 (i32.const 0))", "global.get @ (global.set @)", "(export \"\" (global @)) (global i32 (global.get @))"),
        ("(table @ 0 funcref)", "table.get @ (table.copy @ 0) call_indirect @ (type 0)", "(export \"\" (table @)) (elem (table @) (i32.const 0))"),
        ("(memory @ 1)", "nop", "(export \"\" (memory @)) (data (memory @) (i32.const 0))"),
    ];
    for (i, x) in NAMES.iter().enumerate() {
        for (j, y) in NAMES.iter().enumerate() {
            if !tier.thorough() && i != 0 && j != 0 && i != j {
                continue;
            }
            for (k, a) in KINDS.iter().enumerate() {
                for (m, b) in KINDS.iter().enumerate() {
                    if m == k && i == j {
                        continue;
                    }
                    let (u, v) = (KINDS[(k + 1) % KINDS.len()], KINDS[(m + 2) % KINDS.len()]);
                    emit("alike/names", format!("(module {} {} (func (param {x} i32) (local {y} i32) {} {} {} {} local.get {x} (local.set {y}) block {x} (loop {y} br {x} br {y}) end {x}) {} {})", a.0.replace('@', x), b.0.replace('@', y), a.1.replace('@', x), b.1.replace('@', y), u.1.replace('@', x), v.1.replace('@', y), a.2.replace('@', x), b.2.replace('@', y)));
                }
            }
        }
    }
    // definitions of another module, named or not, before or behind the uses
    for (k, a) in KINDS.iter().enumerate() {
        for (m, b) in KINDS.iter().enumerate() {
            for x in ["", "$a", "$b"] {
                for y in ["", "$a"] {
                    if !tier.thorough() && k != m && x == "$b" {
                        continue;
                    }
                    let one = format!("(module {})", named(a.0, x));
                    let z = if y.is_empty() { "0" } else { y };
                    let used = |d: &str| format!("(module {d} {} (func {} {}))", b.2.replace('@', z), b.1.replace('@', z), a.1.replace('@', z));
                    emit("alike/modules", format!("{one} {}", used(&named(b.0, y))));
                    emit("alike/modules", format!("{} {one}", used(&named(b.0, y))));
                    if k == m {
                        emit("alike/modules", format!("{one} {}", used("")));
                        emit("alike/modules", format!("{} {one}", used("")));
                    }
                }
            }
        }
    }
    // functions with the same parameters and locals, used in each of them
    for k in 2..=3 {
        for p in 0..=tier.pick(4, 6) {
            for l in 0..=tier.pick(3, 4) {
                for names in 0..3 {
                    let nm = |i: usize| match names {
                        0 => String::new(),
                        1 => format!("$v{i}"),
                        _ => nm(i, "v"),
                    };
                    let mut f = String::from("(func");
                    for i in 0..p {
                        f += &format!(" (param {} i32)", nm(i));
                    }
                    for i in p..p + l {
                        f += &format!(" (local {} i32)", nm(i));
                    }
                    for i in 0..=p + l {
                        f += &format!(" local.get {i}");
                        if !nm(i).is_empty() {
                            f += &format!(" (local.set {} (local.get {}))", nm(i), i);
                        }
                    }
                    f += ")";
                    emit("alike/funcs", format!("(module {})", vec![f.clone(); k].join(" ")));
                    emit("alike/funcs", format!("(module {f}) (module {f})"));
                }
            }
        }
    }
}

/// Further documents for the parser and the formatter only.
pub fn shapes(tier: Tier, emit: &mut dyn FnMut(&str, String)) {
    ladder(tier, emit);
    for n in sizes(tier) {
        for (open, close) in [("(nop ", ")"), ("(block ", ")"), ("block ", "end "), ("(if (nop) (then ", "))"), ("if ", "else end "), ("(if (nop (nop)) (then) (else ", "))"), ("(; ", ";)"), ("(i32.add (nop) ", ")"), ("loop $l\n", "end $l\n"), ("(call 0\n", ")\n")] {
            emit("shape/nested", format!("(module (func {}nop {}))", open.repeat(n), close.repeat(n)).replace("nop ;)", ";)"));
        }
        for nl in ["\n", "\r\n", "\n ", " \n\t"] {
            let nl = nl.repeat(n);
            emit("shape/blank", format!("(module (func){nl}(func nop{nl}(nop){nl}block{nl}nop{nl}nop end)){nl}(module){nl};; c{nl}(module (type (func)){nl}(; d ;){nl}(start 0))"));
        }
        for f in FIELDS {
            if n <= 4 || n % 8 == 0 {
                emit("shape/fields", format!("(module {})", rep(n, "\n", |_| f.to_string())));
            }
        }
        for (pre, unit, post) in [
            ("(module (func ", "(param i32) ", "))"),
            ("(module (func ", "(param $x i32)", "))"),
            ("(module (func (param ", "i32 ", ")))"),
            ("(module (func (result ", "i32 ", ")))"),
            ("(module (func (local ", "i32 ", ")))"),
            ("(module (type (func ", "(result i32) ", ")))"),
            ("(module (func ", "nop ", "))"),
            ("(module (func ", "(nop)", "))"),
            ("(module (func (nop ", "(nop)", ")))"),
            ("(module (func (br_table ", "0 ", ")))"),
            ("(module (func br_table ", "$l ", "))"),
            ("(module (func ", "(export \"e\")", "))"),
            ("(module (elem func ", "$f ", "))"),
            ("(module (elem funcref ", "(ref.func $f)", "))"),
            ("(module (elem funcref ", "(item ref.func $f)", "))"),
            ("(module (elem (i32.const 0) ", "0 ", "))"),
            ("(module (data ", "\"x\" ", "))"),
            ("(module (memory (data ", "\"x\"", ")))"),
            ("(module (table funcref (elem ", "(item nop) ", ")))"),
            ("(module (global i32 ", "nop ", "))"),
            ("(module (func (if ", "(nop)", " (then))))"),
            ("(module (func (if (then ", "(nop)", "))))"),
            ("(module (func (if (then) (else ", "nop ", "))))"),
            ("(module (func block ", "(result i32)", " end))"),
            ("(module (func (v128.const i8x16 ", "1 ", ")))"),
            ("(module (func ", "(; c ;)", "))"),
            ("(module (func ", "(; c ;)", " nop))"),
            ("(module (func (local i32) ", ";; c\n", "))"),
            ("", "(module)\n", ""),
            ("", ";; c\n", "(module)"),
            ("(module)", "\n", ";; c"),
            ("(module (func (i32.const 1", "0", ")))"),
            ("(module (func (f32.const 1.", "0", ")))"),
            ("(module (func (i32.const 0x", "f", ")))"),
            ("(module (data \"", "\\n", "\"))"),
            ("(module (data \"", "\\u{1f600}", "\"))"),
            ("(module ;;", "x", "\n)"),
            ("(module (;", "\n", ";))"),
            ("(module (; ", "x\n   ", ";))"),
            ("(module (func $", "é", "))"),
            ("(module (func ", "\t", "nop))"),
            ("(module (func (block ", "(result i32)", ")))"),
        ] {
            emit("shape/list", format!("{pre}{}{post}", unit.repeat(n)));
            // the odd one out at the end and in the middle
            emit("shape/list-odd", format!("{pre}{}){post}", unit.repeat(n)));
            emit("shape/list-odd", format!("{pre}{}({post}", unit.repeat(n)));
        }
    }
}

//! Pools and combinators the bounded spaces are built from.
#![allow(dead_code)]

/// One text per grammar production of module fields (all well-formed).
pub const FIELDS: &[&str] = &[
    "(func)",
    "(func $f)",
    "(func $f (export \"e\"))",
    "(func (export \"e\") (export \"g\"))",
    "(func $f (import \"m\" \"n\"))",
    "(func $f (import \"m\" \"n\") (param i32) (result i32))",
    "(func $f (type $t))",
    "(func (type 0) (param i32) (result f32))",
    "(func $f (param i32 i64) (param $x f32) (result f64) (result v128))",
    "(func (param) (result))",
    "(func $f (result i32) (local i32) (local $y i64) (local funcref externref) i32.const 1)",
    "(func $f nop nop)",
    "(func $f (nop) (drop (i32.const 0x1F)))",
    "(func i32.const -1 i64.const +0x2_0 f32.const 1.5e-3 f64.const -0x1.8p+4 drop)",
    "(func f32.const inf f64.const -nan f32.const nan:0x7f)",
    "(func i32.load offset=4 align=8 i32.store8 align=0x1)",
    "(func (i32.store offset=0 (i32.const 0) (i32.const 1)))",
    "(func block $l (result i32) i32.const 0 end $l)",
    "(func block end loop end if end)",
    "(func block (result i32) (result i64 f32) unreachable end)",
    "(func (loop (type 0) (param i32) (param i64) (result i32) (result f32) nop))",
    "(func if $a (param i32) nop end $a loop end $a block $b end $b)",
    "(func if (param) (param i32) (result) nop else end)",
    "(func if else end block loop if nop else nop end end end)",
    "(func (if (result i32) (then) (else)) (if $l (type 0) (nop) (nop) (then (if (then)))))",
    "(func (select (nop)) (call_indirect 0 (type 0) (param i32) (result i32 i64) (nop) (nop)))",
    "(func loop $l (param i32) (result i32) br 0 end)",
    "(func if $i (type $t) nop else $i nop end $i)",
    "(func if (result i32) i32.const 1 else i32.const 2 end)",
    "(func (block $l (result i32) (i32.const 0)))",
    "(func (block) (loop) (block $a (loop $b (br $a))))",
    "(func (loop $l (br $l) (br_if 0 (i32.const 0)) br_table 0 $l 0))",
    "(func (if (i32.const 1) (then)))",
    "(func (if $i (result i32) (local.get 0) (then (i32.const 1)) (else (i32.const 2))))",
    "(func (if (i32.eqz (i32.const 1)) (then nop nop) (else)))",
    "(func call_indirect (type $t) call_indirect $t0 (type 0) (param i32) (result i32))",
    "(func (call_indirect (type $t) (i32.const 0)))",
    "(func ref.null func ref.null extern (ref.null func) drop)",
    "(func call $f (call 0 (i32.const 1)) return_call $f)",
    "(func v128.const i32x4 1 2 3 4)",
    "(func memory.copy memory.fill table.copy $a $b table.init 0 1 elem.drop $e data.drop 0)",
    "(func local.get $x local.set 0 local.tee 1 global.get $g global.set 0)",
    "(type (func))",
    "(type $t (func (param i32) (result i32)))",
    "(type $t (func (param $a i32) (param i64 f32) (result i32 i64) (result f64)))",
    "(import \"m\" \"n\" (func))",
    "(import \"m\" \"n\" (func $f (type $t)))",
    "(import \"m\" \"n\" (func $f (param i32) (result i32)))",
    "(import \"m\" \"n\" (global $g i32))",
    "(import \"m\" \"n\" (global (mut i64)))",
    "(import \"m\" \"n\" (memory $m 1 2))",
    "(import \"m\" \"n\" (memory 1))",
    "(import \"m\" \"n\" (table $t 1 funcref))",
    "(import \"m\" \"n\" (table 0 10 externref))",
    "(export \"e\" (func $f))",
    "(export \"e\" (func 0))",
    "(export \"\" (memory $m))",
    "(export \"a\\n\\\"\\u{1f}\" (table 0))",
    "(export \"e\" (global $g))",
    "(start $f)",
    "(start 0)",
    "(global i32 (i32.const 0))",
    "(global $g (mut f64) (f64.const 0))",
    "(global $g (export \"e\") i32 i32.const 1)",
    "(global $g (import \"m\" \"n\") i32)",
    "(global $g (import \"m\" \"n\") (export \"e\") (mut i64))",
    "(memory 1)",
    "(memory $m 1 2)",
    "(memory $m (export \"e\") 0x1 1_0)",
    "(memory $m (import \"m\" \"n\") 1)",
    "(memory (data \"a\" \"b\"))",
    "(memory $m 1 2 shared)",
    "(memory (import \"m\" \"n\") (export \"e\") 1 2 unshared)",
    "(import \"m\" \"n\" (memory $m 1 2 shared))",
    "(memory $m (data))",
    "(table $t (import \"m\" \"n\") (export \"e\") 1 2 funcref)",
    "(table (export \"e\") funcref (elem (item ref.func 0) (item (ref.func $f) nop)))",
    "(elem $e declare externref (ref.null extern) (ref.null extern))",
    "(elem (table 0) (offset i32.const 0 nop) $f $g 2)",
    "(elem (table $t) (i32.const 0) funcref (item nop) (nop))",
    "(func $f (import \"m\" \"n\") (export \"e\") (type 0))",
    "(func (export \"e\") (import \"m\" \"n\") (export \"f\"))",
    "(func $f (import \"a\" \"b\") (import \"c\" \"d\"))",
    "(func $f (export \"e\") (type $t) (param $a i32) (param $b i64) (result i32) (local $c f32) (local) nop)",
    "(import \"m\" \"n\" (func (type 0) (param i32) (result i32)))",
    "(table 1 funcref)",
    "(table $t 1 2 externref)",
    "(table $t (export \"e\") 0 funcref)",
    "(table $t (import \"m\" \"n\") 1 funcref)",
    "(table funcref (elem $f 0))",
    "(table $t funcref (elem (ref.func 0) (item (ref.func $f))))",
    "(table externref (elem))",
    "(data \"\")",
    "(data $d \"a\" \"b\")",
    "(data (i32.const 0) \"a\")",
    "(data $d (memory $m) (offset (i32.const 0)) \"a\")",
    "(data (offset i32.const 1) \"x\")",
    "(data (memory 0) (global.get $g))",
    "(elem func $f 0)",
    "(elem $e func)",
    "(elem declare func $f)",
    "(elem funcref (ref.func $f) (item ref.func 0))",
    "(elem declare funcref (item (ref.func $f)))",
    "(elem (i32.const 0) $f 0)",
    "(elem (table $t) (offset (i32.const 0)) func $f)",
    "(elem $e (table 0) (i32.const 1) funcref (ref.null func))",
    "(elem (offset i32.const 0))",
];

/// Words that belong to the language somewhere, or to proposals it does not cover.
pub const WORDS: &[&str] = &[
    "anyref", "eqref", "i31ref", "structref", "nullref", "exnref", "i8", "i16", "i128", "f16", "v256", "i32x4", "v128", "externref", "func", "extern", "any", "exn", "ref", "rec", "sub", "struct", "array", "field", "tag",
    "try", "catch", "offset", "align", "offset=", "align=4", "Func", "funcs", "i32.", "unshared", "quote", "binary", "register", "invoke", "assert_return", "nan:canonical", "mutable", "elem", "module",
];

/// Tokens of a text, in order, without trivia.
pub fn sig_tokens(text: &str) -> Vec<String> {
    crate::refwat::lex(text).iter().filter(|t| !t.trivia()).map(|t| t.sp.text(text).to_string()).collect()
}

/// All sequences over `alphabet` of length exactly `n`.
pub fn sequences<T: Clone>(alphabet: &[T], n: usize, f: &mut dyn FnMut(&[T])) {
    fn go<T: Clone>(a: &[T], n: usize, cur: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
        if cur.len() == n {
            f(cur);
            return;
        }
        for x in a {
            cur.push(x.clone());
            go(a, n, cur, f);
            cur.pop();
        }
    }
    go(alphabet, n, &mut vec![], f)
}
pub fn sequences_upto<T: Clone>(alphabet: &[T], n: usize, f: &mut dyn FnMut(&[T])) {
    for k in 0..=n {
        sequences(alphabet, k, f);
    }
}

/// Gaps between adjacent tokens: text with the trivia `t` put into gap `i` (replacing what is there).
pub fn join_with(tokens: &[String], default: impl Fn(&str, &str) -> &'static str, overrides: &[(usize, &str)]) -> String {
    let mut out = String::new();
    for (i, t) in tokens.iter().enumerate() {
        if let Some((_, s)) = overrides.iter().find(|(g, _)| *g == i) {
            out.push_str(s);
        } else if i > 0 {
            out.push_str(default(&tokens[i - 1], t));
        }
        out.push_str(t);
    }
    if let Some((_, s)) = overrides.iter().find(|(g, _)| *g == tokens.len()) {
        out.push_str(s);
    }
    out
}
/// Separator that keeps two tokens apart: nothing around parentheses, else one blank.
pub fn min_sep(a: &str, b: &str) -> &'static str {
    if a == "(" || b == ")" {
        ""
    } else {
        " "
    }
}

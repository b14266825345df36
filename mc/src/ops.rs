//! The instruction set: names, binary opcodes and types, written down from the WebAssembly
//! specification (core 2.0, section 5.4), not from the tables of the tool.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Imm {
    None,
    /// one index that must be there
    Index,
    /// up to n indices, at least m
    Indices(usize, usize),
    Int,
    Float,
    /// offset and align, each optional
    Mem,
    /// memory arguments, then a lane
    MemLane,
    Lane,
    Lanes16,
    /// (result t)*
    Select,
    HeapType,
    V128,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub code: String,
    pub params: Vec<&'static str>,
    pub results: Vec<&'static str>,
    pub imm: Imm,
}
/// any type
pub const ANY: &str = "?";

struct T(Vec<Op>);
fn split(s: &'static str) -> Vec<&'static str> {
    s.split_whitespace().collect()
}
impl T {
    fn put(&mut self, prefix: Option<u8>, code: u32, name: String, params: &'static str, results: &'static str, imm: Imm) {
        let code = match prefix {
            None => format!("0x{code:02X}"),
            Some(p) if code < 0x80 => format!("0x{p:02X} 0x{code:02X}"),
            // LEB128
            Some(p) => format!("0x{p:02X} 0x{:02X} 0x{:02X}", code & 0x7f | 0x80, code >> 7),
        };
        self.0.push(Op { name, code, params: split(params), results: split(results), imm });
    }
    /// consecutive opcodes with the same type; `-` leaves one out
    fn run(&mut self, prefix: Option<u8>, from: u32, ty: &str, names: &str, params: &'static str, results: &'static str) {
        for (i, n) in names.split_whitespace().enumerate() {
            if n != "-" {
                self.put(prefix, from + i as u32, format!("{ty}.{n}"), params, results, Imm::None);
            }
        }
    }
}

pub fn table() -> &'static Vec<Op> {
    static TABLE: OnceLock<Vec<Op>> = OnceLock::new();
    TABLE.get_or_init(build)
}
pub fn op(name: &str) -> Option<&'static Op> {
    static MAP: OnceLock<HashMap<String, usize>> = OnceLock::new();
    MAP.get_or_init(|| table().iter().enumerate().map(|(i, o)| (o.name.clone(), i)).collect()).get(name).map(|i| &table()[*i])
}

fn build() -> Vec<Op> {
    let mut t = T(vec![]);
    let n = None;
    t.put(n, 0x1A, "drop".into(), "?", "", Imm::None);
    t.put(n, 0x1B, "select".into(), "? ? i32", "?", Imm::Select);
    t.put(n, 0x20, "local.get".into(), "", "?", Imm::Index);
    t.put(n, 0x21, "local.set".into(), "?", "", Imm::Index);
    t.put(n, 0x22, "local.tee".into(), "?", "?", Imm::Index);
    t.put(n, 0x23, "global.get".into(), "", "?", Imm::Index);
    t.put(n, 0x24, "global.set".into(), "?", "", Imm::Index);
    t.put(n, 0x25, "table.get".into(), "i32", "?", Imm::Indices(0, 1));
    t.put(n, 0x26, "table.set".into(), "i32 ?", "", Imm::Indices(0, 1));
    for (i, (name, ty)) in [
        ("i32.load", "i32"),
        ("i64.load", "i64"),
        ("f32.load", "f32"),
        ("f64.load", "f64"),
        ("i32.load8_s", "i32"),
        ("i32.load8_u", "i32"),
        ("i32.load16_s", "i32"),
        ("i32.load16_u", "i32"),
        ("i64.load8_s", "i64"),
        ("i64.load8_u", "i64"),
        ("i64.load16_s", "i64"),
        ("i64.load16_u", "i64"),
        ("i64.load32_s", "i64"),
        ("i64.load32_u", "i64"),
    ]
    .into_iter()
    .enumerate()
    {
        t.put(n, 0x28 + i as u32, name.into(), "i32", ty, Imm::Mem);
    }
    for (i, (name, ps)) in [
        ("i32.store", "i32 i32"),
        ("i64.store", "i32 i64"),
        ("f32.store", "i32 f32"),
        ("f64.store", "i32 f64"),
        ("i32.store8", "i32 i32"),
        ("i32.store16", "i32 i32"),
        ("i64.store8", "i32 i64"),
        ("i64.store16", "i32 i64"),
        ("i64.store32", "i32 i64"),
    ]
    .into_iter()
    .enumerate()
    {
        t.put(n, 0x36 + i as u32, name.into(), ps, "", Imm::Mem);
    }
    t.put(n, 0x3F, "memory.size".into(), "", "i32", Imm::None);
    t.put(n, 0x40, "memory.grow".into(), "i32", "i32", Imm::None);
    t.put(n, 0x41, "i32.const".into(), "", "i32", Imm::Int);
    t.put(n, 0x42, "i64.const".into(), "", "i64", Imm::Int);
    t.put(n, 0x43, "f32.const".into(), "", "f32", Imm::Float);
    t.put(n, 0x44, "f64.const".into(), "", "f64", Imm::Float);
    let icmp = "eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u";
    let fcmp = "eq ne lt gt le ge";
    t.run(n, 0x45, "i32", "eqz", "i32", "i32");
    t.run(n, 0x46, "i32", icmp, "i32 i32", "i32");
    t.run(n, 0x50, "i64", "eqz", "i64", "i32");
    t.run(n, 0x51, "i64", icmp, "i64 i64", "i32");
    t.run(n, 0x5B, "f32", fcmp, "f32 f32", "i32");
    t.run(n, 0x61, "f64", fcmp, "f64 f64", "i32");
    let ibin = "add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr";
    t.run(n, 0x67, "i32", "clz ctz popcnt", "i32", "i32");
    t.run(n, 0x6A, "i32", ibin, "i32 i32", "i32");
    t.run(n, 0x79, "i64", "clz ctz popcnt", "i64", "i64");
    t.run(n, 0x7C, "i64", ibin, "i64 i64", "i64");
    let fun = "abs neg ceil floor trunc nearest sqrt";
    let fbin = "add sub mul div min max copysign";
    t.run(n, 0x8B, "f32", fun, "f32", "f32");
    t.run(n, 0x92, "f32", fbin, "f32 f32", "f32");
    t.run(n, 0x99, "f64", fun, "f64", "f64");
    t.run(n, 0xA0, "f64", fbin, "f64 f64", "f64");
    for (c, name, p, r) in [
        (0xA7, "i32.wrap_i64", "i64", "i32"),
        (0xA8, "i32.trunc_f32_s", "f32", "i32"),
        (0xA9, "i32.trunc_f32_u", "f32", "i32"),
        (0xAA, "i32.trunc_f64_s", "f64", "i32"),
        (0xAB, "i32.trunc_f64_u", "f64", "i32"),
        (0xAC, "i64.extend_i32_s", "i32", "i64"),
        (0xAD, "i64.extend_i32_u", "i32", "i64"),
        (0xAE, "i64.trunc_f32_s", "f32", "i64"),
        (0xAF, "i64.trunc_f32_u", "f32", "i64"),
        (0xB0, "i64.trunc_f64_s", "f64", "i64"),
        (0xB1, "i64.trunc_f64_u", "f64", "i64"),
        (0xB2, "f32.convert_i32_s", "i32", "f32"),
        (0xB3, "f32.convert_i32_u", "i32", "f32"),
        (0xB4, "f32.convert_i64_s", "i64", "f32"),
        (0xB5, "f32.convert_i64_u", "i64", "f32"),
        (0xB6, "f32.demote_f64", "f64", "f32"),
        (0xB7, "f64.convert_i32_s", "i32", "f64"),
        (0xB8, "f64.convert_i32_u", "i32", "f64"),
        (0xB9, "f64.convert_i64_s", "i64", "f64"),
        (0xBA, "f64.convert_i64_u", "i64", "f64"),
        (0xBB, "f64.promote_f32", "f32", "f64"),
        (0xBC, "i32.reinterpret_f32", "f32", "i32"),
        (0xBD, "i64.reinterpret_f64", "f64", "i64"),
        (0xBE, "f32.reinterpret_i32", "i32", "f32"),
        (0xBF, "f64.reinterpret_i64", "i64", "f64"),
    ] {
        t.put(n, c, name.into(), p, r, Imm::None);
    }
    t.run(n, 0xC0, "i32", "extend8_s extend16_s", "i32", "i32");
    t.run(n, 0xC2, "i64", "extend8_s extend16_s extend32_s", "i64", "i64");
    t.put(n, 0xD0, "ref.null".into(), "", "?", Imm::HeapType);
    t.put(n, 0xD1, "ref.is_null".into(), "?", "i32", Imm::None);
    t.put(n, 0xD2, "ref.func".into(), "", "funcref", Imm::Index);
    let f = Some(0xFC);
    t.run(f, 0, "i32", "trunc_sat_f32_s trunc_sat_f32_u", "f32", "i32");
    t.run(f, 2, "i32", "trunc_sat_f64_s trunc_sat_f64_u", "f64", "i32");
    t.run(f, 4, "i64", "trunc_sat_f32_s trunc_sat_f32_u", "f32", "i64");
    t.run(f, 6, "i64", "trunc_sat_f64_s trunc_sat_f64_u", "f64", "i64");
    t.put(f, 8, "memory.init".into(), "i32 i32 i32", "", Imm::Index);
    t.put(f, 9, "data.drop".into(), "", "", Imm::Index);
    t.put(f, 10, "memory.copy".into(), "i32 i32 i32", "", Imm::None);
    t.put(f, 11, "memory.fill".into(), "i32 i32 i32", "", Imm::None);
    t.put(f, 12, "table.init".into(), "i32 i32 i32", "", Imm::Indices(1, 2));
    t.put(f, 13, "elem.drop".into(), "", "", Imm::Index);
    t.put(f, 14, "table.copy".into(), "i32 i32 i32", "", Imm::Indices(0, 2));
    t.put(f, 15, "table.grow".into(), "? i32", "i32", Imm::Indices(0, 1));
    t.put(f, 16, "table.size".into(), "", "i32", Imm::Indices(0, 1));
    t.put(f, 17, "table.fill".into(), "i32 ? i32", "", Imm::Indices(0, 1));
    // vectors
    let v = Some(0xFD);
    let (v1, v2, v3, sh) = ("v128", "v128 v128", "v128 v128 v128", "v128 i32");
    for (i, x) in "load load8x8_s load8x8_u load16x4_s load16x4_u load32x2_s load32x2_u load8_splat load16_splat load32_splat load64_splat".split(' ').enumerate() {
        t.put(v, i as u32, format!("v128.{x}"), "i32", v1, Imm::Mem);
    }
    t.put(v, 0x0B, "v128.store".into(), "i32 v128", "", Imm::Mem);
    t.put(v, 0x0C, "v128.const".into(), "", v1, Imm::V128);
    t.put(v, 0x0D, "i8x16.shuffle".into(), v2, v1, Imm::Lanes16);
    t.run(v, 0x0E, "i8x16", "swizzle", v2, v1);
    for (i, (s, l)) in [("i8x16", "i32"), ("i16x8", "i32"), ("i32x4", "i32"), ("i64x2", "i64"), ("f32x4", "f32"), ("f64x2", "f64")].into_iter().enumerate() {
        t.put(v, 0x0F + i as u32, format!("{s}.splat"), l, v1, Imm::None);
    }
    for (c, name, p, r) in [
        (0x15, "i8x16.extract_lane_s", v1, "i32"),
        (0x16, "i8x16.extract_lane_u", v1, "i32"),
        (0x17, "i8x16.replace_lane", "v128 i32", v1),
        (0x18, "i16x8.extract_lane_s", v1, "i32"),
        (0x19, "i16x8.extract_lane_u", v1, "i32"),
        (0x1A, "i16x8.replace_lane", "v128 i32", v1),
        (0x1B, "i32x4.extract_lane", v1, "i32"),
        (0x1C, "i32x4.replace_lane", "v128 i32", v1),
        (0x1D, "i64x2.extract_lane", v1, "i64"),
        (0x1E, "i64x2.replace_lane", "v128 i64", v1),
        (0x1F, "f32x4.extract_lane", v1, "f32"),
        (0x20, "f32x4.replace_lane", "v128 f32", v1),
        (0x21, "f64x2.extract_lane", v1, "f64"),
        (0x22, "f64x2.replace_lane", "v128 f64", v1),
    ] {
        t.put(v, c, name.into(), p, r, Imm::Lane);
    }
    t.run(v, 0x23, "i8x16", icmp, v2, v1);
    t.run(v, 0x2D, "i16x8", icmp, v2, v1);
    t.run(v, 0x37, "i32x4", icmp, v2, v1);
    t.run(v, 0x41, "f32x4", fcmp, v2, v1);
    t.run(v, 0x47, "f64x2", fcmp, v2, v1);
    t.run(v, 0x4D, "v128", "not", v1, v1);
    t.run(v, 0x4E, "v128", "and andnot or xor", v2, v1);
    t.run(v, 0x52, "v128", "bitselect", v3, v1);
    t.run(v, 0x53, "v128", "any_true", v1, "i32");
    for (i, w) in ["8", "16", "32", "64"].into_iter().enumerate() {
        t.put(v, 0x54 + i as u32, format!("v128.load{w}_lane"), "i32 v128", v1, Imm::MemLane);
    }
    for (i, w) in ["8", "16", "32", "64"].into_iter().enumerate() {
        t.put(v, 0x58 + i as u32, format!("v128.store{w}_lane"), "i32 v128", "", Imm::MemLane);
    }
    t.put(v, 0x5C, "v128.load32_zero".into(), "i32", v1, Imm::Mem);
    t.put(v, 0x5D, "v128.load64_zero".into(), "i32", v1, Imm::Mem);
    t.run(v, 0x5E, "f32x4", "demote_f64x2_zero", v1, v1);
    t.run(v, 0x5F, "f64x2", "promote_low_f32x4", v1, v1);
    t.run(v, 0x60, "i8x16", "abs neg popcnt", v1, v1);
    t.run(v, 0x63, "i8x16", "all_true bitmask", v1, "i32");
    t.run(v, 0x65, "i8x16", "narrow_i16x8_s narrow_i16x8_u", v2, v1);
    t.run(v, 0x67, "f32x4", "ceil floor trunc nearest", v1, v1);
    t.run(v, 0x6B, "i8x16", "shl shr_s shr_u", sh, v1);
    t.run(v, 0x6E, "i8x16", "add add_sat_s add_sat_u sub sub_sat_s sub_sat_u", v2, v1);
    t.run(v, 0x74, "f64x2", "ceil floor", v1, v1);
    t.run(v, 0x76, "i8x16", "min_s min_u max_s max_u - avgr_u", v2, v1);
    t.run(v, 0x7A, "f64x2", "trunc", v1, v1);
    t.run(v, 0x7C, "i16x8", "extadd_pairwise_i8x16_s extadd_pairwise_i8x16_u", v1, v1);
    t.run(v, 0x7E, "i32x4", "extadd_pairwise_i16x8_s extadd_pairwise_i16x8_u", v1, v1);
    t.run(v, 0x80, "i16x8", "abs neg", v1, v1);
    t.run(v, 0x82, "i16x8", "q15mulr_sat_s", v2, v1);
    t.run(v, 0x83, "i16x8", "all_true bitmask", v1, "i32");
    t.run(v, 0x85, "i16x8", "narrow_i32x4_s narrow_i32x4_u", v2, v1);
    t.run(v, 0x87, "i16x8", "extend_low_i8x16_s extend_high_i8x16_s extend_low_i8x16_u extend_high_i8x16_u", v1, v1);
    t.run(v, 0x8B, "i16x8", "shl shr_s shr_u", sh, v1);
    t.run(v, 0x8E, "i16x8", "add add_sat_s add_sat_u sub sub_sat_s sub_sat_u - mul min_s min_u max_s max_u - avgr_u", v2, v1);
    t.run(v, 0x94, "f64x2", "nearest", v1, v1);
    t.run(v, 0x9C, "i16x8", "extmul_low_i8x16_s extmul_high_i8x16_s extmul_low_i8x16_u extmul_high_i8x16_u", v2, v1);
    t.run(v, 0xA0, "i32x4", "abs neg", v1, v1);
    t.run(v, 0xA3, "i32x4", "all_true bitmask", v1, "i32");
    t.run(v, 0xA7, "i32x4", "extend_low_i16x8_s extend_high_i16x8_s extend_low_i16x8_u extend_high_i16x8_u", v1, v1);
    t.run(v, 0xAB, "i32x4", "shl shr_s shr_u", sh, v1);
    t.run(v, 0xAE, "i32x4", "add - - sub - - - mul min_s min_u max_s max_u dot_i16x8_s", v2, v1);
    t.run(v, 0xBC, "i32x4", "extmul_low_i16x8_s extmul_high_i16x8_s extmul_low_i16x8_u extmul_high_i16x8_u", v2, v1);
    t.run(v, 0xC0, "i64x2", "abs neg", v1, v1);
    t.run(v, 0xC3, "i64x2", "all_true bitmask", v1, "i32");
    t.run(v, 0xC7, "i64x2", "extend_low_i32x4_s extend_high_i32x4_s extend_low_i32x4_u extend_high_i32x4_u", v1, v1);
    t.run(v, 0xCB, "i64x2", "shl shr_s shr_u", sh, v1);
    t.run(v, 0xCE, "i64x2", "add - - sub - - - mul eq ne lt_s gt_s le_s ge_s", v2, v1);
    t.run(v, 0xDC, "i64x2", "extmul_low_i32x4_s extmul_high_i32x4_s extmul_low_i32x4_u extmul_high_i32x4_u", v2, v1);
    t.run(v, 0xE0, "f32x4", "abs neg - sqrt", v1, v1);
    t.run(v, 0xE4, "f32x4", "add sub mul div min max pmin pmax", v2, v1);
    t.run(v, 0xEC, "f64x2", "abs neg - sqrt", v1, v1);
    t.run(v, 0xF0, "f64x2", "add sub mul div min max pmin pmax", v2, v1);
    t.run(v, 0xF8, "i32x4", "trunc_sat_f32x4_s trunc_sat_f32x4_u", v1, v1);
    t.run(v, 0xFA, "f32x4", "convert_i32x4_s convert_i32x4_u", v1, v1);
    t.run(v, 0xFC, "i32x4", "trunc_sat_f64x2_s_zero trunc_sat_f64x2_u_zero", v1, v1);
    t.run(v, 0xFE, "f64x2", "convert_low_i32x4_s convert_low_i32x4_u", v1, v1);
    t.0
}

/// instructions without entry above: control flow, whose types are not checked by the tool
pub const CONTROL: &[&str] = &["unreachable", "nop", "br", "br_if", "br_table", "return", "call", "call_indirect", "return_call", "return_call_indirect"];
pub const DIVERGE: &[&str] = &["unreachable", "br", "br_table", "return", "return_call", "return_call_indirect"];

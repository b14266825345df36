//! C23: the typed syntax tree (`wat_syntax::ast`) gives access to exactly the parts of every form.
use crate::engine::*;
use crate::gen::*;
use crate::refwat;
use crate::syntax;
use rowan::ast::AstNode;
use rowan::Language;
use wat_syntax::ast::*;
use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode, WatLanguage};

type Res = std::result::Result<(), String>;

/// What an accessor has to return, said about the elements of the form without whitespace and comments.
enum How {
    /// the parenthesis the form starts with
    Open,
    /// the one it ends with
    Close,
    /// the keyword that names the form
    Key(&'static str),
    /// the identifier right behind that keyword
    Id,
    /// another keyword of the form
    Word(&'static str),
    /// the identifier behind `end`
    EndName,
    Tok(&'static str),
    Toks(&'static str),
    Nth(&'static str, usize),
    One(&'static [&'static str]),
    All(&'static [&'static str]),
}
use How::*;
const INSTR: &[&str] = &["PLAIN_INSTR", "BLOCK_BLOCK", "BLOCK_LOOP", "BLOCK_IF"];
const MODULEFIELD: &[&str] = &["MODULE_FIELD_DATA", "MODULE_FIELD_ELEM", "MODULE_FIELD_EXPORT", "MODULE_FIELD_FUNC", "MODULE_FIELD_GLOBAL", "MODULE_FIELD_IMPORT", "MODULE_FIELD_MEMORY", "MODULE_FIELD_START", "MODULE_FIELD_TABLE", "MODULE_FIELD_TYPE"];
const IMPORTDESC: &[&str] = &["IMPORT_DESC_TYPE_USE", "IMPORT_DESC_TABLE_TYPE", "IMPORT_DESC_MEMORY_TYPE", "IMPORT_DESC_GLOBAL_TYPE"];
const EXPORTDESC: &[&str] = &["EXPORT_DESC_FUNC", "EXPORT_DESC_TABLE", "EXPORT_DESC_MEMORY", "EXPORT_DESC_GLOBAL"];

fn kind(e: &SyntaxElement) -> String {
    format!("{:?}", e.kind())
}
fn expect(n: &SyntaxNode, how: How) -> Vec<SyntaxElement> {
    let e: Vec<SyntaxElement> = n.children_with_tokens().filter(|e| !matches!(&*kind(e), "WHITESPACE" | "LINE_COMMENT" | "BLOCK_COMMENT")).collect();
    let k: Vec<String> = e.iter().map(kind).collect();
    let text = |i: usize| e.get(i).map(|x| x.to_string()).unwrap_or_default();
    let key = if k.first().is_some_and(|k| k == "L_PAREN") { 1 } else { 0 };
    let pick = |i: Option<usize>| i.and_then(|i| e.get(i).cloned()).into_iter().collect::<Vec<_>>();
    match how {
        Open => pick((key == 1).then_some(0)),
        Close => pick(k.iter().rposition(|k| k == "R_PAREN")),
        Key(w) => pick((text(key) == w).then_some(key)),
        Id => pick((k.get(key).is_some_and(|k| k == "KEYWORD") && k.get(key + 1).is_some_and(|k| k == "IDENT")).then_some(key + 1)),
        Word(w) => pick((0..e.len()).find(|i| k[*i] == "KEYWORD" && text(*i) == w)),
        EndName => pick((0..e.len()).find(|i| k[*i] == "KEYWORD" && text(*i) == "end").map(|i| i + 1).filter(|i| k.get(*i).is_some_and(|k| k == "IDENT"))),
        Tok(t) => pick(k.iter().position(|k| k == t)),
        Toks(t) => e.iter().filter(|x| kind(x) == t).cloned().collect(),
        Nth(t, i) => e.iter().filter(|x| kind(x) == t).nth(i).cloned().into_iter().collect(),
        One(ks) => e.iter().find(|x| ks.contains(&&*kind(x))).cloned().into_iter().collect(),
        All(ks) => e.iter().filter(|x| ks.contains(&&*kind(x))).cloned().collect(),
    }
}
fn same(n: &SyntaxNode, what: &str, got: Vec<SyntaxElement>, how: How) -> Res {
    let exp = expect(n, how);
    if got != exp {
        return Err(format!("{what} of `{n}` is {:?}, expected {:?}", got.iter().map(|e| e.to_string()).collect::<Vec<_>>(), exp.iter().map(|e| e.to_string()).collect::<Vec<_>>()));
    }
    Ok(())
}
macro_rules! el {
    (t $x:expr) => {
        SyntaxElement::Token($x)
    };
    (n $x:expr) => {
        SyntaxElement::Node($x.syntax().clone())
    };
}
macro_rules! forms {
    ($($T:ident $K:literal { $($k:ident $acc:ident $how:expr);* })*) => {
        fn node(n: &SyntaxNode, r: &mut Rec) -> Res {
            let kind = format!("{:?}", n.kind());
            $(
                if $T::can_cast(n.kind()) != (kind == $K) {
                    return Err(format!("{}::can_cast({kind}) is {}", stringify!($T), $T::can_cast(n.kind())));
                }
                match $T::cast(n.clone()) {
                    Some(x) if kind == $K => {
                        if x.syntax() != n {
                            return Err(format!("{}::cast gives another node", stringify!($T)));
                        }
                        $(
                            r.step();
                            same(n, concat!(stringify!($T), "::", stringify!($acc)), x.$acc().into_iter().map(|y| el!($k y)).collect(), $how)?;
                        )*
                    }
                    None if kind != $K => {}
                    x => return Err(format!("{}::cast of {kind} gives {x:?}", stringify!($T))),
                }
            )*
            Ok(())
        }
    };
}
forms! {
    Root "ROOT" { n modules All(&["MODULE"]) }
    Data "DATA" { t l_paren_token Open; t keyword Key("data"); t string_tokens Toks("STRING"); t r_paren_token Close }
    Elem "ELEM" { t l_paren_token Open; t keyword Key("elem"); n elem_exprs All(&["ELEM_EXPR"]); n indexes All(&["INDEX"]); t r_paren_token Close }
    ElemExpr "ELEM_EXPR" { t l_paren_token Open; t keyword Key("item"); n instrs All(INSTR); t r_paren_token Close }
    ElemList "ELEM_LIST" { t func_keyword Key("func"); n indexes All(&["INDEX"]); t ref_type Tok("REF_TYPE"); n elem_exprs All(&["ELEM_EXPR"]) }
    Export "EXPORT" { t l_paren_token Open; t keyword Key("export"); n name One(&["NAME"]); t r_paren_token Close }
    ExportDescFunc "EXPORT_DESC_FUNC" { t l_paren_token Open; t keyword Key("func"); n index One(&["INDEX"]); t r_paren_token Close }
    ExportDescGlobal "EXPORT_DESC_GLOBAL" { t l_paren_token Open; t keyword Key("global"); n index One(&["INDEX"]); t r_paren_token Close }
    ExportDescMemory "EXPORT_DESC_MEMORY" { t l_paren_token Open; t keyword Key("memory"); n index One(&["INDEX"]); t r_paren_token Close }
    ExportDescTable "EXPORT_DESC_TABLE" { t l_paren_token Open; t keyword Key("table"); n index One(&["INDEX"]); t r_paren_token Close }
    Import "IMPORT" { t l_paren_token Open; t keyword Key("import"); n module_name One(&["MODULE_NAME"]); n name One(&["NAME"]); t r_paren_token Close }
    ImportDescGlobalType "IMPORT_DESC_GLOBAL_TYPE" { t l_paren_token Open; t keyword Key("global"); t ident_token Id; n global_type One(&["GLOBAL_TYPE"]); t r_paren_token Close }
    ImportDescMemoryType "IMPORT_DESC_MEMORY_TYPE" { t l_paren_token Open; t keyword Key("memory"); t ident_token Id; n memory_type One(&["MEMORY_TYPE"]); t r_paren_token Close }
    ImportDescTableType "IMPORT_DESC_TABLE_TYPE" { t l_paren_token Open; t keyword Key("table"); t ident_token Id; n table_type One(&["TABLE_TYPE"]); t r_paren_token Close }
    ImportDescTypeUse "IMPORT_DESC_TYPE_USE" { t l_paren_token Open; t keyword Key("func"); t ident_token Id; n type_use One(&["TYPE_USE"]); t r_paren_token Close }
    Index "INDEX" { t ident_token Tok("IDENT"); t unsigned_int_token Tok("UNSIGNED_INT") }
    Local "LOCAL" { t l_paren_token Open; t keyword Key("local"); t ident_token Id; n val_types All(&["VAL_TYPE"]); t r_paren_token Close }
    MemUse "MEM_USE" { t l_paren_token Open; t keyword Key("memory"); n index One(&["INDEX"]); t r_paren_token Close }
    Module "MODULE" { t l_paren_token Open; t keyword Key("module"); t ident_token Id; n module_fields All(MODULEFIELD); t r_paren_token Close }
    ModuleFieldData "MODULE_FIELD_DATA" { t l_paren_token Open; t keyword Key("data"); t ident_token Id; n mem_use One(&["MEM_USE"]); n offset One(&["OFFSET"]); t string_tokens Toks("STRING"); t r_paren_token Close }
    ModuleFieldElem "MODULE_FIELD_ELEM" { t l_paren_token Open; t keyword Key("elem"); t ident_token Id; t declare_keyword Word("declare"); n table_use One(&["TABLE_USE"]); n offset One(&["OFFSET"]); n elem_list One(&["ELEM_LIST"]); t r_paren_token Close }
    ModuleFieldExport "MODULE_FIELD_EXPORT" { t l_paren_token Open; t keyword Key("export"); n name One(&["NAME"]); n export_desc One(EXPORTDESC); t r_paren_token Close }
    ModuleFieldFunc "MODULE_FIELD_FUNC" { t l_paren_token Open; t keyword Key("func"); t ident_token Id; n import One(&["IMPORT"]); n exports All(&["EXPORT"]); n type_use One(&["TYPE_USE"]); n locals All(&["LOCAL"]); n instrs All(INSTR); t r_paren_token Close }
    ModuleFieldGlobal "MODULE_FIELD_GLOBAL" { t l_paren_token Open; t keyword Key("global"); t ident_token Id; n import One(&["IMPORT"]); n export One(&["EXPORT"]); n global_type One(&["GLOBAL_TYPE"]); n instrs All(INSTR); t r_paren_token Close }
    ModuleFieldImport "MODULE_FIELD_IMPORT" { t l_paren_token Open; t keyword Key("import"); n module_name One(&["MODULE_NAME"]); n name One(&["NAME"]); n import_desc One(IMPORTDESC); t r_paren_token Close }
    ModuleFieldMemory "MODULE_FIELD_MEMORY" { t l_paren_token Open; t keyword Key("memory"); t ident_token Id; n import One(&["IMPORT"]); n export One(&["EXPORT"]); n memory_type One(&["MEMORY_TYPE"]); n data One(&["DATA"]); t r_paren_token Close }
    ModuleFieldStart "MODULE_FIELD_START" { t l_paren_token Open; t keyword Key("start"); n index One(&["INDEX"]); t r_paren_token Close }
    ModuleFieldTable "MODULE_FIELD_TABLE" { t l_paren_token Open; t keyword Key("table"); t ident_token Id; n import One(&["IMPORT"]); n export One(&["EXPORT"]); n table_type One(&["TABLE_TYPE"]); t ref_type Tok("REF_TYPE"); n elem One(&["ELEM"]); t r_paren_token Close }
    ModuleFieldType "MODULE_FIELD_TYPE" { t l_paren_token Open; t keyword Key("type"); t ident_token Id; n func_type One(&["FUNC_TYPE"]); t r_paren_token Close }
    ModuleName "MODULE_NAME" { t string_token Tok("STRING") }
    Name "NAME" { t string_token Tok("STRING") }
    Offset "OFFSET" { t l_paren_token Open; t keyword Key("offset"); n instrs All(INSTR); t r_paren_token Close }
    TableUse "TABLE_USE" { t l_paren_token Open; t keyword Key("table"); n index One(&["INDEX"]); t r_paren_token Close }
    TypeUse "TYPE_USE" { t l_paren_token Open; t keyword Key("type"); n index One(&["INDEX"]); t r_paren_token Close; n params All(&["PARAM"]); n results All(&["RESULT"]) }
    BlockBlock "BLOCK_BLOCK" { t l_paren_token Open; t keyword Key("block"); t ident_token Id; n block_type One(&["BLOCK_TYPE"]); n instrs All(INSTR); t r_paren_token Close; t end_keyword Word("end"); t end_ident_token EndName }
    BlockIf "BLOCK_IF" { t l_paren_token Open; t keyword Key("if"); t ident_token Id; n block_type One(&["BLOCK_TYPE"]); n instrs All(INSTR); n then_block One(&["BLOCK_IF_THEN"]); n else_block One(&["BLOCK_IF_ELSE"]); t r_paren_token Close; t end_keyword Word("end"); t end_ident_token EndName }
    BlockIfElse "BLOCK_IF_ELSE" { t l_paren_token Open; t keyword Key("else"); t ident_token Id; n instrs All(INSTR); t r_paren_token Close }
    BlockIfThen "BLOCK_IF_THEN" { t l_paren_token Open; t keyword Key("then"); t ident_token Id; n instrs All(INSTR); t r_paren_token Close }
    BlockLoop "BLOCK_LOOP" { t l_paren_token Open; t keyword Key("loop"); t ident_token Id; n block_type One(&["BLOCK_TYPE"]); n instrs All(INSTR); t r_paren_token Close; t end_keyword Word("end"); t end_ident_token EndName }
    BlockType "BLOCK_TYPE" { n result One(&["RESULT"]); n type_use One(&["TYPE_USE"]) }
    Operand "OPERAND" { t float Tok("FLOAT"); t int Tok("INT"); t string Tok("STRING"); t ident Tok("IDENT"); n type_use One(&["TYPE_USE"]); n instr One(INSTR); t mem_arg Tok("MEM_ARG"); t heap_type Tok("HEAP_TYPE") }
    PlainInstr "PLAIN_INSTR" { t l_paren_token Open; t instr_name Tok("INSTR_NAME"); n operands All(&["OPERAND"]); t r_paren_token Close }
    FuncType "FUNC_TYPE" { t l_paren_token Open; t keyword Key("func"); n params All(&["PARAM"]); n results All(&["RESULT"]); t r_paren_token Close }
    GlobalType "GLOBAL_TYPE" { t l_paren_token Open; t mut_keyword Key("mut"); n val_type One(&["VAL_TYPE"]); t r_paren_token Close }
    Limits "LIMITS" { t min Nth("UNSIGNED_INT", 0); t max Nth("UNSIGNED_INT", 1); t share_keyword Tok("SHARE") }
    MemoryType "MEMORY_TYPE" { n limits One(&["LIMITS"]) }
    Param "PARAM" { t l_paren_token Open; t keyword Key("param"); t ident_token Id; n val_types All(&["VAL_TYPE"]); t r_paren_token Close }
    Result "RESULT" { t l_paren_token Open; t keyword Key("result"); n val_types All(&["VAL_TYPE"]); t r_paren_token Close }
    TableType "TABLE_TYPE" { n limits One(&["LIMITS"]); t ref_type Tok("REF_TYPE") }
    ValType "VAL_TYPE" { t num_type Tok("NUM_TYPE"); t vec_type Tok("VEC_TYPE"); t ref_type Tok("REF_TYPE") }
}
/// the enums over several kinds of forms
fn sums(n: &SyntaxNode) -> Res {
    let kind = format!("{:?}", n.kind());
    let variant = |got: Option<(&'static str, SyntaxNode)>, can: bool, what: &str, exp: Option<&'static str>| -> Res {
        if can != exp.is_some() {
            return Err(format!("{what}::can_cast({kind}) is {can}"));
        }
        if got.as_ref().map(|x| x.0) != exp {
            return Err(format!("{what}::cast of {kind} is {:?}", got.map(|x| x.0)));
        }
        if got.is_some_and(|x| x.1 != *n) {
            return Err(format!("{what}::cast gives another node"));
        }
        Ok(())
    };
    let f = ModuleField::cast(n.clone()).map(|x| {
        let (v, s) = match &x {
            ModuleField::Data(y) => ("DATA", y.syntax()),
            ModuleField::Elem(y) => ("ELEM", y.syntax()),
            ModuleField::Export(y) => ("EXPORT", y.syntax()),
            ModuleField::Func(y) => ("FUNC", y.syntax()),
            ModuleField::Global(y) => ("GLOBAL", y.syntax()),
            ModuleField::Import(y) => ("IMPORT", y.syntax()),
            ModuleField::Memory(y) => ("MEMORY", y.syntax()),
            ModuleField::Start(y) => ("START", y.syntax()),
            ModuleField::Table(y) => ("TABLE", y.syntax()),
            ModuleField::Type(y) => ("TYPE", y.syntax()),
        };
        (v, if s == x.syntax() { s.clone() } else { n.parent().unwrap_or(n.clone()) })
    });
    let e = ["DATA", "ELEM", "EXPORT", "FUNC", "GLOBAL", "IMPORT", "MEMORY", "START", "TABLE", "TYPE"].into_iter().find(|v| kind == format!("MODULE_FIELD_{v}"));
    variant(f, ModuleField::can_cast(n.kind()), "ModuleField", e)?;
    let f = ImportDesc::cast(n.clone()).map(|x| {
        let (v, s) = match &x {
            ImportDesc::GlobalType(y) => ("GLOBAL_TYPE", y.syntax()),
            ImportDesc::MemoryType(y) => ("MEMORY_TYPE", y.syntax()),
            ImportDesc::TableType(y) => ("TABLE_TYPE", y.syntax()),
            ImportDesc::TypeUse(y) => ("TYPE_USE", y.syntax()),
        };
        (v, if s == x.syntax() { s.clone() } else { n.parent().unwrap_or(n.clone()) })
    });
    let e = ["GLOBAL_TYPE", "MEMORY_TYPE", "TABLE_TYPE", "TYPE_USE"].into_iter().find(|v| kind == format!("IMPORT_DESC_{v}"));
    variant(f, ImportDesc::can_cast(n.kind()), "ImportDesc", e)?;
    let f = ExportDesc::cast(n.clone()).map(|x| {
        let (v, s) = match &x {
            ExportDesc::Func(y) => ("FUNC", y.syntax()),
            ExportDesc::Global(y) => ("GLOBAL", y.syntax()),
            ExportDesc::Memory(y) => ("MEMORY", y.syntax()),
            ExportDesc::Table(y) => ("TABLE", y.syntax()),
        };
        (v, if s == x.syntax() { s.clone() } else { n.parent().unwrap_or(n.clone()) })
    });
    let e = ["FUNC", "GLOBAL", "MEMORY", "TABLE"].into_iter().find(|v| kind == format!("EXPORT_DESC_{v}"));
    variant(f, ExportDesc::can_cast(n.kind()), "ExportDesc", e)?;
    let f = BlockInstr::cast(n.clone()).map(|x| {
        let (v, s) = match &x {
            BlockInstr::Block(y) => ("BLOCK", y.syntax()),
            BlockInstr::Loop(y) => ("LOOP", y.syntax()),
            BlockInstr::If(y) => ("IF", y.syntax()),
        };
        (v, if s == x.syntax() { s.clone() } else { n.parent().unwrap_or(n.clone()) })
    });
    let e = ["BLOCK", "LOOP", "IF"].into_iter().find(|v| kind == format!("BLOCK_{v}"));
    variant(f, BlockInstr::can_cast(n.kind()), "BlockInstr", e)?;
    let f = Instr::cast(n.clone()).map(|x| {
        let (v, s) = match &x {
            Instr::Plain(y) => ("PLAIN", y.syntax()),
            Instr::Block(BlockInstr::Block(y)) => ("BLOCK", y.syntax()),
            Instr::Block(BlockInstr::Loop(y)) => ("LOOP", y.syntax()),
            Instr::Block(BlockInstr::If(y)) => ("IF", y.syntax()),
        };
        (v, if s == x.syntax() { s.clone() } else { n.parent().unwrap_or(n.clone()) })
    });
    let e = if kind == "PLAIN_INSTR" { Some("PLAIN") } else { e };
    variant(f, Instr::can_cast(n.kind()), "Instr", e)
}

fn c23_check(c: &Case, r: &mut Rec) -> Res {
    if c.space == "kinds" {
        // conversion of kinds, both ways
        let last = SyntaxKind::ROOT as u16;
        for i in 0..=last {
            let k = WatLanguage::kind_from_raw(rowan::SyntaxKind(i));
            r.step();
            if WatLanguage::kind_to_raw(k) != rowan::SyntaxKind(i) || rowan::SyntaxKind::from(k) != rowan::SyntaxKind(i) {
                return Err(format!("kind {k:?} is converted to {:?}", WatLanguage::kind_to_raw(k)));
            }
        }
        return Ok(());
    }
    let src = &c.texts[0];
    let Ok(d) = refwat::parse(src) else {
        r.skipped += 1;
        return Ok(());
    };
    let root = wat_parser::Parser::new(src).parse();
    // the untyped tree is the one the grammar prescribes (C02)
    syntax::structure(src, &root, &d)?;
    for n in root.descendants() {
        node(&n, r)?;
        sums(&n)?;
        r.outcome(&(format!("{:?}", n.kind()), n.children_with_tokens().map(|e| e.kind() as u16).collect::<Vec<_>>()));
    }
    for t in root.descendants_with_tokens().filter_map(|e| e.into_token()) {
        let k = format!("{:?}", t.kind());
        if wat_syntax::is_trivia(&t) != matches!(&*k, "WHITESPACE" | "LINE_COMMENT" | "BLOCK_COMMENT") {
            return Err(format!("is_trivia of {k}"));
        }
        if wat_syntax::is_punc(&t) != matches!(t.text(), "(" | ")") {
            return Err(format!("is_punc of {k}"));
        }
    }
    Ok(())
}
fn c23_cases(tier: Tier, emit: Emit) {
    emit(Case::doc("kinds", ""));
    crate::ladder::shapes(Tier::Quick, &mut |sp, t| {
        if t.len() < tier.pick(200, 2000) {
            emit(Case::doc(sp, t));
        }
    });
    syntax::syntax_docs(Tier::Quick, &mut |c| {
        if ["field", "layout", "gap", "all-gaps", "pair", "modules", "trivial", "string", "edit/", "word"].iter().any(|p| c.space.starts_with(p)) && (tier.thorough() || c.space != "modules") || tier.thorough() && c.space.starts_with("tokens") {
            emit(c)
        }
    });
    let units: &[&str] = &["nop", "block", "block $a", "loop", "if", "if $b", "else", "else $b", "end", "end $a", "(block", "(loop $a", "(if (nop)", "(then", "(else", ")", "(result i32)", "(type 0)"];
    sequences_upto(units, tier.pick(4, 5), &mut |s| {
        let t = format!("(module (func {}))", s.join(" "));
        if refwat::parse(&t).is_ok() {
            emit(Case::doc("instr-seq", t));
        }
    });
}
pub static C23: Property = Property { id: "C23", cases: c23_cases, check: c23_check, bounds: |t| format!("every accessor of the 51 typed forms and 5 enums on every node of: {} productions in 13 layouts with trivia in every gap, all pairs of them, all single-token edits that stay well-formed, all block structures of <= {} units over 18, lists and nestings of growing size", FIELDS.len(), t.pick(4, 5)) };

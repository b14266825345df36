#![allow(dead_code, unused_imports, unused_macros)]
use lsp_types::*;
use serde_json::{json, Value};
use wat_service::LanguageService;

fn uri() -> Uri { "file:///a.wat".parse().unwrap() }
fn open(text: &str) -> LanguageService {
    let mut s = LanguageService::default();
    s.initialize(serde_json::from_value(json!({"capabilities":{"textDocument":{"semanticTokens":{
        "requests":{},"tokenModifiers":[],"formats":["relative"],
        "tokenTypes":["type","parameter","variable","function","keyword","comment","string","number","operator"]}}}})).unwrap());
    s.commit(uri(), text.to_string());
    s
}
/// line and column of the n-th occurrence of a piece of text, plus some columns
fn at(text: &str, piece: &str, n: usize, plus: usize) -> Value {
    let i = text.match_indices(piece).nth(n).unwrap().0 + plus;
    let line = text[..i].matches('\n').count();
    let col = i - text[..i].rfind('\n').map_or(0, |j| j + 1);
    json!({"line": line, "character": text[i - col..i].encode_utf16().count()})
}
macro_rules! ask {
    ($s:expr, $m:ident, $pos:expr) => {
        serde_json::to_value($s.$m(serde_json::from_value(json!({
            "textDocument": {"uri": uri().as_str()}, "position": $pos,
            "context": {"includeDeclaration": true, "diagnostics": [], "triggerKind": 1},
        })).unwrap())).unwrap()
    };
}
macro_rules! ask_json {
    ($s:expr, $m:ident, $params:expr) => {
        serde_json::to_value($s.$m(serde_json::from_value($params).unwrap())).unwrap()
    };
}
fn starts(v: &Value) -> Vec<(u64, u64)> {
    let one = |l: &Value| (l["range"]["start"]["line"].as_u64().unwrap(), l["range"]["start"]["character"].as_u64().unwrap());
    match v {
        Value::Array(a) => a.iter().map(one).collect(),
        Value::Null => vec![],
        v => vec![one(v)],
    }
}
fn diags(s: &LanguageService) -> Vec<Value> {
    let v = serde_json::to_value(s.pull_diagnostics(serde_json::from_value(json!({"textDocument": {"uri": uri().as_str()}})).unwrap())).unwrap();
    v["items"].as_array().unwrap().clone()
}
fn messages(text: &str) -> Vec<String> {
    diags(&open(text)).iter().map(|d| d["message"].as_str().unwrap().to_string()).collect()
}
fn tree(text: &str) -> (String, usize) {
    let mut p = wat_parser::Parser::new(text);
    let root = p.parse();
    let t = root.to_string();
    (t, p.errors().len())
}
fn fmt(text: &str) -> String {
    let root = rowan::ast::AstNode::cast(wat_parser::Parser::new(text).parse()).unwrap();
    wat_formatter::format(&root, &Default::default())
}


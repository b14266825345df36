//! C21: the language server process, driven over its standard input and output.  Every sequence of
//! client messages of the bounded space is sent to a fresh server process; what comes back is
//! compared with what a client is entitled to (one answer per request, computed from the current
//! text; diagnostics pushed exactly to clients that do not pull them; an orderly shutdown).
use crate::engine::*;
use crate::svc::{fopts, uri};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use wat_service::LanguageService;

const A: &str = "file:///work/a.wat";
const B: &str = "untitled:Untitled-1";
const URIS: [&str; 6] = [A, B, "file:///c%3A/My%20Code/x.wat", "file:///c:/x.wat", "vscode-notebook-cell:/x/y.ipynb#W0s", "file:///%E4%BD%A0/a.wat?q=1"];
/// documents a session can hold: the named ones, and numbered ones
const MANY: usize = 140;
fn at(d: usize) -> &'static str {
    static ALL: std::sync::LazyLock<Vec<String>> = std::sync::LazyLock::new(|| (0..MANY).map(|d| URIS.get(d).map_or_else(|| format!("file:///work/many/m{d}.wat"), |u| u.to_string())).collect());
    &ALL[d]
}
const TEXTS: [&str; 12] = [
    "(module\n  (type $t (func (param i32) (result i32)))\n  (func $f (type $t) (param $x i32) (result i32)\n    local.get $x)\n  (func $g (call $f (i32.const 1)) drop (block $l br $l))\n)\n",
    "(module (global $g i32 (i32.const 0))\n (func $h (param $x i32) (result i64)\n   (call $h (local.get $x)) drop\n   global.get $nope))\n",
    "(module\n  (func $f (local i32 i32)\n    (i32.add (i32.const 1)\n  ",
    ";; \u{1F600} nothing\n(module (func $\u{4F60}))",
    "",
    "\u{feff}(module (func $f (param $x i32)\n (call $f (local.get $x))\n))",
    "(module\r\n  (func $f (param $x i32)\r\n    (call $f (local.get $y))))\r\n",
    "\n\n  (module (func $f (param $x i32) (call $f (local.get $y))))  \n\n\n",
    "(module (func $f))\n(module (func $f (call $f)))\n;; Content-Length: 10\r\n\r\n{}",
    "(module (data \"\\00\u{7f}\u{0}\u{2028}\") (func $f\t\t(call $f)))",
    ";; #region a\n(module (; \u{1F600} ;) (func $f (param i32)\n (call $f (i32.const 1)))) ;; %41 &amp; \\n",
    "(module (func $a\u{308}))\u{85}\u{a0}",
];
/// positions asked about (line, column)
const POS: [(u32, u32); 4] = [(4, 18), (1, 10), (3, 15), (0, 1)];

const METHODS: [&str; 21] = [
    "textDocument/prepareCallHierarchy",
    "callHierarchy/incomingCalls",
    "callHierarchy/outgoingCalls",
    "textDocument/codeAction",
    "textDocument/completion",
    "textDocument/diagnostic",
    "textDocument/documentSymbol",
    "textDocument/foldingRange",
    "textDocument/formatting",
    "textDocument/declaration",
    "textDocument/definition",
    "textDocument/typeDefinition",
    "textDocument/hover",
    "textDocument/inlayHint",
    "textDocument/prepareRename",
    "textDocument/rangeFormatting",
    "textDocument/references",
    "textDocument/rename",
    "textDocument/selectionRange",
    "textDocument/semanticTokens/full",
    "textDocument/semanticTokens/range",
];
/// what `initialize` has to advertise for a client to use the method
const ADVERTISED: [(&str, &[&str]); 16] = [
    ("/callHierarchyProvider", &["textDocument/prepareCallHierarchy", "callHierarchy/incomingCalls", "callHierarchy/outgoingCalls"]),
    ("/codeActionProvider", &["textDocument/codeAction"]),
    ("/completionProvider", &["textDocument/completion"]),
    ("/diagnosticProvider", &["textDocument/diagnostic"]),
    ("/documentSymbolProvider", &["textDocument/documentSymbol"]),
    ("/foldingRangeProvider", &["textDocument/foldingRange"]),
    ("/documentFormattingProvider", &["textDocument/formatting"]),
    ("/documentRangeFormattingProvider", &["textDocument/rangeFormatting"]),
    ("/declarationProvider", &["textDocument/declaration"]),
    ("/definitionProvider", &["textDocument/definition"]),
    ("/typeDefinitionProvider", &["textDocument/typeDefinition"]),
    ("/hoverProvider", &["textDocument/hover"]),
    ("/inlayHintProvider", &["textDocument/inlayHint"]),
    ("/renameProvider/prepareProvider", &["textDocument/prepareRename", "textDocument/rename"]),
    ("/referencesProvider", &["textDocument/references"]),
    ("/selectionRangeProvider", &["textDocument/selectionRange"]),
];

/// what could be advertised besides, and the method that has to be known then
const OTHER: [(&str, &str); 30] = [
    ("/completionProvider/resolveProvider", "completionItem/resolve"),
    ("/codeActionProvider/resolveProvider", "codeAction/resolve"),
    ("/inlayHintProvider/resolveProvider", "inlayHint/resolve"),
    ("/codeLensProvider", "textDocument/codeLens"),
    ("/codeLensProvider/resolveProvider", "codeLens/resolve"),
    ("/documentLinkProvider", "textDocument/documentLink"),
    ("/documentLinkProvider/resolveProvider", "documentLink/resolve"),
    ("/signatureHelpProvider", "textDocument/signatureHelp"),
    ("/implementationProvider", "textDocument/implementation"),
    ("/documentHighlightProvider", "textDocument/documentHighlight"),
    ("/workspaceSymbolProvider", "workspace/symbol"),
    ("/workspaceSymbolProvider/resolveProvider", "workspaceSymbol/resolve"),
    ("/executeCommandProvider", "workspace/executeCommand"),
    ("/colorProvider", "textDocument/documentColor"),
    ("/colorProvider", "textDocument/colorPresentation"),
    ("/documentOnTypeFormattingProvider", "textDocument/onTypeFormatting"),
    ("/linkedEditingRangeProvider", "textDocument/linkedEditingRange"),
    ("/monikerProvider", "textDocument/moniker"),
    ("/typeHierarchyProvider", "textDocument/prepareTypeHierarchy"),
    ("/typeHierarchyProvider", "typeHierarchy/supertypes"),
    ("/typeHierarchyProvider", "typeHierarchy/subtypes"),
    ("/inlineValueProvider", "textDocument/inlineValue"),
    ("/inlineCompletionProvider", "textDocument/inlineCompletion"),
    ("/diagnosticProvider/workspaceDiagnostics", "workspace/diagnostic"),
    ("/semanticTokensProvider/full/delta", "textDocument/semanticTokens/full/delta"),
    ("/textDocumentSync/willSaveWaitUntil", "textDocument/willSaveWaitUntil"),
    ("/documentRangeFormattingProvider/rangesSupport", "textDocument/rangesFormatting"),
    ("/workspace/fileOperations/willCreate", "workspace/willCreateFiles"),
    ("/workspace/fileOperations/willRename", "workspace/willRenameFiles"),
    ("/workspace/fileOperations/willDelete", "workspace/willDeleteFiles"),
];
/// what is advertised is known, what is not known isn't advertised
fn check_advertised(client: usize) -> Result<(), String> {
    let mut input = vec![];
    let mut send = |v: Value| {
        let s = v.to_string();
        input.extend(format!("Content-Length: {}\r\n\r\n{s}", s.len()).bytes());
    };
    send(json!({"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": capabilities(client)}}));
    send(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));
    for (i, (_, m)) in OTHER.iter().enumerate() {
        send(json!({"jsonrpc": "2.0", "id": i, "method": m, "params": {}}));
    }
    send(json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}));
    send(json!({"jsonrpc": "2.0", "method": "exit"}));
    let (buf, _) = process(&[], input)?;
    let ms = messages(&buf)?;
    let answer = |id: Value| ms.iter().find(|m| m["id"] == id && m.get("method").is_none()).ok_or(format!("no response to {id}"));
    let caps = answer(json!("init"))?["result"]["capabilities"].clone();
    for (i, (ptr, m)) in OTHER.iter().enumerate() {
        let a = answer(json!(i))?;
        if a["error"]["code"] == json!(-32601) && caps.pointer(ptr).is_some_and(|v| *v != json!(false) && !v.is_null()) {
            return Err(format!("initialize advertises {ptr}, but {m} is unknown: {a}"));
        }
    }
    Ok(())
}

fn params(method: &str, u: &str, pos: usize) -> Value {
    let (l, c) = POS[pos];
    let p = json!({"line": l, "character": c});
    let range = json!({"start": {"line": 0, "character": 0}, "end": p});
    let td = json!({"uri": u});
    let mut v = match method {
        "callHierarchy/incomingCalls" | "callHierarchy/outgoingCalls" => {
            json!({"item": {"name": "$f", "kind": 12, "uri": u, "range": {"start": {"line": 2, "character": 2}, "end": {"line": 3, "character": 17}}, "selectionRange": {"start": {"line": 2, "character": 8}, "end": {"line": 2, "character": 10}}}})
        }
        "textDocument/codeAction" => json!({"textDocument": td, "range": {"start": p, "end": p}, "context": {"diagnostics": []}}),
        "textDocument/diagnostic" | "textDocument/documentSymbol" | "textDocument/foldingRange" | "textDocument/semanticTokens/full" => json!({"textDocument": td}),
        "textDocument/formatting" => json!({"textDocument": td, "options": fopts(2, true)}),
        "textDocument/rangeFormatting" => json!({"textDocument": td, "range": range, "options": fopts(4, true)}),
        "textDocument/inlayHint" | "textDocument/semanticTokens/range" => json!({"textDocument": td, "range": range}),
        "textDocument/selectionRange" => json!({"textDocument": td, "positions": [p, {"line": 0, "character": 0}]}),
        "textDocument/references" => json!({"textDocument": td, "position": p, "context": {"includeDeclaration": pos % 2 == 0}}),
        "textDocument/rename" => json!({"textDocument": td, "position": p, "newName": "$renamed"}),
        _ => json!({"textDocument": td, "position": p}),
    };
    if pos % 2 == 1 {
        v["workDoneToken"] = json!("w1");
    }
    v
}

/// what the library answers
fn library(s: &LanguageService, method: &str, p: &Value) -> Result<Value, String> {
    macro_rules! f {
        ($m:ident) => {
            Ok(serde_json::to_value(s.$m(serde_json::from_value(p.clone()).map_err(|e| format!("{HARNESS}{e}"))?)).unwrap())
        };
    }
    match method {
        "textDocument/prepareCallHierarchy" => f!(prepare_call_hierarchy),
        "callHierarchy/incomingCalls" => f!(call_hierarchy_incoming_calls),
        "callHierarchy/outgoingCalls" => f!(call_hierarchy_outgoing_calls),
        "textDocument/codeAction" => f!(code_action),
        "textDocument/completion" => f!(completion),
        "textDocument/diagnostic" => f!(pull_diagnostics),
        "textDocument/documentSymbol" => f!(document_symbol),
        "textDocument/foldingRange" => f!(folding_range),
        "textDocument/formatting" => f!(formatting),
        "textDocument/declaration" => f!(goto_declaration),
        "textDocument/definition" => f!(goto_definition),
        "textDocument/typeDefinition" => f!(goto_type_definition),
        "textDocument/hover" => f!(hover),
        "textDocument/inlayHint" => f!(inlay_hint),
        "textDocument/prepareRename" => f!(prepare_rename),
        "textDocument/rangeFormatting" => f!(range_formatting),
        "textDocument/references" => f!(find_references),
        "textDocument/rename" => match s.rename(serde_json::from_value(p.clone()).map_err(|e| format!("{HARNESS}{e}"))?) {
            Ok(v) => Ok(serde_json::to_value(v).unwrap()),
            Err(e) => Err(e),
        },
        "textDocument/selectionRange" => f!(selection_range),
        "textDocument/semanticTokens/full" => f!(semantic_tokens_full),
        "textDocument/semanticTokens/range" => f!(semantic_tokens_range),
        m => Err(format!("{HARNESS}unknown method {m}")),
    }
}

#[derive(Clone, Debug)]
enum Op {
    Open(usize, usize),
    Change(usize, Vec<usize>),
    Close(usize),
    /// request about a document
    Ask(usize, usize, usize),
    /// known method, parameters that do not fit: variant
    Malformed(usize, usize),
    RenameInvalid(usize),
    UnknownRequest(usize),
    /// unknown or malformed notification: variant
    Noise(usize),
    Response,
}
fn encode(ops: &[Op]) -> Vec<i64> {
    let mut v = vec![];
    for o in ops {
        let (k, a): (i64, Vec<usize>) = match o {
            Op::Open(d, t) => (0, vec![*d, *t]),
            Op::Change(d, t) => (1, std::iter::once(*d).chain(t.iter().copied()).collect()),
            Op::Close(d) => (2, vec![*d]),
            Op::Ask(d, m, p) => (3, vec![*d, *m, *p]),
            Op::Malformed(m, k) => (4, vec![*m, *k]),
            Op::RenameInvalid(d) => (5, vec![*d]),
            Op::UnknownRequest(k) => (6, vec![*k]),
            Op::Noise(k) => (7, vec![*k]),
            Op::Response => (8, vec![]),
        };
        v.push(k);
        v.push(a.len() as i64);
        v.extend(a.into_iter().map(|x| x as i64));
    }
    v
}
fn decode(v: &[i64]) -> Vec<Op> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let a: Vec<usize> = v[i + 2..i + 2 + v[i + 1] as usize].iter().map(|x| *x as usize).collect();
        out.push(match v[i] {
            0 => Op::Open(a[0], a[1]),
            1 => Op::Change(a[0], a[1..].to_vec()),
            2 => Op::Close(a[0]),
            3 => Op::Ask(a[0], a[1], a[2]),
            4 => Op::Malformed(a[0], a[1]),
            5 => Op::RenameInvalid(a[0]),
            6 => Op::UnknownRequest(a[0]),
            7 => Op::Noise(a[0]),
            _ => Op::Response,
        });
        i += 2 + v[i + 1] as usize;
    }
    out
}

fn capabilities(client: usize) -> Value {
    let tokens = json!({"requests": {"range": true, "full": true}, "tokenTypes": ["namespace", "function", "type", "parameter", "variable", "keyword", "comment", "string", "number", "operator"], "tokenModifiers": [], "formats": ["relative"]});
    match client {
        0 => json!({}),
        1 => json!({"textDocument": {"diagnostic": {"dynamicRegistration": true}, "semanticTokens": tokens}}),
        2 => json!({"textDocument": {"semanticTokens": tokens, "publishDiagnostics": {"relatedInformation": true}}}),
        _ => json!({"textDocument": {"diagnostic": {}}, "workspace": {"configuration": true}}),
    }
}
fn pulls(client: usize) -> bool {
    client == 1 || client == 3
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Doc {
    Never,
    Text(usize),
    /// closed, or changed without being open: no promise about its text
    Loose,
}
enum Want {
    /// the library's answer
    Equal(Value),
    Error(Option<i64>),
    Any,
}
struct Push {
    doc: usize,
    want: Value,
    optional: bool,
}

fn exchange(input: Vec<u8>) -> Result<(Vec<Value>, i32), String> {
    let (buf, code) = process(&[], input)?;
    Ok((messages(&buf)?, code))
}
/// output and exit code of the server
fn process(args: &[String], input: Vec<u8>) -> Result<(Vec<u8>, i32), String> {
    let bin = std::env::var("WAT_SERVER").map_err(|_| format!("{HARNESS}WAT_SERVER is not set"))?;
    let mut child = Command::new(bin)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("{HARNESS}cannot start the server: {e}"))?;
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(&input);
        let _ = stdin.flush();
        stdin
    });
    let rd = std::thread::spawn(move || {
        let mut buf = vec![];
        let _ = stdout.read_to_end(&mut buf);
        buf
    });
    let t = Instant::now();
    let status = loop {
        match child.try_wait().map_err(|e| format!("{HARNESS}{e}"))? {
            Some(s) => break s,
            None => {
                if t.elapsed() > Duration::from_secs(25) {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err("the server did not exit within 25 s of `exit`".into());
                }
                std::thread::sleep(Duration::from_micros(if t.elapsed() < Duration::from_millis(50) { 300 } else { 3000 }));
            }
        }
    };
    let buf = rd.join().unwrap();
    let _ = w.join();
    Ok((buf, status.code().unwrap_or(-1)))
}
fn messages(buf: &[u8]) -> Result<Vec<Value>, String> {
    let mut out = vec![];
    let mut rest = buf;
    while !rest.is_empty() {
        let head = rest.windows(4).position(|w| w == b"\r\n\r\n").ok_or("output is not framed")?;
        let hs = std::str::from_utf8(&rest[..head]).map_err(|_| "header is not UTF-8")?;
        let n: usize = hs.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|x| x.trim().parse().ok()).ok_or("no Content-Length")?;
        let body = rest.get(head + 4..head + 4 + n).ok_or("truncated message")?;
        out.push(serde_json::from_slice(body).map_err(|e| format!("message is not JSON: {e}"))?);
        rest = &rest[head + 4 + n..];
    }
    Ok(out)
}
fn check_args(args: &[String]) -> Result<(), String> {
    let version = args.iter().any(|a| matches!(&**a, "-v" | "-V" | "--version"));
    let mut input = vec![];
    if !version {
        for s in [r#"{"jsonrpc":"2.0","id":1,"method":"initialize","params":{"capabilities":{}}}"#, r#"{"jsonrpc":"2.0","method":"initialized","params":{}}"#, r#"{"jsonrpc":"2.0","id":2,"method":"shutdown"}"#, r#"{"jsonrpc":"2.0","method":"exit"}"#] {
            input.extend(format!("Content-Length: {}\r\n\r\n{s}", s.len()).bytes());
        }
    }
    let (buf, code) = process(args, input)?;
    if code != 0 {
        return Err(format!("started with {args:?}, the server exits with {code}"));
    }
    if version {
        let t = String::from_utf8_lossy(&buf);
        let v = t.trim_end().strip_prefix("wat_server v").unwrap_or_default();
        if v.split('.').count() != 3 || !v.starts_with(|c: char| c.is_ascii_digit()) {
            return Err(format!("asked for its version with {args:?}, the server prints {t:?}"));
        }
    } else if messages(&buf)?.iter().filter_map(|m| m["id"].as_i64()).collect::<Vec<_>>() != [1, 2] {
        return Err(format!("started with {args:?}, the server answers {:?}", String::from_utf8_lossy(&buf)));
    }
    Ok(())
}

/// texts: []; params: [client, id style, ops...]
fn c21_check(c: &Case, r: &mut Rec) -> Result<(), String> {
    if c.space == "arguments" {
        r.step();
        return check_args(&c.texts);
    }
    let client = c.params[0] as usize;
    if c.space == "advertised" {
        r.step();
        return check_advertised(client);
    }
    let style = c.params[1];
    let ops = decode(&c.params[2..]);
    let mut input: Vec<u8> = vec![];
    let mut send = |v: Value| {
        let s = v.to_string();
        input.extend(format!("Content-Length: {}\r\n\r\n{s}", s.len()).bytes());
    };
    let id = |n: usize| -> Value {
        match style {
            0 => json!(n),
            1 => json!(format!("req-{n}")),
            _ => json!(1000 - n as i64),
        }
    };
    let init = json!({"processId": null, "rootUri": null, "capabilities": capabilities(client)});
    let mut lib = LanguageService::default();
    let lib_init = serde_json::to_value(lib.initialize(serde_json::from_value(init.clone()).unwrap())).unwrap();
    send(json!({"jsonrpc": "2.0", "id": id(0), "method": "initialize", "params": init}));
    send(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));
    let mut docs = [Doc::Never; MANY];
    let mut versions = [0i32; MANY];
    let mut want: Vec<(Value, String, Want)> = vec![];
    let mut pushes: Vec<Push> = vec![];
    let mut n = 0;
    for op in &ops {
        r.step();
        let mut req = |method: &str, params: Option<Value>, w: Want, want: &mut Vec<(Value, String, Want)>| {
            n += 1;
            let mut m = json!({"jsonrpc": "2.0", "id": id(n), "method": method});
            if let Some(p) = params {
                m["params"] = p;
            }
            send(m);
            want.push((id(n), method.to_string(), w));
        };
        match op {
            Op::Open(d, t) => {
                versions[*d] = 1;
                send(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": at(*d), "languageId": "wat", "version": versions[*d], "text": TEXTS[*t]}}}));
                docs[*d] = Doc::Text(*t);
                lib.commit(uri(at(*d)), TEXTS[*t].to_string());
                if !pulls(client) {
                    pushes.push(Push { doc: *d, want: serde_json::to_value(lib.publish_diagnostics(uri(at(*d)))).unwrap(), optional: false });
                }
            }
            Op::Change(d, ts) => {
                versions[*d] += 1 + ts.len() as i32;
                let changes: Vec<Value> = ts.iter().map(|t| json!({"text": TEXTS[*t]})).collect();
                send(json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": at(*d), "version": versions[*d]}, "contentChanges": changes}}));
                let open = matches!(docs[*d], Doc::Text(_));
                if let Some(t) = ts.last() {
                    docs[*d] = if open { Doc::Text(*t) } else { Doc::Loose };
                    lib.commit(uri(at(*d)), TEXTS[*t].to_string());
                }
                if !pulls(client) && docs[*d] != Doc::Never {
                    pushes.push(Push { doc: *d, want: serde_json::to_value(lib.publish_diagnostics(uri(at(*d)))).unwrap(), optional: !open || ts.is_empty() });
                }
            }
            Op::Close(d) => {
                send(json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": at(*d)}}}));
                pushes.push(Push { doc: *d, want: json!({"uri": at(*d), "diagnostics": []}), optional: pulls(client) || !matches!(docs[*d], Doc::Text(_)) });
                docs[*d] = if docs[*d] == Doc::Never { Doc::Never } else { Doc::Loose };
            }
            Op::Ask(d, m, p) => {
                let v = params(METHODS[*m], at(*d), *p);
                let w = match docs[*d] {
                    Doc::Never => Want::Error(None),
                    Doc::Loose => Want::Any,
                    Doc::Text(_) => match library(&lib, METHODS[*m], &v) {
                        Ok(v) => Want::Equal(v),
                        Err(e) if e.starts_with(HARNESS) => return Err(e),
                        Err(_) => Want::Error(None),
                    },
                };
                req(METHODS[*m], Some(v), w, &mut want);
            }
            Op::RenameInvalid(d) => {
                let mut v = params("textDocument/rename", at(*d), 0);
                v["newName"] = json!("no good");
                // an identifier at the position or not: the library decides, and a name like this is never accepted
                let w = match docs[*d] {
                    Doc::Never => Want::Error(None),
                    Doc::Loose => Want::Any,
                    Doc::Text(_) => match library(&lib, "textDocument/rename", &v) {
                        Ok(v) => Want::Equal(v),
                        Err(_) => Want::Error(None),
                    },
                };
                req("textDocument/rename", Some(v), w, &mut want);
            }
            Op::Malformed(m, k) => {
                let p = match k {
                    0 => None,
                    1 => Some(json!({"textDocument": {"uri": A}, "position": {"line": -1, "character": "x"}, "range": 1, "options": 0, "positions": 1, "item": {"uri": A}})),
                    2 => Some(json!([1, 2])),
                    _ => Some(json!({"textDocument": {"uri": 5}, "item": 7})),
                };
                // requests about the document alone are satisfied with variant 1
                let m = METHODS[*m];
                let w = if *k == 1 && matches!(m, "textDocument/diagnostic" | "textDocument/documentSymbol" | "textDocument/foldingRange" | "textDocument/semanticTokens/full") { Want::Any } else { Want::Error(Some(-32602)) };
                req(m, p, w, &mut want);
            }
            Op::UnknownRequest(k) => {
                let (m, p) = match k {
                    0 => ("workspace/symbol", json!({"query": "x"})),
                    1 => ("textDocument/unknownMethod", json!({"textDocument": {"uri": A}, "position": {"line": 0, "character": 0}})),
                    _ => ("$/whatever", json!(null)),
                };
                let w = if *k == 1 && !matches!(docs[0], Doc::Text(_)) { Want::Error(None) } else { Want::Error(Some(-32601)) };
                req(m, Some(p), w, &mut want);
            }
            Op::Noise(k) => send(match k {
                0 => json!({"jsonrpc": "2.0", "method": "$/setTrace", "params": {"value": "off"}}),
                1 => json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": A}}}),
                2 => json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": B}}}),
                3 => json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": A, "version": 3}, "contentChanges": "x"}}),
                4 => json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {}}),
                5 => json!({"jsonrpc": "2.0", "method": "workspace/didChangeConfiguration"}),
                _ => json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": 99}}),
            }),
            Op::Response => send(json!({"jsonrpc": "2.0", "id": 77, "result": null})),
        }
    }
    send(json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}));
    send(json!({"jsonrpc": "2.0", "method": "exit"}));
    let (out, code) = exchange(input)?;
    let what = || format!("client {client}, {ops:?}");
    let mut responses: HashMap<String, Vec<&Value>> = HashMap::new();
    let mut pushed: Vec<&Value> = vec![];
    for m in &out {
        if m["jsonrpc"] != "2.0" {
            return Err(format!("not a JSON-RPC message: {m}; {}", what()));
        }
        if m.get("method").is_none() {
            if m.get("result").is_some() == m.get("error").is_some() {
                return Err(format!("a response has to have a result or an error: {m}; {}", what()));
            }
            responses.entry(m["id"].to_string()).or_default().push(m);
        } else if m["method"] == "textDocument/publishDiagnostics" && m.get("id").is_none() {
            pushed.push(&m["params"]);
        } else {
            return Err(format!("unexpected message {m}; {}", what()));
        }
    }
    let mut take = |id: &Value, method: &str| -> Result<&Value, String> {
        match responses.remove(&id.to_string()).as_deref() {
            Some([m]) => Ok(*m),
            Some(v) => Err(format!("{} responses to {method} (id {id}); {}", v.len(), what())),
            None => Err(format!("no response to {method} (id {id}), exit code {code}; {}", what())),
        }
    };
    // initialize
    let m = take(&id(0), "initialize")?;
    if m["result"] != lib_init {
        return Err(format!("initialize answers {m}, the library {lib_init}"));
    }
    let caps = &m["result"]["capabilities"];
    for (ptr, methods) in ADVERTISED {
        if !caps.pointer(ptr).is_some_and(|v| *v != json!(false) && !v.is_null()) {
            return Err(format!("initialize does not advertise {ptr}, needed for {methods:?}: {caps}"));
        }
    }
    let sync = &caps["textDocumentSync"];
    if sync != &json!(1) && (sync["change"] != json!(1) || sync["openClose"] != json!(true)) {
        return Err(format!("the server takes whole texts and needs open and close, but announces {sync}"));
    }
    let st = &caps["semanticTokensProvider"];
    if st["full"].is_null() || st["full"] == json!(false) || st["range"] != json!(true) {
        return Err(format!("semantic tokens of documents and ranges are not advertised: {st}"));
    }
    for (id, method, w) in &want {
        let m = take(id, method)?;
        r.outcome(&m.to_string());
        match w {
            Want::Any => {}
            Want::Equal(v) => {
                if m.get("error").is_some() || &m["result"] != v {
                    return Err(format!("{method} (id {id}) answers {m}, the library {v}; {}", what()));
                }
            }
            Want::Error(code) => {
                let Some(e) = m.get("error") else { return Err(format!("{method} (id {id}) has to fail, but answers {m}; {}", what())) };
                if !e["message"].is_string() || !e["code"].is_i64() {
                    return Err(format!("not an error object: {e}; {}", what()));
                }
                if code.is_some_and(|c| e["code"] != json!(c)) {
                    return Err(format!("{method} (id {id}) has to fail with {code:?}, but answers {e}; {}", what()));
                }
            }
        }
        if method == "textDocument/codeAction" {
            let kinds: Vec<&str> = caps["codeActionProvider"]["codeActionKinds"].as_array().map(|a| a.iter().filter_map(|k| k.as_str()).collect()).unwrap_or_default();
            for a in m["result"].as_array().into_iter().flatten() {
                if let Some(k) = a["kind"].as_str() {
                    if caps["codeActionProvider"].is_object() && !kinds.iter().any(|x| k == *x || k.starts_with(&format!("{x}."))) {
                        return Err(format!("code action of kind {k}, but only {kinds:?} are announced"));
                    }
                }
            }
        }
    }
    let m = take(&json!("bye"), "shutdown")?;
    if m.get("error").is_some() {
        return Err(format!("shutdown fails: {m}; {}", what()));
    }
    if let Some(k) = responses.keys().next() {
        return Err(format!("a response to id {k}, which was never asked; {}", what()));
    }
    if code != 0 {
        return Err(format!("exit code {code} after shutdown and exit; {}", what()));
    }
    // pushed diagnostics, document by document
    for d in 0..MANY {
        let want: Vec<&Push> = pushes.iter().filter(|p| p.doc == d).collect();
        let got: Vec<&Value> = pushed.iter().filter(|p| p["uri"] == at(d)).copied().collect();
        if !matches(&want, &got) {
            return Err(format!("diagnostics pushed for {}: {got:?}, expected {:?}; {}", at(d), want.iter().map(|p| (&p.want, p.optional)).collect::<Vec<_>>(), what()));
        }
    }
    if let Some(p) = pushed.iter().find(|p| !(0..MANY).any(|d| p["uri"] == at(d))) {
        return Err(format!("diagnostics pushed for a document nobody mentioned: {p}; {}", what()));
    }
    r.outcome(&pushed.iter().map(|p| p.to_string()).collect::<Vec<_>>());
    Ok(())
}
fn matches(want: &[&Push], got: &[&Value]) -> bool {
    match (want, got) {
        ([], []) => true,
        ([w, ws @ ..], gs) => {
            if let [g, rest @ ..] = gs {
                if **g == w.want && matches(ws, rest) {
                    return true;
                }
            }
            w.optional && matches(ws, gs)
        }
        ([], _) => false,
    }
}

fn c21_cases(t: Tier, emit: Emit) {
    crate::gen::sequences_upto(&["-v", "-V", "--version", "--debug", "--stdio", "x"], t.pick(2, 3), &mut |s| emit(Case::new("arguments", s.iter().map(|x| x.to_string()).collect(), vec![])));
    for client in 0..4 {
        emit(Case::new("advertised", vec![], vec![client]));
    }
    let mut go = |space: &str, client: usize, style: i64, ops: &[Op]| {
        let mut p = vec![client as i64, style];
        p.extend(encode(ops));
        emit(Case::new(space, vec![], p));
    };
    let probe = [Op::Ask(0, 6, 0), Op::Ask(1, 5, 0), Op::Ask(0, 19, 0), Op::Ask(1, 6, 0)];
    // every method in every state of the document, for every client
    for client in 0..4 {
        for m in 0..METHODS.len() {
            for style in 0..3 {
                for p in 0..POS.len() {
                    for (k, pre) in [vec![], vec![Op::Open(0, 0)], vec![Op::Open(0, 0), Op::Change(0, vec![1])], vec![Op::Open(0, 2)], vec![Op::Open(0, 3), Op::Open(1, 0)], vec![Op::Open(0, 1), Op::Close(0), Op::Open(0, 0)], vec![Op::Open(0, 0), Op::Close(0)]].into_iter().enumerate() {
                        if style > 0 && (p > 1 || k > 2) && !t.thorough() {
                            continue;
                        }
                        let mut ops = pre;
                        ops.push(Op::Ask(0, m, p));
                        ops.push(Op::Ask(1, m, p));
                        go("method", client, style, &ops);
                    }
                }
                for k in 0..4 {
                    for open in [true, false] {
                        let mut ops = if open { vec![Op::Open(0, 0)] } else { vec![] };
                        ops.push(Op::Malformed(m, k));
                        if open || k != 1 {
                            ops.push(Op::Ask(0, m, 0));
                            go("malformed", client, style, &ops);
                        }
                    }
                }
            }
        }
        // documents under all kinds of URIs
        for d in 0..URIS.len() {
            for e in 0..URIS.len() {
                for m in [5, 10, 17] {
                    go("uri", client, 0, &[Op::Open(d, 0), Op::Ask(e, m, 0), Op::Open(e, 1), Op::Ask(d, m, 0), Op::Ask(e, m, 0), Op::Close(d), Op::Ask(e, m, 0)]);
                }
            }
        }
    }
    // every text, opened and changed into every other one
    for client in 0..4 {
        for a in 0..TEXTS.len() {
            for b in 0..TEXTS.len() {
                let mut ops = vec![Op::Open(0, a)];
                let asks = |ops: &mut Vec<Op>| ops.extend([5, 8, 10, 17, 19].iter().flat_map(|m| [0, 1].map(|p| Op::Ask(0, *m, p))));
                asks(&mut ops);
                ops.push(Op::Change(0, vec![b]));
                asks(&mut ops);
                ops.extend([Op::Close(0), Op::Open(0, b), Op::Change(0, vec![a, b, a])]);
                asks(&mut ops);
                go("texts", client, 0, &ops);
            }
        }
        // many documents open at once: all are served, the first as well as the last
        let sizes = [9, 17, 33, 65, 101, 129];
        for n in &sizes[..t.pick(sizes.len(), sizes.len())] {
            for close in [false, true] {
                let mut ops: Vec<Op> = (6..6 + n).map(|d| Op::Open(d, [0, 1, 3][d % 3])).collect();
                ops.extend((6..6 + n).map(|d| Op::Ask(d, 10, 0)));
                if close {
                    ops.extend((6..6 + n).filter(|d| d % 2 == 1).map(Op::Close));
                }
                ops.extend((6..6 + n).map(|d| Op::Change(d, vec![[1, 3, 0][d % 3]])));
                ops.extend((6..6 + n).rev().map(|d| Op::Ask(d, 5, 1)));
                go("many", client, 0, &ops);
            }
        }
    }
    // all pairs of methods in one burst
    for a in 0..METHODS.len() {
        for b in 0..METHODS.len() {
            go("pairs", 1, 2, &[Op::Open(0, 0), Op::Open(1, 1), Op::Ask(0, a, 0), Op::Ask(1, b, 1), Op::Change(0, vec![1]), Op::Ask(0, a, 0), Op::Ask(0, b, 0)]);
        }
    }
    // all sequences of messages
    let alphabet = [
        Op::Open(0, 0),
        Op::Open(0, 3),
        Op::Open(1, 1),
        Op::Change(0, vec![1]),
        Op::Change(0, vec![1, 0]),
        Op::Change(0, vec![0, 2, 1]),
        Op::Change(0, vec![]),
        Op::Change(1, vec![2]),
        Op::Close(0),
        Op::Close(1),
        Op::Ask(0, 10, 0),
        Op::Ask(1, 5, 0),
        Op::Malformed(12, 1),
        Op::RenameInvalid(0),
        Op::UnknownRequest(0),
        Op::UnknownRequest(1),
        Op::Noise(0),
        Op::Noise(2),
        Op::Noise(3),
        Op::Noise(6),
        Op::Response,
    ];
    for k in 0..7 {
        for u in 0..3 {
            go("noise", u, 1, &[Op::Noise(k), Op::UnknownRequest(u), Op::Open(0, 0), Op::Noise(k), Op::UnknownRequest(u), Op::Ask(0, 10, 0)]);
        }
    }
    for depth in 0..=3 {
        let mut ix = vec![0usize; depth];
        'seq: loop {
            let mut ops: Vec<Op> = ix.iter().map(|i| alphabet[*i].clone()).collect();
            // a server that has not seen a document has nothing to say about it: sequences that
            // never open one are covered by their prefixes
            let opens = ops.iter().any(|o| matches!(o, Op::Open(..)));
            ops.extend(probe.iter().cloned());
            if depth < 3 || opens || t.thorough() {
                for client in if t.thorough() || depth < 3 { vec![0, 1, 2] } else { vec![1, 2] } {
                    go("sequences", client, (client % 2) as i64, &ops);
                }
            }
            let mut k = 0;
            loop {
                if k == depth {
                    break 'seq;
                }
                ix[k] += 1;
                if ix[k] < alphabet.len() {
                    break;
                }
                ix[k] = 0;
                k += 1;
            }
        }
    }
    if t.thorough() {
        // four messages on one document
        let small = [Op::Open(0, 0), Op::Open(0, 1), Op::Change(0, vec![1]), Op::Change(0, vec![0, 2]), Op::Change(0, vec![]), Op::Close(0), Op::Ask(0, 10, 0), Op::Malformed(12, 1), Op::Noise(3), Op::Open(1, 0), Op::Close(1)];
        let n = small.len();
        for i in 0..n * n * n * n {
            let mut ops: Vec<Op> = [i % n, i / n % n, i / n / n % n, i / n / n / n].iter().map(|k| small[*k].clone()).collect();
            ops.extend(probe.iter().cloned());
            go("sequences", 2, 0, &ops);
            go("sequences", 1, 0, &ops);
        }
    }
}
pub static C21: Property = Property {
    id: "C21",
    cases: c21_cases,
    check: c21_check,
    bounds: |t| {
        format!(
            "server process over stdio: 21 methods x 7 document states x 4 positions x 4 clients x 3 id styles; malformed parameters (4 ways) for every method; 6x6 document URIs; 12x12 texts; up to 129 documents; all ordered pairs of methods; all sequences of up to 3 messages over 21 (changes, opens, closes, requests, errors, noise) with 4 probing requests{}; 2-3 kinds of clients",
            t.pick("", "; all sequences of 4 over 11")
        )
    },
};

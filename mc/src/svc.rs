//! Thin wrappers around the real `LanguageService`, translating between byte offsets and LSP
//! (UTF-16) positions with an implementation of our own.
#![allow(dead_code)]
use crate::refwat::Span;
use lsp_types::*;
use serde_json::Value;
use wat_service::LanguageService;

pub fn uri(s: &str) -> Uri {
    s.parse().unwrap()
}
pub const U: &str = "untitled:///a.wat";

/// Own UTF-16 line/column arithmetic.
pub struct Lines<'a> {
    src: &'a str,
    starts: Vec<usize>,
}
impl<'a> Lines<'a> {
    pub fn new(src: &'a str) -> Self {
        let mut starts = vec![0];
        for (i, b) in src.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        Lines { src, starts }
    }
    pub fn pos(&self, off: usize) -> Position {
        let line = self.starts.partition_point(|s| *s <= off) - 1;
        let col: usize = self.src[self.starts[line]..off].chars().map(char::len_utf16).sum();
        Position::new(line as u32, col as u32)
    }
    pub fn off(&self, p: Position) -> Option<usize> {
        let s = *self.starts.get(p.line as usize)?;
        let mut col = 0u32;
        for (i, c) in self.src[s..].char_indices() {
            if col == p.character {
                return Some(s + i);
            }
            if col > p.character || c == '\n' {
                return None;
            }
            col += c.len_utf16() as u32;
        }
        if col == p.character {
            Some(self.src.len())
        } else {
            None
        }
    }
    pub fn range(&self, sp: Span) -> Range {
        Range::new(self.pos(sp.s), self.pos(sp.e))
    }
    /// None if the range is not a well-formed range of this document.
    pub fn span(&self, r: Range) -> Option<Span> {
        let s = self.off(r.start)?;
        let e = self.off(r.end)?;
        if s <= e {
            Some(Span::new(s, e))
        } else {
            None
        }
    }
    pub fn line_count(&self) -> usize {
        self.starts.len()
    }
    pub fn line_of(&self, off: usize) -> usize {
        self.starts.partition_point(|s| *s <= off) - 1
    }
}

pub const TOKEN_TYPES: [&str; 9] = ["type", "parameter", "variable", "function", "keyword", "comment", "string", "number", "operator"];

pub fn init_params(types: &[&str]) -> InitializeParams {
    serde_json::from_value(serde_json::json!({
        "capabilities": {"textDocument": {"semanticTokens": {
            "requests": {"range": true, "full": true},
            "tokenTypes": types, "tokenModifiers": [], "formats": ["relative"]}}}
    }))
    .unwrap()
}

pub struct Svc {
    pub s: LanguageService,
}
pub fn tdi(u: &str) -> TextDocumentIdentifier {
    TextDocumentIdentifier { uri: uri(u) }
}
pub fn tdp(u: &str, p: Position) -> TextDocumentPositionParams {
    TextDocumentPositionParams { text_document: tdi(u), position: p }
}
impl Svc {
    pub fn new() -> Svc {
        Svc { s: LanguageService::default() }
    }
    pub fn with_tokens() -> Svc {
        let mut s = LanguageService::default();
        s.initialize(init_params(&TOKEN_TYPES));
        Svc { s }
    }
    pub fn open(text: &str) -> Svc {
        let mut s = Svc::new();
        s.commit(U, text);
        s
    }
    pub fn commit(&mut self, u: &str, text: &str) {
        self.s.commit(uri(u), text.to_string());
    }
    pub fn definition(&self, u: &str, p: Position) -> Option<GotoDefinitionResponse> {
        self.s.goto_definition(GotoDefinitionParams {
            text_document_position_params: tdp(u, p),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn type_definition(&self, u: &str, p: Position) -> Option<GotoDefinitionResponse> {
        self.s.goto_type_definition(GotoDefinitionParams {
            text_document_position_params: tdp(u, p),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn declaration(&self, u: &str, p: Position) -> Option<GotoDefinitionResponse> {
        self.s.goto_declaration(GotoDefinitionParams {
            text_document_position_params: tdp(u, p),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn references(&self, u: &str, p: Position, decl: bool) -> Option<Vec<Location>> {
        self.s.find_references(ReferenceParams {
            text_document_position: tdp(u, p),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
            context: ReferenceContext { include_declaration: decl },
        })
    }
    pub fn prepare_rename(&self, u: &str, p: Position) -> Option<PrepareRenameResponse> {
        self.s.prepare_rename(tdp(u, p))
    }
    pub fn rename(&self, u: &str, p: Position, new: &str) -> Result<Option<WorkspaceEdit>, String> {
        self.s.rename(RenameParams {
            text_document_position: tdp(u, p),
            new_name: new.into(),
            work_done_progress_params: Default::default(),
        })
    }
    pub fn hover(&self, u: &str, p: Position) -> Option<Hover> {
        self.s.hover(HoverParams { text_document_position_params: tdp(u, p), work_done_progress_params: Default::default() })
    }
    pub fn completion(&self, u: &str, p: Position) -> Option<CompletionResponse> {
        self.s.completion(CompletionParams {
            text_document_position: tdp(u, p),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
            context: None,
        })
    }
    pub fn inlay(&self, u: &str, r: Range) -> Option<Vec<InlayHint>> {
        self.s.inlay_hint(InlayHintParams { work_done_progress_params: Default::default(), text_document: tdi(u), range: r })
    }
    pub fn symbols(&self, u: &str) -> Option<DocumentSymbolResponse> {
        self.s.document_symbol(DocumentSymbolParams {
            text_document: tdi(u),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn folding(&self, u: &str) -> Option<Vec<FoldingRange>> {
        self.s.folding_range(FoldingRangeParams {
            text_document: tdi(u),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn selection(&self, u: &str, ps: Vec<Position>) -> Option<Vec<SelectionRange>> {
        self.s.selection_range(SelectionRangeParams {
            text_document: tdi(u),
            positions: ps,
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn tokens_full(&self, u: &str) -> Vec<SemanticToken> {
        match self.s.semantic_tokens_full(SemanticTokensParams {
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
            text_document: tdi(u),
        }) {
            Some(SemanticTokensResult::Tokens(t)) => t.data,
            _ => vec![],
        }
    }
    pub fn tokens_range(&self, u: &str, r: Range) -> Option<Vec<SemanticToken>> {
        match self.s.semantic_tokens_range(SemanticTokensRangeParams {
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
            text_document: tdi(u),
            range: r,
        }) {
            Some(SemanticTokensRangeResult::Tokens(t)) => Some(t.data),
            _ => None,
        }
    }
    pub fn prepare_calls(&self, u: &str, p: Position) -> Option<Vec<CallHierarchyItem>> {
        self.s.prepare_call_hierarchy(CallHierarchyPrepareParams {
            text_document_position_params: tdp(u, p),
            work_done_progress_params: Default::default(),
        })
    }
    pub fn incoming(&self, item: CallHierarchyItem) -> Option<Vec<CallHierarchyIncomingCall>> {
        self.s.call_hierarchy_incoming_calls(CallHierarchyIncomingCallsParams {
            item,
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn outgoing(&self, item: CallHierarchyItem) -> Option<Vec<CallHierarchyOutgoingCall>> {
        self.s.call_hierarchy_outgoing_calls(CallHierarchyOutgoingCallsParams {
            item,
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn code_action(&self, u: &str, r: Range) -> Option<CodeActionResponse> {
        self.s.code_action(CodeActionParams {
            text_document: tdi(u),
            range: r,
            context: Default::default(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })
    }
    pub fn formatting(&self, u: &str, o: FormattingOptions) -> Option<Vec<TextEdit>> {
        self.s.formatting(DocumentFormattingParams { text_document: tdi(u), options: o, work_done_progress_params: Default::default() })
    }
    pub fn range_formatting(&self, u: &str, r: Range, o: FormattingOptions) -> Option<Vec<TextEdit>> {
        self.s.range_formatting(DocumentRangeFormattingParams {
            text_document: tdi(u),
            range: r,
            options: o,
            work_done_progress_params: Default::default(),
        })
    }
    pub fn diagnostics(&self, u: &str) -> Vec<Diagnostic> {
        let v = serde_json::to_value(self.s.pull_diagnostics(DocumentDiagnosticParams {
            text_document: tdi(u),
            identifier: None,
            previous_result_id: None,
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))
        .unwrap();
        serde_json::from_value(v["items"].clone()).unwrap()
    }
    pub fn publish(&self, u: &str) -> Vec<Diagnostic> {
        self.s.publish_diagnostics(uri(u)).diagnostics
    }
}

pub fn fopts(tab_size: u32, spaces: bool) -> FormattingOptions {
    FormattingOptions { tab_size, insert_spaces: spaces, ..Default::default() }
}

/// Locations of a "go to" answer (one document).
pub fn locs(r: Option<GotoDefinitionResponse>) -> Vec<(String, Range)> {
    match r {
        None => vec![],
        Some(GotoDefinitionResponse::Scalar(l)) => vec![(l.uri.to_string(), l.range)],
        Some(GotoDefinitionResponse::Array(v)) => v.into_iter().map(|l| (l.uri.to_string(), l.range)).collect(),
        Some(GotoDefinitionResponse::Link(v)) => v.into_iter().map(|l| (l.target_uri.to_string(), l.target_selection_range)).collect(),
    }
}

/// Canonical JSON: arrays of unordered things sorted.
pub fn canon(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(canon).collect();
            a.sort_by_key(|x| x.to_string());
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), canon(v))).collect()),
        v => v.clone(),
    }
}

/// Apply text edits the way an LSP client does. Err if they overlap or lie outside the document.
pub fn apply_edits(src: &str, edits: &[TextEdit]) -> Result<String, String> {
    let l = Lines::new(src);
    let mut v = vec![];
    for e in edits {
        let sp = l.span(e.range).ok_or_else(|| format!("edit range {:?} is not a range of the document", e.range))?;
        v.push((sp, e.new_text.as_str()));
    }
    v.sort_by_key(|x| x.0);
    for w in v.windows(2) {
        if w[0].0.e > w[1].0.s || w[0].0 == w[1].0 {
            return Err(format!("overlapping edits {:?} {:?}", w[0], w[1]));
        }
    }
    let mut out = src.to_string();
    for (sp, t) in v.into_iter().rev() {
        out.replace_range(sp.s..sp.e, t);
    }
    Ok(out)
}

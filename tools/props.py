TRUST = "Exhaustive within the stated bounds (per-space counts in the evidence). Trusts the reference model in mc/src and the harness; says nothing about inputs outside the bounds."
prop("C01", "Parsing is total and lossless for every text",
  "For every text, parsing terminates quickly without crashing and yields a syntax tree whose text is exactly the input. Every reported syntax error has a message and a range inside the text, start not after end, on character boundaries.",
  ["inputs"], "every Unicode string, well-formed or not, at any nesting depth a file can reasonably have",
  "The snapshots cover a few dozen malformed texts; losslessness and termination of the error recovery must hold for every text an editor passes through while the user types.",
  ["crates/parser/src/parser/mod.rs", "crates/parser/src/parser/token.rs", "crates/parser/src/parser/instr.rs", "crates/parser/src/error.rs"],
  [("retry/retry_once error recovery", "parser/mod.rs"), ("error_token, error_term", "parser/token.rs")], TRUST,
  technique="exhaustive enumeration of all short texts / token sequences / single edits, executed on the real parser with invariants checked on each", observe=["wat_parser::Parser::parse", "Parser::errors"])
prop("C02", "Well-formed modules parse without errors into the right structure",
  "Every well-formed document of the supported dialect of the WebAssembly text format yields no syntax error. Its tree has exactly the nodes and tokens the grammar prescribes (kinds, extents, nesting), whatever whitespace and comments stand between the tokens.",
  ["inputs", "programs"], "every well-formed document, every placement of whitespace and comments",
  "Tests sample single productions in one layout; whether every combination of productions and trivia is accepted and structured right needs an independent grammar and exhaustive combination.",
  ["crates/parser/src/parser/module.rs", "crates/parser/src/parser/instr.rs", "crates/parser/src/parser/ty.rs", "crates/parser/src/parser/token.rs"],
  [("module field, instruction and type parsers", "parser/*.rs")], TRUST,
  technique="exhaustive enumeration of documents over the grammar; each one accepted by an independent reference grammar is replayed on the real parser and its tree compared", observe=["wat_parser::Parser"])
prop("C03", "Malformed documents are always reported",
  "Every document that is not well-formed (bad token, unbalanced parentheses, a missing, extra or misplaced token or form, text outside of a module) yields at least one syntax error. That includes malformed strings, names and numbers, wherever they stand. Only the spelling of instruction names, flat instructions in the condition of a folded `if`, and conditions beyond the grammar of a form (size of numbers, equal labels at `end`/`else`, order of imports, doubled starts) are left unchecked.",
  ["inputs", "programs"], "every malformed document",
  "Tests sample a handful of malformed texts; silence on the others would let a broken module pass as correct.",
  ["crates/parser/src/parser/module.rs", "crates/parser/src/parser/instr.rs", "crates/parser/src/parser/token.rs", "crates/parser/src/parser/mod.rs"],
  [("must, retry, error tokens", "parser/mod.rs")], TRUST,
  technique="exhaustive enumeration of short token sequences and single-token edits; each one rejected by the reference grammar must be reported by the real parser", observe=["Parser::errors", "textDocument/diagnostic"])
prop("C04", "Formatting never changes the content of a document",
  "For every document and every combination of formatter options (print width, indentation, tabs, line break, comment formatting, ignore directive), the formatted text has the same tokens and comments in the same order as the source; only whitespace differs (and the blanks just inside comment delimiters when comment formatting is on; an inline import is printed before the inline exports of a function). A document without syntax errors has none after formatting. For a malformed document nothing is dropped; only missing closing parentheses may be added.",
  ["inputs", "programs"], "every document, well-formed or not, every placement of comments, every option set",
  "The snapshots format some dozens of files with default options; a token or comment dropped in any other position is silent data loss.",
  ["crates/formatter/src/lib.rs", "crates/formatter/src/printer/mod.rs", "crates/formatter/src/printer/module.rs", "crates/formatter/src/printer/instr.rs", "crates/formatter/src/printer/ty.rs"],
  [("DocGen implementations", "printer/*.rs"), ("wrap_before/format_trivias", "printer/mod.rs")], TRUST,
  technique="exhaustive enumeration of documents x comment/whitespace placement x options on the real formatter; token and comment sequences compared by an independent lexer", observe=["wat_formatter::format", "textDocument/formatting"])
prop("C05", "Formatting is stable, keeps to the layout options and obeys the ignore comment",
  "For every well-formed document and option set, formatting the formatted text again changes nothing. The output uses only the configured line break, indents by tabs or by multiples of the indent width as configured, has no trailing blanks, one blank between the tokens of a line (none behind an opening or before a closing parenthesis; comments aside), never two blank lines in a row, and ends with exactly one line break. A blank line between two modules, fields or instructions is kept and none is added; a field or instruction that starts a line is one level deeper than its parent form that does. A form preceded by the ignore-directive comment (default `fmt-ignore`) keeps its text verbatim.",
  ["inputs", "programs"], "every well-formed document and option set",
  "Tests format each sample once or twice with one option set; instability shows only for particular comment and line-break placements.",
  ["crates/formatter/src/lib.rs", "crates/formatter/src/printer/mod.rs", "crates/formatter/src/printer/module.rs", "crates/formatter/src/printer/instr.rs", "crates/formatter/src/config.rs"],
  [("should_ignore, ws_of_multi_line, format_trivias", "printer/mod.rs")], TRUST,
  technique="exhaustive enumeration of documents x comment/whitespace placement x options; each one formatted twice on the real formatter and the layout rules checked", observe=["wat_formatter::format"])
prop("C06", "Range formatting touches a covering form only and keeps the document intact",
  "For every document and every requested range, the range reported as affected covers the requested range, replacing it by the returned text changes no token or comment and introduces no syntax error, and formatting the whole document afterwards gives the same result as formatting the original. A range of an already formatted document whose form starts its own line is left unchanged.",
  ["inputs", "programs"], "every document, every range",
  "Tests sample a few ranges; the range is an arbitrary editor selection.",
  ["crates/formatter/src/lib.rs", "crates/service/src/features/formatting.rs", "crates/formatter/src/printer/mod.rs"],
  [("format_range, format_node", "formatter/src/lib.rs, printer/mod.rs")], TRUST,
  technique="exhaustive enumeration of documents x all ranges between token boundaries x options on the real formatter", observe=["wat_formatter::format_range", "textDocument/rangeFormatting"])
prop("C07", "Go to definition, declaration and type definition follow the scoping rules",
  "For every well-formed document and cursor position, go-to-definition on a use of a function, type, global, memory, table, local, parameter or label (by name or by numeric index) lists exactly the definitions it denotes in its own module, function or enclosing block: the innermost matching label, the index counted in that kind's index space. Type-definition and declaration answer consistently. Anything that is no use gives no location.",
  ["inputs", "programs"], "every well-formed document, every cursor position, names and indices, forward and backward uses, imports, several modules",
  "Tests sample one document per kind of symbol; which definition is chosen depends on all other definitions, their order, imports, shadowing and nesting.",
  ["crates/service/src/binder.rs", "crates/service/src/features/definition.rs", "crates/service/src/helpers.rs"],
  [("SymbolTable construction and lookup", "binder.rs"), ("goto_definition", "features/definition.rs")], TRUST,
  technique="exhaustive enumeration of modules over definitions x uses x orders x nesting x all cursor positions on the real service; every answer compared with a reference binder", observe=["textDocument/definition", "textDocument/declaration", "textDocument/typeDefinition"])
prop("C08", "Find references lists every use of a symbol and nothing else",
  "For every well-formed document and cursor position, find-references on a definition or use of a symbol lists exactly the uses denoting that symbol, plus its definition when declarations are requested, each location once, all in the same document. References and go-to-definition agree: a use is listed exactly if its definition is the symbol.",
  ["inputs", "programs"], "every well-formed document, every cursor position",
  "Tests sample a few symbols; a missed or foreign use appears only for particular combinations of kinds, names, indices and nesting.",
  ["crates/service/src/features/references.rs", "crates/service/src/binder.rs"],
  [("find_references", "features/references.rs")], TRUST,
  technique="exhaustive enumeration of modules over definitions x uses x nesting x all cursor positions; reference lists compared with a reference binder", observe=["textDocument/references"])
prop("C09", "Rename changes a symbol consistently and never rebinds anything",
  "For every well-formed document and identifier, renaming to a fresh name edits the identifier at its definition and at every use, only tokens spelled the same in the same scope, and leaves the document well-formed with every use bound to the same definition as before. prepareRename offers exactly the identifier under the cursor. A new name that is not an identifier of the language is rejected, every valid one accepted.",
  ["inputs", "programs"], "every well-formed document, every identifier, every new name",
  "Tests rename a few symbols; capture or a missed occurrence silently changes the program, depending on scopes and shadowing.",
  ["crates/service/src/features/rename.rs", "crates/service/src/binder.rs"],
  [("rename_impl, name validation", "features/rename.rs")], TRUST,
  technique="exhaustive enumeration of modules x all cursor positions x all short new names; edits applied to the text and the binding re-computed by a reference binder", observe=["textDocument/rename", "textDocument/prepareRename"])
prop("C10", "Undefined and duplicate names and extra modules are reported exactly",
  "For every well-formed document, an error is reported at every use whose function, type, global, memory, table, local or label does not exist, and at no use that resolves; at every module-level definition and every parameter or local whose name is taken in the same scope, naming the others; and at every module after the first.",
  ["inputs", "programs"], "every well-formed document",
  "Tests sample one undefined and one duplicate name per kind; both false and missing errors depend on the combination of definitions, uses and scopes.",
  ["crates/service/src/checker/undef.rs", "crates/service/src/checker/dup_names.rs", "crates/service/src/checker/multi_modules.rs", "crates/service/src/binder.rs"],
  [("checker::check", "checker/mod.rs")], TRUST,
  technique="exhaustive enumeration of modules over definitions x uses x nesting; reported diagnostics compared with a reference binder", observe=["textDocument/diagnostic"])
prop("C11", "Operand counts, operand types and immediates are checked as specified",
  "For every well-formed document: a folded instruction is reported exactly if the number of its operands differs from its signature, and otherwise each operand whose value type differs is reported with the expected and found type; a flat instruction directly in a function body or global initialiser is reported exactly if the operands produced before it are too few, and each producer of a wrong type is. Signatures are those of the WebAssembly specification, the callee (also imported or through a type reference), the local or global. What follows blocks and branches is not judged. Immediates of a wrong kind and superfluous immediates of folded instructions are reported.",
  ["inputs", "programs"], "every well-formed document, every instruction of the set, every operand list",
  "Tests sample a dozen of 420 instructions; a wrong entry in the table or a slip in the stack discipline shows only for particular instructions and sequences.",
  ["crates/service/src/checker/typeck.rs", "crates/service/src/checker/literal_operands.rs", "crates/service/src/data_set/instr_meta.rs", "crates/service/src/types_analyzer.rs"],
  [("check_folded, check_stacked", "checker/typeck.rs"), ("check", "checker/literal_operands.rs"), ("INSTR_METAS", "data_set/instr_meta.rs"), ("get_func_sig", "types_analyzer.rs")], TRUST,
  technique="exhaustive enumeration of instructions x operand lists, instruction sequences and operand trees up to a depth on the real service; reports compared with a reference stack machine over the specification's instruction table", observe=["textDocument/diagnostic"])
prop("C12", "Hover describes exactly what the token under the cursor denotes",
  "For every well-formed document and position, hover on an identifier or index shows the definition it denotes: a function with its full signature and the comments directly above it, a global, table, memory or type definition, a parameter or local with its type; hover on an instruction name shows that instruction's binary opcode and on a value type its name. The answer's range is the token's, every position of the token gets the same answer, and a token that denotes nothing yields no answer.",
  ["inputs", "programs"], "every well-formed document, layout and cursor position",
  "Tests snapshot some hovers; what a token denotes depends on names, indices, imports, order and nesting.",
  ["crates/service/src/features/hover.rs", "crates/service/src/types_analyzer.rs"],
  [("hover", "features/hover.rs"), ("render_func_header, render_header", "types_analyzer.rs"), ("get_doc_comment", "helpers.rs")], TRUST,
  technique="exhaustive enumeration of documents x layouts x positions on the real service; hovers compared with a reference binder and renderer", observe=["textDocument/hover"])
prop("C13", "Completion offers exactly what can be referred to at the cursor",
  "For every well-formed document and every operand in it, whether complete or being typed, completion offers exactly the definitions that can stand there: those of the operand's index space in the same module (functions for call, start, exports and elem segments, types for type uses, globals, tables, memories), the parameters and locals of the enclosing function, or the labels of the enclosing blocks, innermost first, each by name or else by index, with its type or signature. After `$` only named ones are offered and the inserted text does not repeat the `$`. Names that are being defined are offered nothing. While a value type or a WebAssembly 1.0 instruction is typed, all value types or that instruction are offered; where a constant expression (of a global, offset or item) starts, instructions are offered before anything is typed.",
  ["inputs", "programs"], "every well-formed document, every token and every prefix of it",
  "Tests sample one cursor per context; the offered set and indices depend on the other definitions, scoping and nesting.",
  ["crates/service/src/features/completion.rs"],
  [("get_cmp_ctx, get_cmp_list, get_idx_cmp_text", "features/completion.rs")], TRUST,
  technique="exhaustive enumeration of documents x tokens x typed prefixes on the real service; the offered items compared with a reference binder", observe=["textDocument/completion"])
prop("C14", "Semantic tokens classify exactly the tokens of the document",
  "For every well-formed document, the semantic tokens decode to tokens in strictly increasing order that do not overlap and lie on tokens of the source with their exact UTF-16 position and length; every keyword, instruction name, value type, identifier, number, string and comment is classified by its role (the identifier of a definition and the operand of a call or local instruction as function, parameter or variable by what it denotes) as far as the client supports the token type. A range request yields the tokens within the range, equal to those of the full request.",
  ["inputs", "programs"], "every well-formed document, layout, client token legend and range",
  "Tests snapshot the encoded stream of a few documents; one wrong delta shifts every later token.",
  ["crates/service/src/features/semantic_tokens.rs"],
  [("semantic_tokens_full, semantic_tokens_range, delta encoding", "features/semantic_tokens.rs")], TRUST,
  technique="exhaustive enumeration of documents x layouts x legends x ranges on the real service; the decoded stream compared with a reference classification", observe=["textDocument/semanticTokens/full", "textDocument/semanticTokens/range"])
prop("C15", "Document symbols, folding and selection ranges mirror the document structure",
  "For every well-formed document, document symbols list each module, function, type, global, memory and table and each parameter and local once, in source order, nested as in the source, with its name or index and ranges that contain each other. Folding ranges cover every form and block that spans several lines and nothing else. Selection ranges answer every position with the chain of enclosing forms, each range inside its parent.",
  ["inputs", "programs"], "every well-formed document, layout and position",
  "Tests snapshot a few outlines; nesting and order depend on the combination of forms and line breaks.",
  ["crates/service/src/features/document_symbol.rs", "crates/service/src/features/folding_range.rs", "crates/service/src/features/selection_range.rs"],
  [("document_symbol, folding_range, selection_range", "features/*.rs")], TRUST,
  technique="exhaustive enumeration of documents x layouts x positions on the real service; compared with the reference parse tree", observe=["textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/selectionRange"])
prop("C16", "Call hierarchy lists exactly the direct callers and callees of a function",
  "For every well-formed document and function, preparing a call hierarchy on the function's definition or a call names that function; incoming calls are exactly the functions of the same module containing a direct `call` of it, with the ranges of those calls, and outgoing calls exactly the functions it calls, with the ranges of those calls. The two directions are inverse to each other.",
  ["inputs", "programs"], "every well-formed document, every function and cursor position",
  "Tests sample one or two call graphs; wrong edges appear for particular orders, imports, recursion and nesting.",
  ["crates/service/src/features/call_hierarchy.rs"],
  [("prepare_call_hierarchy, call_hierarchy_incoming_calls, call_hierarchy_outgoing_calls", "features/call_hierarchy.rs")], TRUST,
  technique="exhaustive enumeration of call graphs x call forms x positions on the real service; compared with the reference call graph", observe=["textDocument/prepareCallHierarchy", "callHierarchy/incomingCalls", "callHierarchy/outgoingCalls"])
prop("C17", "Code actions preserve the meaning of the document",
  "Applying any offered split or join of params, results or locals to a well-formed document yields a well-formed document with the same signature and locals in the same order, the same other tokens and all comments, in which exactly the named form was split into one form per type (or the covered unnamed params were joined into one). Splitting is offered strictly inside every unnamed form with several types, joining for every range that is exactly a run of several unnamed params with several types. Fixing a memory argument removes only the white space around its `=`, and yields exactly the argument as meant. Restricting the request to kinds yields exactly the actions of those kinds.",
  ["inputs", "programs"], "every well-formed document (or memory argument with stray white space) and every range",
  "Tests snapshot one edit each; the edit depends on neighbours, names, comments and the range.",
  ["crates/service/src/features/code_action.rs", "crates/service/src/refactorings"],
  [("code_action", "features/code_action.rs"), ("act", "refactorings/func_header_split.rs, params_join.rs, fix_invalid_mem_arg.rs")], TRUST,
  technique="exhaustive enumeration of headers x comments x all ranges on the real service; every offered edit is applied and the result compared with a reference rewriting", observe=["textDocument/codeAction"])
prop("C18", "Inlay hints show the right types and names at the right places",
  "For every well-formed document and range, inlay hints within the range show: after the operand of `local.get`/`local.set`/`local.tee` and `global.get`/`global.set` the type of the variable it denotes; after the closing parenthesis of a named function `(func $name)`. Hints appear nowhere else (only an exported global may show its type) and are the same whatever range contains them.",
  ["inputs", "programs"], "every well-formed document and range",
  "Tests sample a few hints; the shown type depends on which definition the use denotes.",
  ["crates/service/src/features/inlay_hint.rs", "crates/service/src/types_analyzer.rs"],
  [("inlay_hint", "features/inlay_hint.rs"), ("extract_type, extract_global_type", "types_analyzer.rs")], TRUST,
  technique="exhaustive enumeration of modules x layouts x ranges on the real service; hints compared with a reference binder", observe=["textDocument/inlayHint"])

prop("C19", "Answers depend only on the current text of the document",
  "For every history of commits to one or several documents, with any requests asked in between, every request on a document is answered exactly as a fresh service that was given only the current text of that document would answer: nothing is left over from earlier texts (even if they have the same length and structure), from requests asked before, or from other documents, and asking again, in any order, gives the same answer.",
  ["histories"], "every history of edits of several documents and requests between them",
  "Tests commit one text to a fresh service; stale memoized queries need a particular earlier text and an earlier request.",
  ["crates/service/src/lib.rs", "crates/service/src/files.rs", "crates/service/src/binder.rs", "crates/service/src/types_analyzer.rs", "crates/service/src/idx.rs"],
  [("commit, salsa query groups", "lib.rs, files.rs, binder.rs, types_analyzer.rs, idx.rs"), ("SymbolItem equality and hashing", "binder.rs, types_analyzer.rs")], TRUST,
  technique="explicit-state exploration: all histories of commits and requests up to a depth over pools of texts that differ in place, on the real service; every answer compared with a fresh instance", observe=["LanguageService::commit and every request"])
prop("C20", "Positions count UTF-16 code units in every feature",
  "In every request and answer of every feature, positions are lines and UTF-16 code units, as the protocol demands: replacing characters in comments and strings by others of the same UTF-16 length (1 unit, or surrogate pairs), on the same or other lines, changes no position in any answer to any request, nor anything else but the replaced characters.",
  ["inputs"], "every document, every placement of characters outside ASCII, every request and position",
  "Tests are ASCII; byte, char and UTF-16 columns only differ behind wide characters on the same line.",
  ["crates/service/src/helpers.rs", "crates/service/src/features"],
  [("rowan_pos_to_lsp_pos, lsp_pos_to_rowan_pos, ranges", "helpers.rs"), ("delta encoding", "features/semantic_tokens.rs")], TRUST,
  technique="exhaustive enumeration of documents x gaps x characters of different widths on the real service; every answer compared with that for ASCII characters of the same UTF-16 width", observe=["every request"])
prop("C21", "The server answers each request once, from the current texts",
  "Over standard input and output, for every sequence of messages of a client: every request gets exactly one response, with its id and the answer for the latest text of its document (after several changes in one notification, the last of them), or an error (unknown method -32601, unsuitable parameters -32602, a document that was never opened, an invalid new name); diagnostics of the current text are pushed after opening and changing to clients that do not pull them and only to them, and cleared after closing; unknown or malformed notifications and responses are ignored; initialize advertises all that the server answers and nothing it does not know; after shutdown and exit the process ends with code 0; started with -v, -V or --version the program prints its version instead of serving, and any other arguments change nothing.",
  ["inputs", "histories"], "every sequence of well-framed messages between initialize and shutdown, every kind of client",
  "There are no tests of the server; a lost, doubled or stale answer needs a sequence of messages.",
  ["crates/server/src/server.rs", "crates/service/src/lib.rs"],
  [("dispatch and document sync", "crates/server/src/server.rs"), ("initialize, commit", "crates/service/src/lib.rs")], TRUST,
  technique="exhaustive enumeration of message sequences (up to 3, thorough 4), methods x document states x clients and pairs of methods, each run on a fresh real server process and compared with a model of the protocol state", observe=["every message of the server, exit code"])
prop("C22", "No request fails on any document, position or range",
  "For every text, however malformed, and every request at every position or range, also beyond the end of a line or of the document, and inverted ones, and with call hierarchy items made from an earlier text, the service answers without crashing, and every position in an answer to a request within the document is a position of the document.",
  ["inputs"], "every text, request and position",
  "Tests use a few documents; crashes hide in unusual token sequences, truncated texts and positions.",
  ["crates/service/src/features", "crates/service/src/helpers.rs", "crates/service/src/binder.rs", "crates/service/src/checker"],
  [("all request handlers", "features/*.rs"), ("conversions", "helpers.rs")], TRUST,
  technique="exhaustive enumeration of token deletions, insertions, truncations and token sequences x all requests x positions on the real service", observe=["every request"])
prop("C23", "The typed syntax tree gives access to exactly the parts of every form",
  "For every well-formed document and every node of its tree, casting yields a typed form exactly for the node's kind, and every accessor of the form returns exactly the part it is named after: its own parentheses and keyword, its own identifier (that of `end` separately), its own limits, types, operands, instructions and clauses, all of them and in source order for plural accessors, none of a neighbouring or nested form, wherever whitespace and comments stand; an absent part gives none.",
  ["inputs"], "every well-formed document, every node of its tree, every accessor",
  "There are no tests of the accessors; a wrong one shows only on forms in which the optional part is absent, doubled or surrounded by comments.",
  ["crates/syntax/src/ast/module.rs", "crates/syntax/src/ast/instr.rs", "crates/syntax/src/ast/ty.rs", "crates/syntax/src/ast/mod.rs", "crates/syntax/src/kind.rs", "crates/syntax/src/lib.rs"],
  [("typed forms and enums", "ast/*.rs"), ("kind conversion, trivia and punctuation tests", "kind.rs, lib.rs")], TRUST,
  technique="exhaustive enumeration of productions with trivia in every gap, pairs, token edits, block structures and growing lists; every accessor of every node of the real typed tree compared with a table of what it has to return", observe=["can_cast", "cast", "every accessor"])
prop("C24", "Formatter options are read, defaulted and applied as documented",
  "Reading a configuration with any subset of the documented options, in snake_case or camelCase, sets exactly those, leaves the documented defaults for the others, refuses values of a wrong type, and survives writing and reading. Indent width, tabs and line break change only indentation and line breaks of the output; a print width in which the widest layout fits changes nothing; comment formatting only adds missing blanks inside comment delimiters. Exactly the forms behind a line comment that starts with the configured ignore directive as whole words are left alone. The language service formats documents and ranges with the editor's tab size and tab/space choice, as an edit that replaces exactly the document or the affected range by the formatter's result.",
  ["inputs", "configurations"], "every subset of options under every spelling, every well-formed document, every editor setting and range",
  "Tests use a handful of option files; the options are never combined, and formatting through the service is never compared with the formatter.",
  ["crates/formatter/src/config.rs", "crates/formatter/src/lib.rs", "crates/formatter/src/printer/mod.rs", "crates/service/src/features/formatting.rs"],
  [("configuration", "config.rs"), ("print options", "formatter/src/lib.rs"), ("comments", "printer/mod.rs"), ("editor options", "features/formatting.rs")], TRUST,
  technique="exhaustive enumeration of option subsets x spellings x values, of documents x option sets x widths, and of editor settings x ranges, on the real formatter and service, each related to one reference layout", observe=["FormatOptions", "format", "formatting and rangeFormatting edits"])

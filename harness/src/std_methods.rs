//! Every client-to-server method of the protocol except initialize, shutdown and exit, and a way to
//! carry a call number in the params of each.

use std::sync::OnceLock;

use serde_json::{json, Value};

/// Hands the list of methods to a macro.
#[macro_export]
macro_rules! with_methods {
    ($cb:ident) => {
        $cb! {
            requests {
                "textDocument/willSaveWaitUntil" will_save_wait_until(WillSaveTextDocumentParams) -> Option<Vec<TextEdit>>;
                "textDocument/declaration" goto_declaration(GotoDeclarationParams) -> Option<GotoDeclarationResponse>;
                "textDocument/definition" goto_definition(GotoDefinitionParams) -> Option<GotoDefinitionResponse>;
                "textDocument/typeDefinition" goto_type_definition(GotoTypeDefinitionParams) -> Option<GotoTypeDefinitionResponse>;
                "textDocument/implementation" goto_implementation(GotoImplementationParams) -> Option<GotoImplementationResponse>;
                "textDocument/references" references(ReferenceParams) -> Option<Vec<Location>>;
                "textDocument/prepareCallHierarchy" prepare_call_hierarchy(CallHierarchyPrepareParams) -> Option<Vec<CallHierarchyItem>>;
                "callHierarchy/incomingCalls" incoming_calls(CallHierarchyIncomingCallsParams) -> Option<Vec<CallHierarchyIncomingCall>>;
                "callHierarchy/outgoingCalls" outgoing_calls(CallHierarchyOutgoingCallsParams) -> Option<Vec<CallHierarchyOutgoingCall>>;
                "textDocument/prepareTypeHierarchy" prepare_type_hierarchy(TypeHierarchyPrepareParams) -> Option<Vec<TypeHierarchyItem>>;
                "typeHierarchy/supertypes" supertypes(TypeHierarchySupertypesParams) -> Option<Vec<TypeHierarchyItem>>;
                "typeHierarchy/subtypes" subtypes(TypeHierarchySubtypesParams) -> Option<Vec<TypeHierarchyItem>>;
                "textDocument/documentHighlight" document_highlight(DocumentHighlightParams) -> Option<Vec<DocumentHighlight>>;
                "textDocument/documentLink" document_link(DocumentLinkParams) -> Option<Vec<DocumentLink>>;
                "documentLink/resolve" document_link_resolve(DocumentLink) -> DocumentLink;
                "textDocument/hover" hover(HoverParams) -> Option<Hover>;
                "textDocument/codeLens" code_lens(CodeLensParams) -> Option<Vec<CodeLens>>;
                "codeLens/resolve" code_lens_resolve(CodeLens) -> CodeLens;
                "textDocument/foldingRange" folding_range(FoldingRangeParams) -> Option<Vec<FoldingRange>>;
                "textDocument/selectionRange" selection_range(SelectionRangeParams) -> Option<Vec<SelectionRange>>;
                "textDocument/documentSymbol" document_symbol(DocumentSymbolParams) -> Option<DocumentSymbolResponse>;
                "textDocument/semanticTokens/full" semantic_tokens_full(SemanticTokensParams) -> Option<SemanticTokensResult>;
                "textDocument/semanticTokens/full/delta" semantic_tokens_full_delta(SemanticTokensDeltaParams) -> Option<SemanticTokensFullDeltaResult>;
                "textDocument/semanticTokens/range" semantic_tokens_range(SemanticTokensRangeParams) -> Option<SemanticTokensRangeResult>;
                "textDocument/inlineValue" inline_value(InlineValueParams) -> Option<Vec<InlineValue>>;
                "textDocument/inlayHint" inlay_hint(InlayHintParams) -> Option<Vec<InlayHint>>;
                "inlayHint/resolve" inlay_hint_resolve(InlayHint) -> InlayHint;
                "textDocument/moniker" moniker(MonikerParams) -> Option<Vec<Moniker>>;
                "textDocument/completion" completion(CompletionParams) -> Option<CompletionResponse>;
                "completionItem/resolve" completion_resolve(CompletionItem) -> CompletionItem;
                "textDocument/diagnostic" diagnostic(DocumentDiagnosticParams) -> DocumentDiagnosticReportResult;
                "workspace/diagnostic" workspace_diagnostic(WorkspaceDiagnosticParams) -> WorkspaceDiagnosticReportResult;
                "textDocument/signatureHelp" signature_help(SignatureHelpParams) -> Option<SignatureHelp>;
                "textDocument/codeAction" code_action(CodeActionParams) -> Option<CodeActionResponse>;
                "codeAction/resolve" code_action_resolve(CodeAction) -> CodeAction;
                "textDocument/documentColor" document_color(DocumentColorParams) -> Vec<ColorInformation>;
                "textDocument/colorPresentation" color_presentation(ColorPresentationParams) -> Vec<ColorPresentation>;
                "textDocument/formatting" formatting(DocumentFormattingParams) -> Option<Vec<TextEdit>>;
                "textDocument/rangeFormatting" range_formatting(DocumentRangeFormattingParams) -> Option<Vec<TextEdit>>;
                "textDocument/onTypeFormatting" on_type_formatting(DocumentOnTypeFormattingParams) -> Option<Vec<TextEdit>>;
                "textDocument/rename" rename(RenameParams) -> Option<WorkspaceEdit>;
                "textDocument/prepareRename" prepare_rename(TextDocumentPositionParams) -> Option<PrepareRenameResponse>;
                "textDocument/linkedEditingRange" linked_editing_range(LinkedEditingRangeParams) -> Option<LinkedEditingRanges>;
                "workspace/symbol" symbol(WorkspaceSymbolParams) -> Option<Vec<SymbolInformation>>;
                "workspaceSymbol/resolve" symbol_resolve(WorkspaceSymbol) -> WorkspaceSymbol;
                "workspace/willCreateFiles" will_create_files(CreateFilesParams) -> Option<WorkspaceEdit>;
                "workspace/willRenameFiles" will_rename_files(RenameFilesParams) -> Option<WorkspaceEdit>;
                "workspace/willDeleteFiles" will_delete_files(DeleteFilesParams) -> Option<WorkspaceEdit>;
                "workspace/executeCommand" execute_command(ExecuteCommandParams) -> Option<Value>;
            }
            notifications {
                "initialized" initialized(InitializedParams);
                "textDocument/didOpen" did_open(DidOpenTextDocumentParams);
                "textDocument/didChange" did_change(DidChangeTextDocumentParams);
                "textDocument/willSave" will_save(WillSaveTextDocumentParams);
                "textDocument/didSave" did_save(DidSaveTextDocumentParams);
                "textDocument/didClose" did_close(DidCloseTextDocumentParams);
                "workspace/didChangeConfiguration" did_change_configuration(DidChangeConfigurationParams);
                "workspace/didChangeWorkspaceFolders" did_change_workspace_folders(DidChangeWorkspaceFoldersParams);
                "workspace/didCreateFiles" did_create_files(CreateFilesParams);
                "workspace/didRenameFiles" did_rename_files(RenameFilesParams);
                "workspace/didDeleteFiles" did_delete_files(DeleteFilesParams);
                "workspace/didChangeWatchedFiles" did_change_watched_files(DidChangeWatchedFilesParams);
            }
        }
    };
}

/// A method, with params carrying a call number.
pub struct Std {
    pub name: &'static str,
    pub handler: &'static str,
    pub request: bool,
    /// What a handler returns that is told to succeed.
    pub result: Value,
}

fn result_of(name: &str) -> Value {
    match name {
        "documentLink/resolve" => json!({"range": range()}),
        "codeLens/resolve" => json!({"range": range()}),
        "inlayHint/resolve" => json!({"position": pos(), "label": "r"}),
        "completionItem/resolve" => json!({"label": "r"}),
        "codeAction/resolve" => json!({"title": "r"}),
        "workspaceSymbol/resolve" => {
            json!({"name": "r", "kind": 1, "location": {"uri": "file:///r", "range": range()}})
        }
        "textDocument/diagnostic" => json!({"kind": "full", "items": []}),
        "workspace/diagnostic" => json!({"items": []}),
        "textDocument/documentColor" | "textDocument/colorPresentation" => json!([]),
        _ => Value::Null,
    }
}

fn pos() -> Value {
    json!({"line": 0, "character": 0})
}
fn range() -> Value {
    json!({"start": pos(), "end": pos()})
}

fn marker(call: usize) -> String {
    format!("call-{call}-")
}

/// Params of the method from which `call_of` recovers the call number.
pub fn params(name: &str, call: usize) -> Value {
    let m = marker(call);
    let uri = format!("file:///{m}");
    let doc = json!({ "uri": uri });
    let item = json!({"name": m, "kind": 1, "uri": "file:///a", "range": range(), "selectionRange": range()});
    match name {
        "initialized" => json!({}),
        "textDocument/didOpen" => {
            json!({"textDocument": {"uri": uri, "languageId": "x", "version": 1, "text": ""}})
        }
        "textDocument/didChange" => {
            json!({"textDocument": {"uri": uri, "version": 1}, "contentChanges": []})
        }
        "textDocument/willSave" | "textDocument/willSaveWaitUntil" => {
            json!({"textDocument": doc, "reason": 1})
        }
        "textDocument/references" => {
            json!({"textDocument": doc, "position": pos(), "context": {"includeDeclaration": true}})
        }
        "textDocument/rename" => json!({"textDocument": doc, "position": pos(), "newName": "x"}),
        "callHierarchy/incomingCalls" | "callHierarchy/outgoingCalls" | "typeHierarchy/supertypes"
        | "typeHierarchy/subtypes" => json!({ "item": item }),
        "documentLink/resolve" => json!({"range": range(), "tooltip": m}),
        "codeLens/resolve" => json!({"range": range(), "data": m}),
        "inlayHint/resolve" => json!({"position": pos(), "label": m}),
        "completionItem/resolve" => json!({ "label": m }),
        "codeAction/resolve" => json!({ "title": m }),
        "workspaceSymbol/resolve" => {
            json!({"name": m, "kind": 1, "location": {"uri": "file:///r", "range": range()}})
        }
        "textDocument/selectionRange" => json!({"textDocument": doc, "positions": []}),
        "textDocument/semanticTokens/full/delta" => json!({"textDocument": doc, "previousResultId": "x"}),
        "textDocument/semanticTokens/range" | "textDocument/inlayHint" => {
            json!({"textDocument": doc, "range": range()})
        }
        "textDocument/inlineValue" => {
            json!({"textDocument": doc, "range": range(), "context": {"frameId": 1, "stoppedLocation": range()}})
        }
        "workspace/diagnostic" => json!({"identifier": m, "previousResultIds": []}),
        "textDocument/codeAction" => {
            json!({"textDocument": doc, "range": range(), "context": {"diagnostics": []}})
        }
        "textDocument/colorPresentation" => json!({
            "textDocument": doc, "range": range(),
            "color": {"red": 0.0, "green": 0.0, "blue": 0.0, "alpha": 0.0}
        }),
        "textDocument/formatting" => {
            json!({"textDocument": doc, "options": {"tabSize": 4, "insertSpaces": true}})
        }
        "textDocument/rangeFormatting" => json!({
            "textDocument": doc, "range": range(), "options": {"tabSize": 4, "insertSpaces": true}
        }),
        "textDocument/onTypeFormatting" => json!({
            "textDocument": doc, "position": pos(), "ch": "x",
            "options": {"tabSize": 4, "insertSpaces": true}
        }),
        "workspace/symbol" => json!({ "query": m }),
        "workspace/willCreateFiles" | "workspace/didCreateFiles" | "workspace/willDeleteFiles"
        | "workspace/didDeleteFiles" => json!({"files": [{ "uri": uri }]}),
        "workspace/willRenameFiles" | "workspace/didRenameFiles" => {
            json!({"files": [{"oldUri": uri, "newUri": "file:///b"}]})
        }
        "workspace/executeCommand" => json!({ "command": m }),
        "workspace/didChangeConfiguration" => json!({ "settings": m }),
        "workspace/didChangeWorkspaceFolders" => {
            json!({"event": {"added": [{"uri": uri, "name": "x"}], "removed": []}})
        }
        "workspace/didChangeWatchedFiles" => json!({"changes": [{"uri": uri, "type": 1}]}),
        // A document, and mostly a position in it.
        _ => json!({"textDocument": doc, "position": pos()}),
    }
}

/// The call number carried by the params.
pub fn call_of(params: &Value) -> Option<usize> {
    match params {
        Value::String(s) => {
            let (_, s) = s.split_once("call-")?;
            s.split_once('-')?.0.parse().ok()
        }
        Value::Array(a) => a.iter().find_map(call_of),
        Value::Object(o) => o.values().find_map(call_of),
        _ => None,
    }
}

macro_rules! table {
    (
        requests { $($qn:literal $qf:ident($qp:ty) -> $qr:ty;)* }
        notifications { $($nn:literal $nf:ident($np:ty);)* }
    ) => {
        vec![
            $(Std { name: $qn, handler: stringify!($qf), request: true, result: result_of($qn) },)*
            $(Std { name: $nn, handler: stringify!($nf), request: false, result: Value::Null },)*
        ]
    };
}

pub fn all() -> &'static [Std] {
    static T: OnceLock<Vec<Std>> = OnceLock::new();
    T.get_or_init(|| with_methods!(table))
}

/// The `n`th request or notification.
pub fn nth(request: bool, n: usize) -> &'static Std {
    let k = all().iter().filter(|s| s.request == request).count();
    all().iter().filter(|s| s.request == request).nth(n % k).unwrap()
}

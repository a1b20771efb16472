//! JSON generators for the types of the Language Server Protocol, written from the specification.

use proptest::prelude::*;
use serde_json::{json, Map, Value};

use crate::gen::{arb_json, arb_small, arb_string};

pub type G = BoxedStrategy<Value>;

/// An object with required members `req` and optional members `opt`.
pub fn obj<const A: usize, const B: usize>(
    req: [(&'static str, G); A],
    opt: [(&'static str, G); B],
) -> G {
    let mut keys = Vec::new();
    let mut gens: Vec<BoxedStrategy<Option<Value>>> = Vec::new();
    for (k, g) in req {
        keys.push(k);
        gens.push(g.prop_map(Some).boxed());
    }
    for (k, g) in opt {
        keys.push(k);
        gens.push(prop::option::weighted(0.4, g).boxed());
    }
    gens.prop_map(move |vs| {
        let mut m = Map::new();
        for (k, v) in keys.iter().zip(vs) {
            if let Some(v) = v {
                m.insert(k.to_string(), v);
            }
        }
        Value::Object(m)
    })
    .boxed()
}

/// The union of two objects.
pub fn merge(a: G, b: G) -> G {
    (a, b)
        .prop_map(|(mut a, b)| {
            a.as_object_mut().unwrap().extend(b.as_object().unwrap().clone());
            a
        })
        .boxed()
}
pub fn one(v: Vec<G>) -> G {
    proptest::strategy::Union::new(v).boxed()
}
pub fn arr(g: G) -> G {
    prop::collection::vec(g, 0..3).prop_map(Value::Array).boxed()
}
pub fn or_null(g: G) -> G {
    prop_oneof![1 => Just(Value::Null), 5 => g].boxed()
}
pub fn pick(v: &[&'static str]) -> G {
    proptest::sample::select(v.to_vec()).prop_map(Value::from).boxed()
}
pub fn string() -> G {
    arb_string().prop_map(Value::from).boxed()
}
pub fn word() -> G {
    "[a-zA-Zé]{1,8}".prop_map(Value::from).boxed()
}
pub fn boolean() -> G {
    any::<bool>().prop_map(Value::from).boxed()
}
pub fn uint() -> G {
    prop_oneof![5 => 0u32..50, 1 => Just(u32::MAX), 1 => any::<u32>()].prop_map(Value::from).boxed()
}
pub fn int(lo: i32, hi: i32) -> G {
    (lo..=hi).prop_map(Value::from).boxed()
}
pub fn any_json() -> G {
    arb_json().prop_filter("null is like absent", |v| !v.is_null()).boxed()
}
pub fn small_json() -> G {
    arb_small().prop_filter("null is like absent", |v| !v.is_null()).boxed()
}
pub fn num_or_str() -> G {
    prop_oneof![any::<i32>().prop_map(Value::from), string()].boxed()
}
pub fn uri() -> G {
    prop_oneof![
        4 => "[a-z]{1,6}(/[a-zA-Z0-9_-][a-zA-Z0-9_.-]{0,7}){0,2}".prop_map(|p| Value::from(format!("file:///{p}"))),
        1 => "[a-z]{1,6}".prop_map(|p| Value::from(format!("untitled:{p}"))),
        1 => Just(json!("file:///c%3A/%C3%A9%20x.rs")),
        1 => Just(json!("http://example.com/a?b=c#d")),
    ]
    .boxed()
}
fn map_of(key: BoxedStrategy<String>, g: G) -> G {
    prop::collection::vec((key, g), 0..3)
        .prop_map(|kv| Value::Object(kv.into_iter().collect()))
        .boxed()
}
fn uri_map(g: G) -> G {
    map_of(uri().prop_map(|u| u.as_str().unwrap().to_string()).boxed(), g)
}

pub fn pos() -> G {
    obj([("line", uint()), ("character", uint())], [])
}
pub fn range() -> G {
    obj([("start", pos()), ("end", pos())], [])
}
pub fn loc() -> G {
    obj([("uri", uri()), ("range", range())], [])
}
pub fn loc_link() -> G {
    obj(
        [("targetUri", uri()), ("targetRange", range()), ("targetSelectionRange", range())],
        [("originSelectionRange", range())],
    )
}
pub fn doc() -> G {
    obj([("uri", uri())], [])
}
fn versioned_doc() -> G {
    obj([("uri", uri()), ("version", int(-3, 1000))], [])
}
fn opt_versioned_doc() -> G {
    obj([("uri", uri()), ("version", or_null(int(-3, 1000)))], [])
}
pub fn text_edit() -> G {
    obj([("range", range()), ("newText", string())], [])
}
fn annotated_edit() -> G {
    obj([("range", range()), ("newText", string()), ("annotationId", word())], [])
}
pub fn markup() -> G {
    obj([("kind", pick(&["plaintext", "markdown"])), ("value", string())], [])
}
fn documentation() -> G {
    one(vec![string(), markup()])
}
pub fn command() -> G {
    obj([("title", string()), ("command", word())], [("arguments", arr(arb_small()))])
}
pub fn work_done() -> G {
    obj([], [("workDoneToken", num_or_str())])
}
fn partial() -> G {
    obj([], [("workDoneToken", num_or_str()), ("partialResultToken", num_or_str())])
}
pub fn doc_pos() -> G {
    obj([("textDocument", doc()), ("position", pos())], [])
}
fn doc_pos_partial() -> G {
    merge(doc_pos(), partial())
}
fn doc_pos_work() -> G {
    merge(doc_pos(), work_done())
}
fn doc_partial() -> G {
    merge(obj([("textDocument", doc())], []), partial())
}
pub fn diagnostic() -> G {
    obj(
        [("range", range()), ("message", string())],
        [
            ("severity", int(1, 4)),
            ("code", num_or_str()),
            ("codeDescription", obj([("href", uri())], [])),
            ("source", string()),
            ("relatedInformation", arr(obj([("location", loc()), ("message", string())], []))),
            ("tags", arr(int(1, 2))),
            ("data", small_json()),
        ],
    )
}
fn symbol_kind() -> G {
    int(1, 26)
}
fn symbol_tags() -> G {
    arr(int(1, 1))
}
pub fn symbol_information() -> G {
    obj(
        [("name", string()), ("kind", symbol_kind()), ("location", loc())],
        [("tags", symbol_tags()), ("deprecated", boolean()), ("containerName", string())],
    )
}
fn document_symbol() -> G {
    let fields = |children: Option<G>| {
        let base = obj(
            [
                ("name", string()),
                ("kind", symbol_kind()),
                ("range", range()),
                ("selectionRange", range()),
            ],
            [("detail", string()), ("tags", symbol_tags()), ("deprecated", boolean())],
        );
        match children {
            Some(c) => merge(base, obj([], [("children", arr(c))])),
            None => base,
        }
    };
    fields(Some(fields(Some(fields(None)))))
}
fn doc_edit() -> G {
    obj(
        [
            ("textDocument", opt_versioned_doc()),
            ("edits", arr(one(vec![text_edit(), annotated_edit()]))),
        ],
        [],
    )
}
fn tagged(kind: &'static str, g: G) -> G {
    merge(obj([("kind", Just(json!(kind)).boxed())], []), g)
}
fn resource_op() -> G {
    let over = || obj([], [("overwrite", boolean()), ("ignoreIfExists", boolean())]);
    one(vec![
        tagged("create", obj([("uri", uri())], [("options", over()), ("annotationId", word())])),
        tagged(
            "rename",
            obj(
                [("oldUri", uri()), ("newUri", uri())],
                [("options", over()), ("annotationId", word())],
            ),
        ),
        tagged(
            "delete",
            obj(
                [("uri", uri())],
                [(
                    "options",
                    obj(
                        [],
                        [
                            ("recursive", boolean()),
                            ("ignoreIfNotExists", boolean()),
                        ],
                    ),
                )],
            ),
        ),
    ])
}
pub fn workspace_edit() -> G {
    obj(
        [],
        [
            ("changes", uri_map(arr(text_edit()))),
            (
                "documentChanges",
                one(vec![arr(doc_edit()), arr(one(vec![doc_edit(), resource_op()]))]),
            ),
            (
                "changeAnnotations",
                map_of(
                    "[a-z]{1,4}".boxed(),
                    obj(
                        [("label", string())],
                        [("needsConfirmation", boolean()), ("description", string())],
                    ),
                ),
            ),
        ],
    )
}
fn goto_response() -> G {
    or_null(one(vec![loc(), arr(loc()), arr(loc_link())]))
}
fn hierarchy_item() -> G {
    item(symbol_tags())
}
/// `lsp_types` has a single tag here.
fn type_item() -> G {
    item(int(1, 1))
}
fn item(tags: G) -> G {
    obj(
        [
            ("name", string()),
            ("kind", symbol_kind()),
            ("uri", uri()),
            ("range", range()),
            ("selectionRange", range()),
        ],
        [("detail", string()), ("tags", tags), ("data", small_json())],
    )
}
pub fn doc_link() -> G {
    obj([("range", range())], [("target", uri()), ("tooltip", string()), ("data", small_json())])
}
pub fn code_lens() -> G {
    obj([("range", range())], [("command", command()), ("data", small_json())])
}
fn semantic_data() -> G {
    prop::collection::vec(uint(), 0..3)
        .prop_map(|v| Value::Array(v.into_iter().flat_map(|x| vec![x; 5]).collect()))
        .boxed()
}
fn semantic_tokens() -> G {
    obj([("data", semantic_data())], [("resultId", string())])
}
fn hover() -> G {
    let marked = || one(vec![string(), obj([("language", word()), ("value", string())], [])]);
    obj([("contents", one(vec![marked(), arr(marked()), markup()]))], [("range", range())])
}
fn inlay_hint() -> G {
    let part = obj(
        [("value", string())],
        [("tooltip", documentation()), ("location", loc()), ("command", command())],
    );
    obj(
        [("position", pos()), ("label", one(vec![string(), arr(part)]))],
        [
            ("kind", int(1, 2)),
            ("textEdits", arr(text_edit())),
            ("tooltip", documentation()),
            ("paddingLeft", boolean()),
            ("paddingRight", boolean()),
            ("data", small_json()),
        ],
    )
}
fn completion_item() -> G {
    merge(
        obj(
            [("label", string())],
            [
                ("labelDetails", obj([], [("detail", string()), ("description", string())])),
                ("kind", int(1, 25)),
                ("detail", string()),
                ("documentation", documentation()),
                ("deprecated", boolean()),
                ("preselect", boolean()),
                ("sortText", string()),
                ("filterText", string()),
                ("tags", arr(int(1, 1))),
            ],
        ),
        obj(
            [],
            [
                ("insertText", string()),
                ("insertTextFormat", int(1, 2)),
                ("insertTextMode", int(1, 2)),
                (
                    "textEdit",
                    one(vec![
                        text_edit(),
                        obj([("newText", string()), ("insert", range()), ("replace", range())], []),
                    ]),
                ),
                ("additionalTextEdits", arr(text_edit())),
                ("command", command()),
                ("commitCharacters", arr(word())),
                ("data", small_json()),
            ],
        ),
    )
}
fn signature_help() -> G {
    let label = one(vec![string(), (uint(), uint()).prop_map(|(a, b)| json!([a, b])).boxed()]);
    let param = obj([("label", label)], [("documentation", documentation())]);
    let sig = obj(
        [("label", string())],
        [("documentation", documentation()), ("parameters", arr(param)), ("activeParameter", uint())],
    );
    obj([("signatures", arr(sig))], [("activeSignature", uint()), ("activeParameter", uint())])
}
fn action_kind() -> G {
    pick(&["quickfix", "refactor", "refactor.extract", "source.organizeImports", "", "x.y"])
}
fn code_action() -> G {
    obj(
        [("title", string())],
        [
            ("kind", action_kind()),
            ("diagnostics", arr(diagnostic())),
            ("edit", workspace_edit()),
            ("command", command()),
            ("isPreferred", boolean()),
            ("disabled", obj([("reason", string())], [])),
            ("data", small_json()),
        ],
    )
}
fn color() -> G {
    let f = || (0..=16u8).prop_map(|n| json!(n as f64 / 16.0)).boxed();
    obj([("red", f()), ("green", f()), ("blue", f()), ("alpha", f())], [])
}
fn formatting_options() -> G {
    (
        obj(
            [("tabSize", uint()), ("insertSpaces", boolean())],
            [
                ("trimTrailingWhitespace", boolean()),
                ("insertFinalNewline", boolean()),
                ("trimFinalNewlines", boolean()),
            ],
        ),
        prop::option::of((
            "x[a-z]{1,3}",
            one(vec![boolean(), int(-5, 5), string()]),
        )),
    )
        .prop_map(|(mut o, extra)| {
            if let Some((k, v)) = extra {
                o[k] = v;
            }
            o
        })
        .boxed()
}
fn full_report() -> G {
    tagged("full", obj([("items", arr(diagnostic()))], [("resultId", string())]))
}
fn unchanged_report() -> G {
    tagged("unchanged", obj([("resultId", string())], []))
}
fn file_ops(keys: &'static [&'static str]) -> G {
    let f = match keys {
        ["uri"] => obj([("uri", string())], []),
        _ => obj([("oldUri", string()), ("newUri", string())], []),
    };
    obj([("files", arr(f))], [])
}
pub fn workspace_folder() -> G {
    obj([("uri", uri()), ("name", string())], [])
}
fn workspace_symbol() -> G {
    obj(
        [
            ("name", string()),
            ("kind", symbol_kind()),
            ("location", one(vec![loc(), obj([("uri", uri())], [])])),
        ],
        [("tags", symbol_tags()), ("containerName", string()), ("data", small_json())],
    )
}
pub fn initialize_params() -> G {
    let caps = obj(
        [],
        [
            (
                "workspace",
                obj(
                    [],
                    [
                        ("applyEdit", boolean()),
                        ("configuration", boolean()),
                        ("workspaceFolders", boolean()),
                        ("executeCommand", obj([], [("dynamicRegistration", boolean())])),
                    ],
                ),
            ),
            (
                "textDocument",
                obj(
                    [],
                    [
                        ("hover", obj([], [("contentFormat", arr(pick(&["plaintext", "markdown"])))])),
                        ("rename", obj([], [("prepareSupport", boolean())])),
                    ],
                ),
            ),
            ("window", obj([], [("workDoneProgress", boolean())])),
            ("experimental", small_json()),
        ],
    );
    obj(
        [("capabilities", caps)],
        [
            ("processId", uint()),
            ("rootPath", string()),
            ("rootUri", uri()),
            ("initializationOptions", any_json()),
            ("trace", pick(&["off", "messages", "verbose"])),
            ("workspaceFolders", arr(workspace_folder())),
            ("clientInfo", obj([("name", string())], [("version", string())])),
            ("locale", string()),
        ],
    )
}
pub fn initialize_result() -> G {
    obj(
        [(
            "capabilities",
            obj(
                [],
                [
                    ("positionEncoding", pick(&["utf-8", "utf-16", "utf-32"])),
                    ("textDocumentSync", int(0, 2)),
                    ("hoverProvider", boolean()),
                    (
                        "completionProvider",
                        obj([], [("resolveProvider", boolean()), ("triggerCharacters", arr(word()))]),
                    ),
                    ("executeCommandProvider", obj([("commands", arr(word()))], [])),
                    ("renameProvider", boolean()),
                    ("experimental", small_json()),
                ],
            ),
        )],
        [("serverInfo", obj([("name", string())], [("version", string())]))],
    )
}

/// Params and (for requests) result of a client-to-server method.
pub fn client_to_server(method: &str) -> (Option<G>, Option<G>) {
    let note = |p: G| (Some(p), None);
    let req = |p: G, r: G| (Some(p), Some(r));
    let edits = || or_null(arr(text_edit()));
    match method {
        "initialize" => req(initialize_params(), initialize_result()),
        "initialized" => note(obj([], [])),
        "shutdown" => (None, Some(Just(Value::Null).boxed())),
        "textDocument/didOpen" => note(obj(
            [(
                "textDocument",
                obj(
                    [
                        ("uri", uri()),
                        ("languageId", word()),
                        ("version", int(-3, 1000)),
                        ("text", string()),
                    ],
                    [],
                ),
            )],
            [],
        )),
        "textDocument/didChange" => note(obj(
            [
                ("textDocument", versioned_doc()),
                (
                    "contentChanges",
                    arr(obj([("text", string())], [("range", range()), ("rangeLength", uint())])),
                ),
            ],
            [],
        )),
        "textDocument/willSave" => note(obj([("textDocument", doc()), ("reason", int(1, 3))], [])),
        "textDocument/willSaveWaitUntil" => {
            req(obj([("textDocument", doc()), ("reason", int(1, 3))], []), edits())
        }
        "textDocument/didSave" => note(obj([("textDocument", doc())], [("text", string())])),
        "textDocument/didClose" => note(obj([("textDocument", doc())], [])),
        "textDocument/declaration"
        | "textDocument/definition"
        | "textDocument/typeDefinition"
        | "textDocument/implementation" => req(doc_pos_partial(), goto_response()),
        "textDocument/references" => req(
            merge(
                doc_pos_partial(),
                obj([("context", obj([("includeDeclaration", boolean())], []))], []),
            ),
            or_null(arr(loc())),
        ),
        "textDocument/prepareCallHierarchy" => req(doc_pos_work(), or_null(arr(hierarchy_item()))),
        "textDocument/prepareTypeHierarchy" => req(doc_pos_work(), or_null(arr(type_item()))),
        "callHierarchy/incomingCalls" => req(
            merge(obj([("item", hierarchy_item())], []), partial()),
            or_null(arr(obj([("from", hierarchy_item()), ("fromRanges", arr(range()))], []))),
        ),
        "callHierarchy/outgoingCalls" => req(
            merge(obj([("item", hierarchy_item())], []), partial()),
            or_null(arr(obj([("to", hierarchy_item()), ("fromRanges", arr(range()))], []))),
        ),
        "typeHierarchy/supertypes" | "typeHierarchy/subtypes" => req(
            merge(obj([("item", type_item())], []), partial()),
            or_null(arr(type_item())),
        ),
        "textDocument/documentHighlight" => {
            req(doc_pos_partial(), or_null(arr(obj([("range", range())], [("kind", int(1, 3))]))))
        }
        "textDocument/documentLink" => req(doc_partial(), or_null(arr(doc_link()))),
        "documentLink/resolve" => req(doc_link(), doc_link()),
        "textDocument/hover" => req(doc_pos_work(), or_null(hover())),
        "textDocument/codeLens" => req(doc_partial(), or_null(arr(code_lens()))),
        "codeLens/resolve" => req(code_lens(), code_lens()),
        "textDocument/foldingRange" => req(
            doc_partial(),
            or_null(arr(obj(
                [("startLine", uint()), ("endLine", uint())],
                [
                    ("startCharacter", uint()),
                    ("endCharacter", uint()),
                    ("kind", pick(&["comment", "imports", "region"])),
                    ("collapsedText", string()),
                ],
            ))),
        ),
        "textDocument/selectionRange" => req(
            merge(doc_partial(), obj([("positions", arr(pos()))], [])),
            or_null(arr(obj(
                [("range", range())],
                [("parent", obj([("range", range())], [("parent", obj([("range", range())], []))]))],
            ))),
        ),
        "textDocument/documentSymbol" => req(
            doc_partial(),
            or_null(one(vec![arr(symbol_information()), arr(document_symbol())])),
        ),
        "textDocument/semanticTokens/full" => req(doc_partial(), or_null(semantic_tokens())),
        "textDocument/semanticTokens/full/delta" => req(
            merge(doc_partial(), obj([("previousResultId", string())], [])),
            or_null(one(vec![
                semantic_tokens(),
                obj(
                    [(
                        "edits",
                        arr(obj(
                            [("start", uint()), ("deleteCount", uint())],
                            [("data", semantic_data())],
                        )),
                    )],
                    [("resultId", string())],
                ),
            ])),
        ),
        "textDocument/semanticTokens/range" => {
            req(merge(doc_partial(), obj([("range", range())], [])), or_null(semantic_tokens()))
        }
        "textDocument/inlineValue" => req(
            merge(
                obj(
                    [
                        ("textDocument", doc()),
                        ("range", range()),
                        (
                            "context",
                            obj([("frameId", int(-5, 5)), ("stoppedLocation", range())], []),
                        ),
                    ],
                    [],
                ),
                work_done(),
            ),
            or_null(arr(one(vec![
                obj([("range", range()), ("text", string())], []),
                obj(
                    [("range", range()), ("caseSensitiveLookup", boolean())],
                    [("variableName", string())],
                ),
                obj([("range", range())], [("expression", string())]),
            ]))),
        ),
        "textDocument/inlayHint" => req(
            merge(obj([("textDocument", doc()), ("range", range())], []), work_done()),
            or_null(arr(inlay_hint())),
        ),
        "inlayHint/resolve" => req(inlay_hint(), inlay_hint()),
        "textDocument/moniker" => req(
            doc_pos_partial(),
            or_null(arr(obj(
                [
                    ("scheme", word()),
                    ("identifier", string()),
                    ("unique", pick(&["document", "project", "group", "scheme", "global"])),
                ],
                [("kind", pick(&["import", "export", "local"]))],
            ))),
        ),
        "textDocument/completion" => req(
            merge(
                doc_pos_partial(),
                obj(
                    [],
                    [(
                        "context",
                        obj([("triggerKind", int(1, 3))], [("triggerCharacter", word())]),
                    )],
                ),
            ),
            or_null(one(vec![
                arr(completion_item()),
                obj([("isIncomplete", boolean()), ("items", arr(completion_item()))], []),
            ])),
        ),
        "completionItem/resolve" => req(completion_item(), completion_item()),
        "textDocument/diagnostic" => req(
            merge(
                doc_partial(),
                obj([], [("identifier", string()), ("previousResultId", string())]),
            ),
            one(vec![
                merge(
                    full_report(),
                    obj(
                        [],
                        [("relatedDocuments", uri_map(one(vec![full_report(), unchanged_report()])))],
                    ),
                ),
                unchanged_report(),
            ]),
        ),
        "workspace/diagnostic" => {
            let place = || obj([("uri", uri()), ("version", or_null(int(0, 50)))], []);
            req(
                merge(
                    obj(
                        [(
                            "previousResultIds",
                            arr(obj([("uri", uri()), ("value", string())], [])),
                        )],
                        [("identifier", string())],
                    ),
                    partial(),
                ),
                obj(
                    [(
                        "items",
                        arr(one(vec![
                            merge(full_report(), place()),
                            merge(unchanged_report(), place()),
                        ])),
                    )],
                    [],
                ),
            )
        }
        "textDocument/signatureHelp" => req(
            merge(
                doc_pos_work(),
                obj(
                    [],
                    [(
                        "context",
                        obj(
                            [("triggerKind", int(1, 3)), ("isRetrigger", boolean())],
                            [
                                ("triggerCharacter", word()),
                                ("activeSignatureHelp", signature_help()),
                            ],
                        ),
                    )],
                ),
            ),
            or_null(signature_help()),
        ),
        "textDocument/codeAction" => req(
            merge(
                doc_partial(),
                obj(
                    [
                        ("range", range()),
                        (
                            "context",
                            obj(
                                [("diagnostics", arr(diagnostic()))],
                                [("only", arr(action_kind())), ("triggerKind", int(1, 2))],
                            ),
                        ),
                    ],
                    [],
                ),
            ),
            or_null(arr(one(vec![code_action(), command()]))),
        ),
        "codeAction/resolve" => req(code_action(), code_action()),
        "textDocument/documentColor" => {
            req(doc_partial(), arr(obj([("range", range()), ("color", color())], [])))
        }
        "textDocument/colorPresentation" => req(
            merge(doc_partial(), obj([("color", color()), ("range", range())], [])),
            arr(obj(
                [("label", string())],
                [("textEdit", text_edit()), ("additionalTextEdits", arr(text_edit()))],
            )),
        ),
        "textDocument/formatting" => req(
            merge(
                obj([("textDocument", doc()), ("options", formatting_options())], []),
                work_done(),
            ),
            edits(),
        ),
        "textDocument/rangeFormatting" => req(
            merge(
                obj(
                    [
                        ("textDocument", doc()),
                        ("range", range()),
                        ("options", formatting_options()),
                    ],
                    [],
                ),
                work_done(),
            ),
            edits(),
        ),
        "textDocument/onTypeFormatting" => req(
            merge(doc_pos(), obj([("ch", word()), ("options", formatting_options())], [])),
            edits(),
        ),
        "textDocument/rename" => req(
            merge(doc_pos_work(), obj([("newName", string())], [])),
            or_null(workspace_edit()),
        ),
        "textDocument/prepareRename" => req(
            doc_pos(),
            or_null(one(vec![
                range(),
                obj([("range", range()), ("placeholder", string())], []),
                obj([("defaultBehavior", boolean())], []),
            ])),
        ),
        "textDocument/linkedEditingRange" => req(
            doc_pos_work(),
            or_null(obj([("ranges", arr(range()))], [("wordPattern", string())])),
        ),
        "workspace/symbol" => {
            req(merge(obj([("query", string())], []), partial()), or_null(arr(symbol_information())))
        }
        "workspaceSymbol/resolve" => req(workspace_symbol(), workspace_symbol()),
        "workspace/didChangeConfiguration" => note(obj([("settings", any_json())], [])),
        "workspace/didChangeWorkspaceFolders" => note(obj(
            [(
                "event",
                obj(
                    [("added", arr(workspace_folder())), ("removed", arr(workspace_folder()))],
                    [],
                ),
            )],
            [],
        )),
        "workspace/willCreateFiles" | "workspace/willDeleteFiles" => {
            req(file_ops(&["uri"]), or_null(workspace_edit()))
        }
        "workspace/didCreateFiles" | "workspace/didDeleteFiles" => note(file_ops(&["uri"])),
        "workspace/willRenameFiles" => {
            req(file_ops(&["oldUri", "newUri"]), or_null(workspace_edit()))
        }
        "workspace/didRenameFiles" => note(file_ops(&["oldUri", "newUri"])),
        "workspace/didChangeWatchedFiles" => {
            note(obj([("changes", arr(obj([("uri", uri()), ("type", int(1, 3))], [])))], []))
        }
        "workspace/executeCommand" => req(
            merge(
                obj([("command", string())], [("arguments", arr(arb_small()))]),
                work_done(),
            ),
            arb_json(),
        ),
        other => panic!("no generator for {other}"),
    }
}

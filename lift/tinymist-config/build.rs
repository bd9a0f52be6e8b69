fn main() {
    let at = |f: &str| slicer::of(&format!("crates/{f}"));
    at("tinymist/src/config.rs")
        .roots(&["Config", "ConstConfig", "ConstDapConfig"])
        .external(&["get_semantic_tokens_options"])
        .keep(&["super", "crate", "task", "typst::foundations::IntoValue"])
        .prune(&["strum"])
        .without(&["strum"])
        .write("config");
    at("tinymist/src/lsp.rs")
        .roots(&[
            "ServerState::initialized",
            "ServerState::on_changed_configuration",
            "ServerState::did_change_configuration",
            "ServerState::workspace_configuration_callback",
            "ServerState::enable_sema_token_caps",
            "ServerState::enable_formatter_caps",
        ])
        .external(&["ServerState"])
        .keep(&["crate"])
        .write("lsp");
    at("tinymist/src/lsp/init.rs").roots(&["RegularInit", "SuperInit"]).keep(&["super"]).write("init");
    at("tinymist/src/task/format.rs").roots(&["FormatUserConfig", "FormatterConfig"]).prune(&["sync_ls", "super"]).write("format");
    at("tinymist/src/server.rs")
        .roots(&["ServerState::show_config_warnings"])
        .external(&["ServerState"])
        .prune(&["task", "tokio", "tinymist_project", "sync_ls", "futures", "lsp", "actor", "project", "route"])
        .without(&["crate::lsp", "lsp"])
        .write("server");
    at("tinymist-query/src/analysis/completion.rs").roots(&["CompletionFeat::Self", "SymbolCompletionWay"]).external(&["PostfixSnippet"]).prune(&["tinymist_derive", "tinymist_project", "tinymist_std", "typst_shim", "unscanny", "if_chain", "lsp_types", "tinymist_analysis", "regex"]).write("completion");
    at("tinymist-render/src/lib.rs").roots(&["PeriscopeArgs"]).prune(&["reflexo_vec2svg", "base64", "tinymist_std"]).write("render");
}

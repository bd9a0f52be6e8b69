fn main() {
    let at = |f: &str| slicer::of(&format!("crates/tinymist/src/{f}"));
    at("task/export.rs")
        .roots(&["ExportTask::do_export"])
        .external(&["ExportTask"])
        .keep(&["super", "crate::project", "typst", "reflexo", "reflexo_typst"])
        // Files are only written to where the checks are.
        .edit("std :: fs :: create_dir_all", "crate :: guard :: create_dir_all")
        .edit("write_atomic (", "crate :: guard :: write_atomic (")
        .write("export");
    at("server.rs")
        .roots(&["ServerState::on_export"])
        .external(&["ServerState"])
        .without(&["lsp"])
        .prune(&["lsp", "actor", "route"])
        .keep(&[
            "crate::project",
            "crate::lsp::query::QueryFuture",
            "crate::task::ExportTask",
            "tinymist_query::LspWorldExt",
        ])
        .write("server");
    at("cmd.rs")
        .roots(&[
            "ServerState::export",
            "ServerState::export_pdf",
            "ServerState::export_html",
            "ServerState::export_markdown",
            "ServerState::export_text",
            "ServerState::export_query",
            "ServerState::export_svg",
            "ServerState::export_png",
        ])
        .external(&["ServerState"])
        .prune(&["task", "tinymist_assets"])
        .keep(&["super", "crate::lsp"])
        .write("cmd");
    at("lsp/query.rs")
        .roots(&["LspClientExt", "QueryFuture"])
        .external(&["ServerState"])
        .write("query");
}

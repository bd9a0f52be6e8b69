fn main() {
    let at = |f: &str| slicer::of(&format!("crates/tinymist/src/{f}"));
    at("project.rs")
        .roots(&[
            "ProjectInsStateExt",
            "CompileHandlerImpl",
            "ProjectPreviewState",
            "ProjectClient",
            "LspProjectCompiler",
            "ProjectState::do_interrupt",
            "ProjectState::interrupt",
            "ProjectState::snapshot",
            "ProjectState::primary_id",
            "ProjectState::restart_dedicate",
            "ProjectState::stop",
            "ServerState::reload_projects",
            "ServerState::restart_dedicate",
            "ServerState::change_export_config",
        ])
        .external(&["ProjectState", "ServerState", "ServerState::project"])
        .keep(&["tinymist_project", "tinymist_std"])
        .prune(&["tinymist_render", "sync_ls"])
        .without(&["tinymist_query::analysis::Analysis", "tinymist_query::CheckRequest"])
        .edit("use typst_preview ::", "use crate :: typst_preview ::")
        .edit("tinymist_query :: convert_diagnostics", "analysis :: convert_diagnostics")
        .write("project");
    at("lsp.rs").roots(&["ServerState::did_open", "ServerState::did_close", "ServerState::did_change"]).external(&["ServerState"]).keep(&["crate"]).without(&["crate::actor", "crate::task"]).write("lsp");
    at("cmd.rs")
        .roots(&["ServerState::pin_document", "ServerState::focus_document"])
        .external(&["ServerState"])
        .keep(&["super"])
        .prune(&["tinymist_assets", "tinymist_project", "world", "task", "sync_ls"])
        .without(&["world", "task", "tinymist_assets"])
        .write("cmd");
    at("server.rs").roots(&["as_path", "as_path_"]).prune(&["task", "tokio", "tinymist_project", "sync_ls", "futures", "lsp", "actor", "project", "route"]).without(&["crate::lsp", "lsp", "lsp_types::request", "request"]).write("server");
    at("task/mod.rs").roots(&["SyncTaskFactory", "FutureFolder"]).external(&["export", "export2", "format", "user_action"]).without(&["export", "format", "user_action"]).keep(&["tinymist_std", "reflexo"]).write("task");
    at("task/export.rs")
        .roots(&["ExportTask::Self", "ExportTask::new", "ExportTask::change_config", "ExportTask::signal", "ExportUserConfig", "log_err"])
        .external(&["ExportTask::do_export"])
        .keep(&["super", "crate"])
        .prune(&["typlite", "tinymist_task"]).without(&["typst::visualize"])
        .write("export");
    at("task/format.rs").roots(&["calc_diff"]).prune(&["sync_ls", "super"]).write("format");
    at("tool/preview/http.rs").roots(&["is_valid_origin_impl"]).without(&["hyper"]).prune(&["hyper", "hyper_tungstenite", "hyper_util", "tokio"]).write("http");
    at("tool/preview/compile.rs").roots(&["ProjectPreviewHandler"]).keep(&["typst_preview"]).prune(&["typst_shim"]).write("preview_compile");
    if std::env::var_os("CARGO_FEATURE_REAL_PREVIEW").is_some() {
        at("cmd.rs")
            .roots(&[
                "ServerState::do_start_preview",
                "ServerState::browse_preview",
                "ServerState::default_preview",
                "ServerState::kill_preview",
                "ServerState::scroll_preview",
            ])
            .external(&["ServerState"])
            .keep(&["super"])
            .prune(&["tinymist_assets", "tinymist_project", "world", "task", "sync_ls"])
            .without(&["world", "task", "tinymist_assets"])
            .write("cmd_preview");
        at("server.rs")
            .roots(&["ServerState::infer_pos", "ServerState::server_event", "ServerState::compile_interrupt", "ServerEvent"])
            .external(&["ServerState"])
            .prune(&["task", "tokio", "tinymist_project", "futures", "lsp", "actor", "project", "route", "tinymist_std", "tinymist_task"])
            .without(&["crate::lsp", "lsp", "lsp_types::request", "request", "lsp_types"])
            .write("server_preview");
        at("tool/preview.rs")
            .roots(&["PreviewKind", "PreviewCliArgs", "StartPreviewResponse", "PreviewState", "ServerState::start_preview", "ServerState::background_preview"])
            .external(&["ServerState"])
            .keep(&["crate", "tinymist_std"])
            .prune(&["sync_ls"])
            .without(&["compile", "http", "crate::tool::project"])
            .write("preview");
        at("tool/preview/http.rs").roots(&["HttpServer", "make_http_server"]).keep(&["tinymist_std"]).write("http_server");
    }
}

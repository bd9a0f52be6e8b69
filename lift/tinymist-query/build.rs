fn main() {
    slicer::of("crates/tinymist-query/src/analysis/semantic_tokens.rs")
        .roots(&["SemanticTokenCache", "SemanticTokenContext"])
        .external(&["get_semantic_tokens"])
        .keep(&["crate::adt"])
        .prune(&["strum"])
        .write("semantic_tokens");
    slicer::of("crates/tinymist-query/src/analysis/global.rs")
        .roots(&["AnalysisRevCache", "AnalysisRevLock", "IncrCacheMap", "CacheMap", "LocalContext::cached_tokens", "Analysis::lock_revision", "Analysis::clear_cache"])
        .external(&["Analysis", "LocalContext"])
        .keep(&["crate::adt"])
        .prune(&["comemo", "typst_shim", "tinymist_lint", "tinymist_project", "tinymist_analysis", "lsp_types"])
        .without(&["tinymist_std::typst", "tinymist_lint::LintInfo"])
        .write("global");
    slicer::of("crates/tinymist-query/src/analysis.rs").roots(&["LspWorldExt"]).prune(&["tinymist_project", "ecow", "lsp_types"]).keep(&["typst::World", "tinymist_world::WorldDeps"]).without(&["crate::ty"]).edit("crate :: log_debug_ct", "log :: debug").write("world_ext");
}

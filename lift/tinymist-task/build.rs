fn main() {
    slicer::of("crates/tinymist-task/src/compute.rs").roots(&["get_page_selection"]).keep(&["crate", "typst::layout", "typst::syntax", "tinymist_std::error"]).prune(&["typst_eval"]).write("compute");
}

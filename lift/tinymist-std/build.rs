fn main() {
    slicer::of("crates/tinymist-std/src/time.rs").roots(&["to_typst_time"]).keep(&["typst"]).edit("# [cfg (feature = \"typst\")]", "").write("time");
}

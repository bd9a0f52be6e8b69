fn main() {
    slicer::of("crates/tinymist-world/src/lib.rs")
        .roots(&["ShadowApi", "ShadowApiExt", "WorldDeps", "CompilerFeat", "DiagnosticFormat"])

        .write("lib");
}

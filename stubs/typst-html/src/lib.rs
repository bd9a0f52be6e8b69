//! Stand-in for `typst-html`: says what it was asked to write.
use typst::diag::SourceResult;
use typst::html::HtmlDocument;
pub fn html(doc: &HtmlDocument) -> SourceResult<String> {
    Ok(format!("html {:?}\n", doc.root.lines))
}

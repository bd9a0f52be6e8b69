//! Stand-in for `typst-pdf`: says what it was asked to write.
use typst::foundations::Datetime;
use typst::layout::PagedDocument;
#[derive(Debug, Copy, Clone, PartialEq)]
pub struct Timestamp(pub Datetime);
impl Timestamp {
    pub fn new_utc(d: Datetime) -> Self {
        Self(d)
    }
}
#[allow(non_camel_case_types)]
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub enum PdfStandard {
    V_1_7,
    A_2b,
    A_3b,
}
#[derive(Debug, Clone, Default)]
pub struct PdfStandards(Vec<PdfStandard>);
impl PdfStandards {
    pub fn new(list: &[PdfStandard]) -> Result<Self, String> {
        if list.contains(&PdfStandard::A_2b) && list.contains(&PdfStandard::A_3b) {
            return Err("PDF cannot conform to A-2B and A-3B at the same time".into());
        }
        Ok(Self(list.to_vec()))
    }
}
#[derive(Debug, Clone, Default)]
pub struct PdfOptions<'a> {
    pub ident: Option<&'a str>,
    pub timestamp: Option<Timestamp>,
    pub standards: PdfStandards,
}
pub fn pdf(doc: &PagedDocument, o: &PdfOptions) -> anyhow::Result<Vec<u8>> {
    let at = o.timestamp.map(|t| t.0.to_string()).unwrap_or_default();
    Ok(format!("pdf at {at} as {:?} {:?}\n", o.standards.0, doc.pages.iter().map(|p| &p.lines).collect::<Vec<_>>()).into_bytes())
}

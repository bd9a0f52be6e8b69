//! Stand-in for `serde_yaml`: any JSON is YAML.
pub fn to_string<T: serde::Serialize + ?Sized>(v: &T) -> Result<String, String> {
    serde_json::to_string(v).map(|s| format!("--- {s}\n")).map_err(|e| e.to_string())
}

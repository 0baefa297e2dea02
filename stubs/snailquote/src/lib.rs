//! Signature-only stand-in.
#[derive(Debug)] pub struct UnescapeError;
impl std::fmt::Display for UnescapeError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for UnescapeError {}
pub fn escape(_s: &str) -> std::borrow::Cow<'_, str> { loop {} }
pub fn unescape(_s: &str) -> Result<String, UnescapeError> { loop {} }

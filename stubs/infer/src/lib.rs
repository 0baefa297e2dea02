//! Signature-only stand-in.
#[derive(Clone, Copy)]
pub struct Type;
impl Type { pub fn mime_type(&self) -> &'static str { loop {} } }
pub fn get(_b: &[u8]) -> Option<Type> { loop {} }

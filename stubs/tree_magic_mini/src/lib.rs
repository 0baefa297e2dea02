//! Signature-only stand-in.
pub fn from_u8(_b: &[u8]) -> &'static str { loop {} }

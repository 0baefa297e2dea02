//! Signature-only stand-in.
pub struct Digest(pub [u8; 16]);
impl std::fmt::LowerHex for Digest { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
pub fn compute<T: AsRef<[u8]>>(_t: T) -> Digest { loop {} }

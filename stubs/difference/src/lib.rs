//! Signature-only stand-in.
#[derive(Debug, PartialEq)]
pub enum Difference { Same(String), Add(String), Rem(String) }
pub struct Changeset { pub diffs: Vec<Difference>, pub split: String, pub distance: i32 }
impl Changeset { pub fn new(_a: &str, _b: &str, _s: &str) -> Changeset { loop {} } }

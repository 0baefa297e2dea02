//! Signature-only stand-in for the `onig` crate (not available offline): enough for type checking, never executed.
use std::borrow::Cow;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
#[derive(Debug)]
pub struct Regex;
pub struct Captures<'t>(std::marker::PhantomData<&'t str>);
impl<'t> Captures<'t> {
  pub fn at(&self, _pos: usize) -> Option<&'t str> { loop {} }
  pub fn len(&self) -> usize { loop {} }
}
pub trait Replacer { fn reg_replace(&mut self, caps: &Captures<'_>) -> Cow<'_, str>; }
impl<F: FnMut(&Captures<'_>) -> String> Replacer for F { fn reg_replace(&mut self, _c: &Captures<'_>) -> Cow<'_, str> { loop {} } }
impl Replacer for &str { fn reg_replace(&mut self, _c: &Captures<'_>) -> Cow<'_, str> { loop {} } }
impl Regex {
  pub fn new(_p: &str) -> Result<Regex, Error> { loop {} }
  pub fn is_match(&self, _t: &str) -> bool { loop {} }
  pub fn find(&self, _t: &str) -> Option<(usize, usize)> { loop {} }
  pub fn captures<'t>(&self, _t: &'t str) -> Option<Captures<'t>> { loop {} }
  pub fn replace<R: Replacer>(&self, _t: &str, _r: R) -> String { loop {} }
  pub fn replace_all<R: Replacer>(&self, _t: &str, _r: R) -> String { loop {} }
}
pub trait EncodedChars { fn byte_len(&self) -> usize; }
impl EncodedChars for str { fn byte_len(&self) -> usize { self.len() } }
impl<'a> EncodedChars for &'a str { fn byte_len(&self) -> usize { (**self).len() } }

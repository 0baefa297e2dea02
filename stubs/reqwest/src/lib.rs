//! Signature-only stand-in for the `reqwest` crate (not available offline): enough for type checking, never executed.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct StatusCode(u16);
impl StatusCode { pub fn is_success(&self) -> bool { loop {} } pub fn as_u16(&self) -> u16 { self.0 } }
impl std::fmt::Display for StatusCode { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
pub trait IntoUrl {}
impl<'a> IntoUrl for &'a str {}
impl<'a> IntoUrl for &'a String {}
impl IntoUrl for String {}
pub struct Client;
pub struct RequestBuilder;
pub struct Response;
impl Client {
  pub fn new() -> Client { loop {} }
  pub fn get<U: IntoUrl>(&self, _u: U) -> RequestBuilder { loop {} }
  pub fn post<U: IntoUrl>(&self, _u: U) -> RequestBuilder { loop {} }
  pub fn put<U: IntoUrl>(&self, _u: U) -> RequestBuilder { loop {} }
}
impl RequestBuilder {
  pub fn basic_auth<U: std::fmt::Display, P: std::fmt::Display>(self, _u: U, _p: Option<P>) -> Self { loop {} }
  pub fn bearer_auth<T: std::fmt::Display>(self, _t: T) -> Self { loop {} }
  pub fn form<T: serde::Serialize + ?Sized>(self, _t: &T) -> Self { loop {} }
  pub fn json<T: serde::Serialize + ?Sized>(self, _t: &T) -> Self { loop {} }
  pub fn timeout(self, _t: std::time::Duration) -> Self { loop {} }
  pub fn header<K, V>(self, _k: K, _v: V) -> Self { loop {} }
  pub fn body<T>(self, _t: T) -> Self { loop {} }
  pub async fn send(self) -> Result<Response> { loop {} }
}
impl Response {
  pub fn status(&self) -> StatusCode { loop {} }
  pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { loop {} }
  pub async fn text(self) -> Result<String> { loop {} }
}
pub mod blocking {
  use super::*;
  #[derive(Clone)] pub struct Client;
  pub struct RequestBuilder;
  pub struct Response;
  impl Client {
    pub fn new() -> Client { loop {} }
    pub fn get<U: IntoUrl>(&self, _u: U) -> RequestBuilder { loop {} }
    pub fn post<U: IntoUrl>(&self, _u: U) -> RequestBuilder { loop {} }
  }
  impl RequestBuilder {
    pub fn basic_auth<U: std::fmt::Display, P: std::fmt::Display>(self, _u: U, _p: Option<P>) -> Self { loop {} }
    pub fn bearer_auth<T: std::fmt::Display>(self, _t: T) -> Self { loop {} }
    pub fn send(self) -> Result<Response> { loop {} }
  }
  impl Response {
    pub fn status(&self) -> StatusCode { loop {} }
    pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { loop {} }
    pub fn text(self) -> Result<String> { loop {} }
  }
}

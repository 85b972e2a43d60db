//! Stand-in for `reqwest` (not available offline): every request fails. HTTP is outside what /verif checks.
use std::fmt;

#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "no network (stand-in)") } }
impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode { pub fn is_success(&self) -> bool { self.0 < 300 } pub fn as_u16(&self) -> u16 { self.0 } }
impl fmt::Display for StatusCode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }

#[derive(Debug, Clone, Default)]
pub struct Client;
#[derive(Debug)]
pub struct RequestBuilder;
#[derive(Debug)]
pub struct Response;
impl Client {
  pub fn new() -> Client { Client }
  pub fn post<U>(&self, _: U) -> RequestBuilder { RequestBuilder }
  pub fn get<U>(&self, _: U) -> RequestBuilder { RequestBuilder }
}
impl RequestBuilder {
  pub fn form<T: ?Sized>(self, _: &T) -> Self { self }
  pub async fn send(self) -> Result<Response, Error> { Err(Error) }
}

pub mod blocking {
  use super::*;
  #[derive(Debug, Clone, Default)]
  pub struct Client;
  #[derive(Debug)]
  pub struct RequestBuilder;
  #[derive(Debug)]
  pub struct Response;
  impl Client {
    pub fn new() -> Client { Client }
    pub fn get<U>(&self, _: U) -> RequestBuilder { RequestBuilder }
  }
  impl RequestBuilder {
    pub fn basic_auth<U, P>(self, _: U, _: Option<P>) -> Self { self }
    pub fn bearer_auth<T>(self, _: T) -> Self { self }
    pub fn send(self) -> Result<Response, Error> { Err(Error) }
  }
  impl Response {
    pub fn status(&self) -> StatusCode { StatusCode(599) }
    pub fn json<T>(self) -> Result<T, Error> { Err(Error) }
  }
}

//! Stand-in for `reqwest` (not available offline): nothing is sent; a scripted handler gets every request
//! as it would go out (URL, headers with the client's defaults, body) and answers it.
use std::fmt;
use std::sync::Mutex;

use base64::Engine;
use bytes::Bytes;
use http::header::{HeaderMap, HeaderName, HeaderValue};
pub use http::{Method, StatusCode};
pub use url::Url;
use serde::Serialize;

#[derive(Debug, Clone)]
pub struct Sent { pub method: String, pub url: String, pub headers: Vec<(String, Vec<u8>)>, pub body: Option<Vec<u8>> }
#[derive(Debug, Clone)]
pub struct Reply { pub status: u16, pub headers: Vec<(String, Vec<u8>)>, pub body: Vec<u8> }
pub type Handler = Box<dyn FnMut(Sent) -> Result<Reply, String> + Send>;
static HANDLER: Mutex<Option<Handler>> = Mutex::new(None);
pub fn handle_with(h: Handler) { *HANDLER.lock().unwrap_or_else(|e| e.into_inner()) = Some(h); }

#[derive(Debug)]
pub struct Error(String);
impl Error {
  pub fn is_status(&self) -> bool { false }
  pub fn status(&self) -> Option<StatusCode> { None }
}
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Error {}

pub trait IntoUrl { fn text(&self) -> String; }
impl IntoUrl for &str { fn text(&self) -> String { self.to_string() } }
impl IntoUrl for String { fn text(&self) -> String { self.clone() } }
impl IntoUrl for &String { fn text(&self) -> String { self.to_string() } }
impl IntoUrl for Url { fn text(&self) -> String { self.to_string() } }

#[derive(Debug, Clone, Default)]
pub struct Client { defaults: HeaderMap }
#[derive(Debug, Default)]
pub struct ClientBuilder { defaults: HeaderMap }
#[derive(Debug, Clone)]
struct Parts { method: Method, url: Url, headers: HeaderMap, body: Option<Bytes>, defaults: HeaderMap }
#[derive(Debug)]
pub struct RequestBuilder { parts: Result<Parts, String> }
#[derive(Debug)]
pub struct Response { status: StatusCode, headers: HeaderMap, body: Bytes }
#[derive(Debug)]
pub struct Body(Bytes);
impl From<Bytes> for Body { fn from(b: Bytes) -> Body { Body(b) } }
impl From<String> for Body { fn from(b: String) -> Body { Body(b.into()) } }
impl From<&'static str> for Body { fn from(b: &'static str) -> Body { Body(b.into()) } }

impl Client {
  pub fn new() -> Client { Client::default() }
  pub fn builder() -> ClientBuilder { ClientBuilder::default() }
  pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
    RequestBuilder {
      parts: match Url::parse(&url.text()) {
        Ok(u) if u.has_host() => Ok(Parts { method, url: u, headers: HeaderMap::new(), body: None, defaults: self.defaults.clone() }),
        Ok(_) => Err("builder error".to_string()),
        Err(_) => Err("builder error".to_string())
      }
    }
  }
  pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::GET, url) }
  pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::POST, url) }
  pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PUT, url) }
}

impl ClientBuilder {
  pub fn new() -> ClientBuilder { ClientBuilder::default() }
  pub fn danger_accept_invalid_certs(self, _: bool) -> Self { self }
  pub fn timeout(self, _: std::time::Duration) -> Self { self }
  pub fn tcp_keepalive<D: Into<Option<std::time::Duration>>>(self, _: D) -> Self { self }
  pub fn user_agent<V: Into<String>>(self, _: V) -> Self { self }
  pub fn default_headers(mut self, headers: HeaderMap) -> Self { self.defaults = headers; self }
  pub fn build(self) -> Result<Client, Error> { Ok(Client { defaults: self.defaults }) }
}

impl RequestBuilder {
  fn edit(mut self, f: impl FnOnce(&mut Parts) -> Result<(), String>) -> Self {
    let err = match &mut self.parts { Ok(p) => f(p).err(), Err(_) => None };
    if let Some(e) = err { self.parts = Err(e); }
    self
  }
  pub fn query<T: Serialize + ?Sized>(self, query: &T) -> Self {
    self.edit(|p| {
      {
        let mut pairs = p.url.query_pairs_mut();
        query.serialize(serde_urlencoded::Serializer::new(&mut pairs)).map_err(|_| "builder error".to_string())?;
      }
      if let Some("") = p.url.query() { p.url.set_query(None); }
      Ok(())
    })
  }
  pub fn header<K, V>(self, key: K, value: V) -> Self where HeaderName: TryFrom<K>, HeaderValue: TryFrom<V> {
    self.edit(|p| match (HeaderName::try_from(key), HeaderValue::try_from(value)) {
      (Ok(k), Ok(v)) => { p.headers.append(k, v); Ok(()) },
      _ => Err("builder error".to_string())
    })
  }
  /// replaces what is there under the same names
  pub fn headers(self, headers: HeaderMap) -> Self {
    self.edit(|p| {
      for k in headers.keys() {
        p.headers.remove(k);
        for v in headers.get_all(k) { p.headers.append(k.clone(), v.clone()); }
      }
      Ok(())
    })
  }
  pub fn body<B: Into<Body>>(self, body: B) -> Self { self.edit(|p| { p.body = Some(body.into().0); Ok(()) }) }
  pub fn basic_auth<U: fmt::Display, P: fmt::Display>(self, user: U, password: Option<P>) -> Self {
    let t = format!("{}:{}", user, password.map(|p| p.to_string()).unwrap_or_default());
    self.header("authorization", format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(t)))
  }
  pub fn bearer_auth<T: fmt::Display>(self, token: T) -> Self { self.header("authorization", format!("Bearer {}", token)) }
  pub fn form<T: Serialize + ?Sized>(self, _: &T) -> Self { self }
  pub fn try_clone(&self) -> Option<RequestBuilder> { self.parts.as_ref().ok().map(|p| RequestBuilder { parts: Ok(p.clone()) }) }
  pub async fn send(self) -> Result<Response, Error> { answer(self.parts) }
}

fn answer(parts: Result<Parts, String>) -> Result<Response, Error> {
  let mut p = parts.map_err(Error)?;
  for (k, v) in p.defaults.iter() {
    if !p.headers.contains_key(k) { p.headers.insert(k.clone(), v.clone()); }
  }
  let sent = Sent {
    method: p.method.to_string(), url: p.url.to_string(), body: p.body.map(|b| b.to_vec()),
    headers: p.headers.iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect()
  };
  let mut guard = HANDLER.lock().unwrap_or_else(|e| e.into_inner());
  let reply = match guard.as_mut() { Some(h) => h(sent), None => Err("no network (stand-in)".to_string()) };
  let reply = reply.map_err(Error)?;
  let mut headers = HeaderMap::new();
  for (k, v) in reply.headers {
    headers.append(HeaderName::try_from(k).map_err(|e| Error(e.to_string()))?, HeaderValue::from_bytes(&v).map_err(|e| Error(e.to_string()))?);
  }
  Ok(Response { status: StatusCode::from_u16(reply.status).map_err(|e| Error(e.to_string()))?, headers, body: reply.body.into() })
}

impl Response {
  pub fn status(&self) -> StatusCode { self.status }
  pub fn headers(&self) -> &HeaderMap { &self.headers }
  pub async fn bytes(self) -> Result<Bytes, Error> { Ok(self.body) }
  pub async fn text(self) -> Result<String, Error> { Ok(String::from_utf8_lossy(&self.body).to_string()) }
  pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> {
    serde_json::from_slice(&self.body).map_err(|_| Error("error decoding response body".to_string()))
  }
}

pub mod blocking {
  use super::*;
  #[derive(Debug, Clone, Default)]
  pub struct Client { inner: super::Client }
  #[derive(Debug)]
  pub struct RequestBuilder { inner: super::RequestBuilder }
  #[derive(Debug)]
  pub struct Response { status: StatusCode, body: Bytes }
  impl Client {
    pub fn new() -> Client { Client::default() }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { RequestBuilder { inner: self.inner.get(url) } }
  }
  impl RequestBuilder {
    pub fn basic_auth<U: fmt::Display, P: fmt::Display>(self, user: U, password: Option<P>) -> Self { RequestBuilder { inner: self.inner.basic_auth(user, password) } }
    pub fn bearer_auth<T: fmt::Display>(self, token: T) -> Self { RequestBuilder { inner: self.inner.bearer_auth(token) } }
    pub fn send(self) -> Result<Response, Error> { answer(self.inner.parts).map(|r| Response { status: r.status, body: r.body }) }
  }
  impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> {
      serde_json::from_slice(&self.body).map_err(|_| Error("error decoding response body".to_string()))
    }
  }
}

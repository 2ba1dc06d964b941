//! Stand-in for the HTTP library with the interface that the client uses: requests are remembered,
//! and answers are the ones that were prepared. Requests that the real library refuses to build
//! fail in the same way.
use http::header::{HeaderName, HeaderValue, AUTHORIZATION};
pub use http::{header, HeaderMap, Method, StatusCode};
pub use url::Url;
use std::convert::TryFrom;
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Request { pub method: Method, pub url: Url, pub headers: HeaderMap, pub body: Option<Vec<u8>> }
pub struct Body(Vec<u8>);
impl From<Vec<u8>> for Body { fn from(v: Vec<u8>) -> Body { Body(v) } }
impl From<String> for Body { fn from(v: String) -> Body { Body(v.into_bytes()) } }
impl From<&'static str> for Body { fn from(v: &'static str) -> Body { Body(v.as_bytes().to_vec()) } }
impl From<&'static [u8]> for Body { fn from(v: &'static [u8]) -> Body { Body(v.to_vec()) } }

/// What the service says.
#[derive(Clone, Default)]
pub struct Answer { pub status: u16, pub headers: Vec<(String, Vec<u8>)>, pub body: Vec<u8>, pub unreachable: bool, pub cut: bool }
/// The requests so far, and the answers to the next ones.
pub struct Net { pub log: Vec<Request>, pub answers: std::collections::VecDeque<Answer> }
struct Cell(std::cell::UnsafeCell<Option<Net>>);
// Harnesses have only one thread.
unsafe impl Sync for Cell {}
static NET: Cell = Cell(std::cell::UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn net() -> &'static mut Net { unsafe { &mut *NET.0.get() }.get_or_insert_with(|| Net { log: vec![], answers: Default::default() }) }

pub trait IntoUrl { fn into_url(self) -> Result<Url, Error>; }
impl IntoUrl for Url { fn into_url(self) -> Result<Url, Error> { Ok(self) } }
impl IntoUrl for &str { fn into_url(self) -> Result<Url, Error> { Url::parse(self).map_err(|e| Error(format!("builder error: {}", e))) } }
impl IntoUrl for String { fn into_url(self) -> Result<Url, Error> { self.as_str().into_url() } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url, Error> { self.as_str().into_url() } }

#[derive(Clone, Default)]
pub struct Client(());
impl Client {
    pub fn new() -> Client { Client(()) }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder { RequestBuilder(url.into_url().map(|url| Request { method, url, headers: HeaderMap::new(), body: None })) }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::GET, url) }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::POST, url) }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PUT, url) }
    pub fn patch<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PATCH, url) }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::DELETE, url) }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::HEAD, url) }
}
pub struct RequestBuilder(Result<Request, Error>);
impl RequestBuilder {
    pub fn header<K, V>(mut self, key: K, value: V) -> RequestBuilder
    where HeaderName: TryFrom<K>, <HeaderName as TryFrom<K>>::Error: Into<http::Error>, HeaderValue: TryFrom<V>, <HeaderValue as TryFrom<V>>::Error: Into<http::Error> {
        let mut err = None;
        if let Ok(r) = &mut self.0 {
            match HeaderName::try_from(key) {
                Ok(k) => match HeaderValue::try_from(value) { Ok(v) => { r.headers.append(k, v); } Err(e) => err = Some(e.into().to_string()) },
                Err(e) => err = Some(e.into().to_string()),
            }
        }
        if let Some(e) = err { self.0 = Err(Error(format!("builder error: {}", e))); }
        self
    }
    /// Replaces those that are there already, as the library does.
    pub fn headers(mut self, headers: HeaderMap) -> RequestBuilder {
        if let Ok(r) = &mut self.0 {
            let mut last = None;
            for (k, v) in headers {
                match k { Some(k) => { r.headers.insert(k.clone(), v); last = Some(k); } None => { r.headers.append(last.clone().unwrap(), v); } }
            }
        }
        self
    }
    pub fn basic_auth<U: fmt::Display, P: fmt::Display>(self, user: U, pass: Option<P>) -> RequestBuilder {
        let text = match pass { Some(p) => format!("{}:{}", user, p), None => format!("{}:", user) };
        self.header(AUTHORIZATION, format!("Basic {}", base64(text.as_bytes())))
    }
    pub fn bearer_auth<T: fmt::Display>(self, token: T) -> RequestBuilder { self.header(AUTHORIZATION, format!("Bearer {}", token)) }
    pub fn body<T: Into<Body>>(mut self, body: T) -> RequestBuilder { if let Ok(r) = &mut self.0 { r.body = Some(body.into().0); } self }
    pub async fn send(self) -> Result<Response, Error> {
        let r = self.0?;
        let n = net();
        let url = r.url.clone();
        n.log.push(r);
        let a = n.answers.pop_front().unwrap_or_default();
        if a.unreachable || a.status == 0 { return Err(Error("error sending request".into())); }
        let mut headers = HeaderMap::new();
        for (k, v) in &a.headers { headers.append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap()); }
        Ok(Response { url, status: StatusCode::from_u16(a.status).unwrap(), headers, body: if a.cut { Err(Error("error reading a body from connection".into())) } else { Ok(a.body) } })
    }
}
#[derive(Debug)]
pub struct Response { url: Url, status: StatusCode, headers: HeaderMap, body: Result<Vec<u8>, Error> }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub async fn bytes(self) -> Result<bytes::Bytes, Error> { self.body.map(bytes::Bytes::from) }
    pub fn url(&self) -> &Url { &self.url }
    pub fn content_length(&self) -> Option<u64> { self.body.as_ref().ok().map(|b| b.len() as u64) }
    pub async fn text(self) -> Result<String, Error> { self.body.map(|b| String::from_utf8_lossy(&b).into_owned()) }
}
fn base64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 { o.push(if k <= c.len() { T[(n >> (18 - 6 * k) & 63) as usize] as char } else { '=' }); }
    }
    o
}

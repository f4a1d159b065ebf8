pub use sp_core::offchain::*;
pub trait OffchainStorage: Clone + Send + Sync { fn set(&mut self, p: &[u8], k: &[u8], v: &[u8]); fn remove(&mut self, p: &[u8], k: &[u8]); fn get(&self, p: &[u8], k: &[u8]) -> Option<Vec<u8>>; }
pub mod storage {}
pub mod http {
	use super::*;
	#[derive(Clone, PartialEq, Eq, Debug)] pub enum Error { DeadlineReached, IoError, Unknown }
	#[derive(Clone, PartialEq, Eq, Debug)] pub struct Request<'a, T> { pub method: &'static str, pub url: &'a str, pub body: T, pub deadline: Option<Timestamp>, headers: Vec<(String, String)> }
	impl<'a, T: Default> Request<'a, T> { pub fn new(url: &'a str) -> Self { Request { method: "GET", url, body: Default::default(), deadline: None, headers: vec![] } } }
	impl<'a> Request<'a, ()> { pub fn get(url: &'a str) -> Request<'a, Vec<&'static [u8]>> { Request { method: "GET", url, body: vec![], deadline: None, headers: vec![] } } }
	impl<'a, T> Request<'a, T> {
		pub fn post(url: &'a str, body: T) -> Self { Request { method: "POST", url, body, deadline: None, headers: vec![] } }
		pub fn add_header(mut self, n: &str, v: &str) -> Self { self.headers.push((n.into(), v.into())); self }
		pub fn deadline(mut self, d: Timestamp) -> Self { self.deadline = Some(d); self }
	}
	impl<'a, I: AsRef<[u8]>, T: IntoIterator<Item = I>> Request<'a, T> { pub fn send(self) -> Result<PendingRequest, HttpError> { Ok(PendingRequest(testing::PendingRequest { method: self.method.into(), uri: self.url.into(), headers: self.headers, body: self.body.into_iter().flat_map(|b| b.as_ref().to_vec()).collect(), sent: true, ..Default::default() })) } }
	#[derive(Debug)] pub struct PendingRequest(testing::PendingRequest);
	pub type HttpResult = Result<Response, Error>;
	impl PendingRequest {
		pub fn wait(self) -> HttpResult { match sp_io::offchain::http_exchange(&self.0) { Ok(b) => Ok(Response { code: 200, body: b }), Err(HttpError::DeadlineReached) => Err(Error::DeadlineReached), Err(_) => Err(Error::IoError) } }
		pub fn try_wait(self, _: impl Into<Option<Timestamp>>) -> Result<HttpResult, PendingRequest> { Ok(self.wait()) }
	}
	#[derive(Debug)] pub struct Response { pub code: u16, body: Vec<u8> }
	impl Response { pub fn body(&self) -> std::vec::IntoIter<u8> { self.body.clone().into_iter() } }
}

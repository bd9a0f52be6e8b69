//! The blocking client of reqwest, whose network is a function.
use std::fmt;
use std::io::Read;
use std::sync::OnceLock;

pub struct Request {
    pub url: String,
    /// The root certificates that were added, as they were in their files.
    pub certs: Vec<Vec<u8>>,
}
pub enum Reply {
    /// Status and body.
    Http(u16, Box<dyn Read + Send>),
    /// No connection.
    Down,
}
type Net = Box<dyn Fn(Request) -> Reply + Send + Sync>;
static NET: OnceLock<Net> = OnceLock::new();
pub fn network(f: impl Fn(Request) -> Reply + Send + Sync + 'static) {
    let _ = NET.set(Box::new(f));
}

#[derive(Clone, Debug)]
pub struct Certificate(Vec<u8>);
impl Certificate {
    pub fn from_pem(pem: &[u8]) -> Result<Self> {
        if pem.starts_with(b"-----BEGIN CERTIFICATE-----") {
            Ok(Self(pem.to_vec()))
        } else {
            Err(Error { what: "builder error: not a certificate".into(), status: None })
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const OK: StatusCode = StatusCode(200);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Debug for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Debug)]
pub struct Error {
    what: String,
    status: Option<StatusCode>,
}
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        self.status
    }
    pub fn is_status(&self) -> bool {
        self.status.is_some()
    }
    pub fn is_connect(&self) -> bool {
        self.status.is_none()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.what)
    }
}
impl std::error::Error for Error {}

pub trait IntoUrl {
    fn url(self) -> String;
}
impl IntoUrl for &str {
    fn url(self) -> String {
        self.to_owned()
    }
}
impl IntoUrl for &String {
    fn url(self) -> String {
        self.clone()
    }
}
impl IntoUrl for String {
    fn url(self) -> String {
        self
    }
}

pub mod blocking {
    use super::*;

    #[derive(Default)]
    pub struct ClientBuilder {
        certs: Vec<Vec<u8>>,
    }
    impl ClientBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn add_root_certificate(mut self, c: Certificate) -> Self {
            self.certs.push(c.0);
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client { certs: self.certs })
        }
    }
    #[derive(Clone, Default)]
    pub struct Client {
        certs: Vec<Vec<u8>>,
    }
    impl Client {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder::default()
        }
        pub fn get(&self, url: impl IntoUrl) -> RequestBuilder {
            RequestBuilder { certs: self.certs.clone(), url: url.url() }
        }
    }
    pub struct RequestBuilder {
        certs: Vec<Vec<u8>>,
        url: String,
    }
    impl RequestBuilder {
        pub fn send(self) -> Result<Response> {
            match NET.get().expect("no network")(Request { url: self.url, certs: self.certs }) {
                Reply::Http(status, body) => Ok(Response { status: StatusCode(status), body }),
                Reply::Down => Err(Error { what: "error sending request".into(), status: None }),
            }
        }
    }
    pub fn get(url: impl IntoUrl) -> Result<Response> {
        Client::new().get(url).send()
    }

    pub struct Response {
        status: StatusCode,
        body: Box<dyn Read + Send>,
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            self.status
        }
        pub fn error_for_status(self) -> Result<Self> {
            if self.status.is_client_error() || self.status.is_server_error() {
                Err(Error { what: format!("HTTP status error ({})", self.status), status: Some(self.status) })
            } else {
                Ok(self)
            }
        }
        pub fn bytes(mut self) -> Result<Vec<u8>> {
            let mut v = vec![];
            self.body.read_to_end(&mut v).map_err(|e| Error { what: e.to_string(), status: None })?;
            Ok(v)
        }
    }
    impl Read for Response {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.body.read(b)
        }
    }
}

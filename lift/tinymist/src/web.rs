//! What `hyper` and its companions do for the preview's server, in little: HTTP/1.1
//! over real sockets. Websockets are pairs of channels, that a page leaves in
//! `PAGES` under the number its request names.

pub mod tinymist_assets {
    pub const TYPST_PREVIEW_HTML: &str = "<html>ws://127.0.0.1:23625|preview-arg:previewMode:Doc</html>";
}

pub mod hyper {
    pub mod header {
        pub use crate::tool::preview::HeaderValue;
        pub const CONTENT_TYPE: &str = "Content-Type";
        pub const LOCATION: &str = "Location";
        #[derive(Default)]
        pub struct HeaderMap(pub Vec<(String, HeaderValue)>);
        impl HeaderMap {
            pub fn get(&self, name: &str) -> Option<&HeaderValue> {
                self.0.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v)
            }
        }
    }
    pub mod body {
        pub struct Incoming;
        #[derive(Clone)]
        pub struct Bytes(pub std::sync::Arc<Vec<u8>>);
        impl From<String> for Bytes {
            fn from(s: String) -> Self {
                Self(std::sync::Arc::new(s.into_bytes()))
            }
        }
    }
    pub mod service {
        pub fn service_fn<F>(f: F) -> F {
            f
        }
    }
    pub struct Uri(pub String);
    impl Uri {
        pub fn path(&self) -> &str {
            self.0.split('?').next().unwrap_or("")
        }
    }
    pub struct Request<B> {
        pub uri: Uri,
        pub headers: header::HeaderMap,
        pub body: B,
    }
    impl<B> Request<B> {
        pub fn headers(&self) -> &header::HeaderMap {
            &self.headers
        }
        pub fn uri(&self) -> &Uri {
            &self.uri
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct StatusCode(pub u16);
    impl StatusCode {
        pub const OK: Self = Self(200);
        pub const FOUND: Self = Self(302);
        pub const SWITCHING_PROTOCOLS: Self = Self(101);
    }
    pub struct Response<B> {
        pub status: StatusCode,
        pub headers: Vec<(String, String)>,
        pub body: B,
    }
    pub struct ResponseBuilder(StatusCode, Vec<(String, String)>);
    impl Response<()> {
        pub fn builder() -> ResponseBuilder {
            ResponseBuilder(StatusCode::OK, vec![])
        }
    }
    impl ResponseBuilder {
        pub fn status(mut self, s: StatusCode) -> Self {
            self.0 = s;
            self
        }
        pub fn header(mut self, k: &str, v: &str) -> Self {
            self.1.push((k.to_owned(), v.to_owned()));
            self
        }
        pub fn body<B>(self, body: B) -> Result<Response<B>, std::convert::Infallible> {
            Ok(Response { status: self.0, headers: self.1, body })
        }
    }
}
pub mod http_body_util {
    pub struct Full<B>(pub Option<B>);
    impl<B> From<B> for Full<B> {
        fn from(b: B) -> Self {
            Self(Some(b))
        }
    }
    impl<B> Default for Full<B> {
        fn default() -> Self {
            Self(None)
        }
    }
}

type Body = http_body_util::Full<hyper::body::Bytes>;
type Answer = anyhow::Result<hyper::Response<Body>>;

pub mod hyper_util {
    pub mod rt {
        pub struct TokioIo<T>(pub T);
        impl<T> TokioIo<T> {
            pub fn new(t: T) -> Self {
                Self(t)
            }
        }
        #[derive(Clone, Default)]
        pub struct TokioExecutor;
        impl TokioExecutor {
            pub fn new() -> Self {
                Self
            }
        }
    }
    pub mod server {
        pub mod conn {
            pub mod auto {
                use super::super::super::super::{serve, Answer};
                use super::super::super::rt::TokioIo;
                use crate::web::hyper::{body::Incoming, Request};
                use std::future::Future;
                use std::pin::Pin;
                pub struct Builder<E>(#[allow(dead_code)] E);
                pub struct Connection(pub Box<dyn FnOnce(tokio::sync::watch::Receiver<bool>) -> Pin<Box<dyn Future<Output = anyhow::Result<()>> + Send>> + Send>);
                impl Connection {
                    pub fn into_owned(self) -> Self {
                        self
                    }
                }
                pub struct Http1;
                impl Http1 {
                    pub fn keep_alive(&mut self, _: bool) -> &mut Self {
                        self
                    }
                }
                impl<E> Builder<E> {
                    pub fn new(e: E) -> Self {
                        Self(e)
                    }
                    pub fn http1(&mut self) -> Http1 {
                        Http1
                    }
                    pub fn serve_connection_with_upgrades<F, Fut>(&self, io: TokioIo<tokio::net::TcpStream>, f: F) -> Connection
                    where
                        F: Fn(Request<Incoming>) -> Fut + Send + Sync + 'static,
                        Fut: Future<Output = Answer> + Send + 'static,
                    {
                        Connection(Box::new(move |stop| Box::pin(serve(io.0, f, stop))))
                    }
                }
            }
        }
        pub mod graceful {
            use super::conn::auto::Connection;
            use std::future::Future;
            pub struct GracefulShutdown(tokio::sync::watch::Sender<bool>);
            impl GracefulShutdown {
                pub fn new() -> Self {
                    Self(tokio::sync::watch::channel(false).0)
                }
                pub fn watch(&self, c: Connection) -> impl Future<Output = anyhow::Result<()>> + Send + 'static {
                    let rx = self.0.subscribe();
                    (c.0)(rx)
                }
                pub async fn shutdown(self) {
                    self.0.send_replace(true);
                    self.0.closed().await;
                }
            }
        }
    }
}

/// Serves the requests of a connection one after another.
async fn serve<F, Fut>(mut io: tokio::net::TcpStream, f: F, mut stop: tokio::sync::watch::Receiver<bool>) -> anyhow::Result<()>
where
    F: Fn(hyper::Request<hyper::body::Incoming>) -> Fut + Send + Sync + 'static,
    Fut: std::future::Future<Output = Answer> + Send + 'static,
{
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let mut got = vec![];
    loop {
        let end = loop {
            if let Some(i) = got.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            let mut buf = [0; 1024];
            if *stop.borrow() && got.is_empty() {
                return Ok(());
            }
            tokio::select! {
                n = io.read(&mut buf) => match n? {
                    0 => return Ok(()),
                    n => got.extend(&buf[..n]),
                },
                _ = stop.changed(), if got.is_empty() => return Ok(()),
            }
        };
        let head: Vec<u8> = got.drain(..end + 4).collect();
        let mut lines = head.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
        let first = String::from_utf8_lossy(lines.next().unwrap_or_default()).into_owned();
        let uri = first.split(' ').nth(1).unwrap_or("/").to_owned();
        let headers = lines.filter_map(|l| {
            let i = l.iter().position(|b| *b == b':')?;
            let v = l[i + 1..].trim_ascii();
            Some((String::from_utf8_lossy(&l[..i]).into_owned(), hyper::header::HeaderValue(v.to_vec())))
        });
        let headers = hyper::header::HeaderMap(headers.collect());
        let req = hyper::Request { uri: hyper::Uri(uri), headers, body: hyper::body::Incoming };
        let resp = f(req).await?;
        let body = resp.body.0.map(|b| b.0.to_vec()).unwrap_or_default();
        let mut out = format!("HTTP/1.1 {} -\r\n", resp.status.0);
        for (k, v) in &resp.headers {
            out += &format!("{k}: {v}\r\n");
        }
        out += &format!("Content-Length: {}\r\n\r\n", body.len());
        let mut out = out.into_bytes();
        out.extend(body);
        io.write_all(&out).await?;
        if resp.status == hyper::StatusCode::SWITCHING_PROTOCOLS {
            return Ok(());
        }
    }
}

pub mod hyper_tungstenite {
    use super::{hyper, Body, PAGES};
    use futures::channel::mpsc;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub mod tungstenite {
        #[derive(Debug, Clone, PartialEq)]
        pub enum Message {
            Text(String),
            Binary(Vec<u8>),
            Ping(Vec<u8>),
        }
        #[derive(Debug)]
        pub struct Error;
        impl std::fmt::Display for Error {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("websocket error")
            }
        }
        impl std::error::Error for Error {}
    }
    use tungstenite::{Error, Message};
    pub struct HyperWebsocketStream {
        pub to: mpsc::UnboundedSender<Message>,
        pub from: mpsc::UnboundedReceiver<Message>,
    }
    impl futures::Sink<Message> for HyperWebsocketStream {
        type Error = Error;
        fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
            Poll::Ready(Ok(()))
        }
        fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> {
            self.to.unbounded_send(m).map_err(|_| Error)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
            self.to.close_channel();
            Poll::Ready(Ok(()))
        }
    }
    impl futures::Stream for HyperWebsocketStream {
        type Item = Result<Message, Error>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            Pin::new(&mut self.from).poll_next(cx).map(|m| m.map(Ok))
        }
    }
    pub type HyperWebsocket = Pin<Box<dyn std::future::Future<Output = Result<HyperWebsocketStream, Error>> + Send>>;
    pub fn is_upgrade_request<B>(r: &hyper::Request<B>) -> bool {
        r.headers().get("Upgrade").is_some_and(|h| h.0 == b"websocket")
    }
    pub fn upgrade<B>(r: &mut hyper::Request<B>, _: Option<()>) -> Result<(hyper::Response<Body>, HyperWebsocket), Error> {
        let n = r.headers().get("X-Page").and_then(|h| h.to_str().ok()).and_then(|s| s.parse().ok()).ok_or(Error)?;
        let page = PAGES.lock().remove(&n).ok_or(Error)?;
        let resp = hyper::Response {
            status: hyper::StatusCode::SWITCHING_PROTOCOLS,
            headers: vec![],
            body: Body::default(),
        };
        Ok((resp, Box::pin(std::future::ready(Ok(page)))))
    }
}
pub static PAGES: parking_lot::Mutex<std::collections::BTreeMap<u64, hyper_tungstenite::HyperWebsocketStream>> = parking_lot::Mutex::new(std::collections::BTreeMap::new());

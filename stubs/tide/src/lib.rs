//! Stand-in for tide (not installed here): an app answers requests that are handed to it in memory.
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

pub use ::http;

pub struct Body(pub Vec<u8>);
pub type Response = ::http::Response<Body>;
pub type EndpointResult<T = Response> = Result<T, error::Error>;

pub mod error {
    #[derive(Debug)]
    pub struct Error(pub ::http::StatusCode);
    pub trait ResultExt<T>: Sized {
        fn client_err(self) -> Result<T, Error>;
    }
    impl<T, E> ResultExt<T> for Result<T, E> {
        fn client_err(self) -> Result<T, Error> {
            self.map_err(|_| Error(::http::StatusCode::BAD_REQUEST))
        }
    }
}

pub mod response {
    use super::{Body, Response};
    pub fn json<T: serde::Serialize>(t: T) -> Response {
        ::http::Response::builder()
            .status(::http::StatusCode::OK)
            .header("Content-Type", "application/json")
            .body(Body(serde_json::to_vec(&t).expect("json")))
            .expect("response")
    }
    pub trait IntoResponse {
        fn into_response(self) -> Response;
    }
    impl IntoResponse for Response {
        fn into_response(self) -> Response {
            self
        }
    }
    impl IntoResponse for ::http::Response<String> {
        fn into_response(self) -> Response {
            self.map(|s| Body(s.into_bytes()))
        }
    }
    impl<T: IntoResponse> IntoResponse for super::EndpointResult<T> {
        fn into_response(self) -> Response {
            match self {
                Ok(r) => r.into_response(),
                Err(e) => ::http::Response::builder().status(e.0).body(Body(vec![])).expect("response"),
            }
        }
    }
}

pub mod middleware {
    use ::http::header::HeaderValue;
    pub struct CorsMiddleware;
    pub struct CorsOrigin;
    impl From<&str> for CorsOrigin {
        fn from(_: &str) -> Self {
            CorsOrigin
        }
    }
    impl CorsMiddleware {
        pub fn new() -> Self {
            CorsMiddleware
        }
        pub fn allow_origin(self, _: CorsOrigin) -> Self {
            self
        }
        pub fn allow_methods(self, _: HeaderValue) -> Self {
            self
        }
    }
}

pub struct Context<S> {
    state: S,
    body:  Vec<u8>,
}
impl<S> Context<S> {
    pub fn state(&self) -> &S {
        &self.state
    }
    pub async fn body_json<T: serde::de::DeserializeOwned>(&mut self) -> std::io::Result<T> {
        serde_json::from_slice(&self.body).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))
    }
}

type Answer = Pin<Box<dyn Future<Output = Response> + Send>>;
type Handler<S> = Box<dyn Fn(Context<S>) -> Answer + Send + Sync>;
type Routes<S> = HashMap<(&'static str, String), Handler<S>>;

pub struct App<S> {
    state:  S,
    routes: Routes<S>,
}
pub struct Route<'a, S> {
    app:  &'a mut App<S>,
    path: String,
}

impl<S: Clone + Send + Sync + 'static> App<S> {
    pub fn with_state(state: S) -> Self {
        App { state, routes: HashMap::new() }
    }
    pub fn middleware<M>(&mut self, _: M) {}
    pub fn at<'a>(&'a mut self, path: &str) -> Route<'a, S> {
        Route { app: self, path: path.to_owned() }
    }
    /// Leaves the app where the harness finds it.
    pub async fn serve<A: std::net::ToSocketAddrs>(self, at: A) -> std::io::Result<()> {
        let App { state, routes } = self;
        if std::env::var("VERIF_NODE").is_ok() {
            return serve_http(std::net::TcpListener::bind(at)?, state, routes);
        }
        let routes = Arc::new(routes);
        SERVED.with(|s| {
            *s.lock().expect("lock") = Some(Box::new(move |method, path, body| {
                let h = routes.iter().find(|(k, _)| k.0 == method && k.1 == path).map(|(_, h)| h)?;
                Some(h(Context { state: state.clone(), body }))
            }))
        });
        Ok(())
    }
}
impl<'a, S: Clone + Send + Sync + 'static> Route<'a, S> {
    fn add<F, R, T>(self, method: &'static str, f: F)
    where
        F: Fn(Context<S>) -> R + Send + Sync + 'static,
        R: Future<Output = T> + Send + 'static,
        T: response::IntoResponse,
    {
        let h: Handler<S> = Box::new(move |c| {
            let fut = f(c);
            Box::pin(async move { response::IntoResponse::into_response(fut.await) })
        });
        self.app.routes.insert((method, self.path), h);
    }
    pub fn post<F, R, T>(self, f: F)
    where
        F: Fn(Context<S>) -> R + Send + Sync + 'static,
        R: Future<Output = T> + Send + 'static,
        T: response::IntoResponse,
    {
        self.add("POST", f)
    }
    pub fn get<F, R, T>(self, f: F)
    where
        F: Fn(Context<S>) -> R + Send + Sync + 'static,
        R: Future<Output = T> + Send + 'static,
        T: response::IntoResponse,
    {
        self.add("GET", f)
    }
}

/// Serves one request after the other, on a thread of its own.
fn serve_http<S: Clone + Send + Sync + 'static>(l: std::net::TcpListener, state: S, routes: Routes<S>) -> std::io::Result<()> {
    use std::io::{BufRead, BufReader, Read, Write};
    std::thread::spawn(move || {
        for c in l.incoming() {
            let answer = || -> Option<()> {
                let mut c = c.ok()?;
                let mut r = BufReader::new(c.try_clone().ok()?);
                let (mut first, mut len) = (String::new(), 0);
                r.read_line(&mut first).ok()?;
                loop {
                    let mut h = String::new();
                    r.read_line(&mut h).ok()?;
                    let h = h.trim().to_lowercase();
                    if h.is_empty() {
                        break;
                    }
                    if h.starts_with("content-length:") {
                        len = h["content-length:".len()..].trim().parse().ok()?;
                    }
                }
                let mut body = vec![0; len];
                r.read_exact(&mut body).ok()?;
                let w: Vec<&str> = first.split(' ').collect();
                let (code, text) = match routes.iter().find(|(k, _)| k.0 == w[0] && k.1 == w[1]) {
                    Some((_, h)) => {
                        let a = wait(h(Context { state: state.clone(), body }));
                        (a.status().as_u16(), a.into_body().0)
                    }
                    None => (404, vec![]),
                };
                write!(c, "HTTP/1.1 {} .\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", code, text.len()).ok()?;
                c.write_all(&text).ok()
            };
            let _ = answer();
        }
    });
    Ok(())
}

/// Not futures' block_on, within which the handlers could not use it themselves.
fn wait(mut f: Answer) -> Response {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    static NOTHING: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &NOTHING), |_| (), |_| (), |_| ());
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &NOTHING)) };
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return r;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}

type Served = Box<dyn Fn(&str, &str, Vec<u8>) -> Option<Answer> + Send>;
thread_local! {
    static SERVED: Mutex<Option<Served>> = Mutex::new(None);
}

/// Used by the harness: the answer of the app served last on this thread.
pub fn request(method: &str, path: &str, body: Vec<u8>) -> Option<Answer> {
    SERVED.with(|s| s.lock().expect("lock").as_ref().and_then(|f| f(method, path, body)))
}

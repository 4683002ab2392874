pub mod axum {
    use std::future::Future;
    pub struct Json<T>(pub T);
    pub mod extract { pub struct State<S>(pub S); }
    pub struct MethodRouter<S> { _p: std::marker::PhantomData<S> }
    pub mod routing {
        pub fn get<H, S>(_h: H) -> super::MethodRouter<S> { unimplemented!() }
        pub fn post<H, S>(_h: H) -> super::MethodRouter<S> { unimplemented!() }
    }
    pub struct Router<S = ()> { _p: std::marker::PhantomData<S> }
    impl<S> Router<S> {
        pub fn new() -> Self { unimplemented!() }
        pub fn route(self, _p: &str, _m: MethodRouter<S>) -> Self { self }
        pub fn with_state(self, _s: S) -> Router<()> { unimplemented!() }
        pub fn into_make_service(self) -> Self { self }
    }
    pub struct Serve;
    impl Serve {
        pub fn with_graceful_shutdown<F>(self, _f: F) -> Self { self }
    }
    impl std::future::IntoFuture for Serve {
        type Output = std::io::Result<()>;
        type IntoFuture = std::future::Ready<std::io::Result<()>>;
        fn into_future(self) -> Self::IntoFuture { std::future::ready(Ok(())) }
    }
    pub fn serve<L, M>(_l: L, _m: M) -> Serve { Serve }
}
pub mod reqwest {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "error") } }
    #[derive(Debug, Clone, Copy)]
    pub struct StatusCode(pub u16);
    impl StatusCode { pub fn is_success(&self) -> bool { self.0 == 200 } }
    impl std::fmt::Display for StatusCode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
    pub struct Response;
    impl Response { pub fn status(&self) -> StatusCode { StatusCode(200) } }
    pub struct RequestBuilder;
    impl RequestBuilder {
        pub fn json<T: ?Sized>(self, _t: &T) -> Self { self }
        pub fn timeout(self, _d: std::time::Duration) -> Self { self }
        pub async fn send(self) -> Result<Response, Error> { Ok(Response) }
    }
    #[derive(Clone, Default)]
    pub struct Client;
    impl Client {
        pub fn new() -> Self { Client }
        pub fn get<T>(&self, _u: T) -> RequestBuilder { RequestBuilder }
        pub fn post<T>(&self, _u: T) -> RequestBuilder { RequestBuilder }
    }
}

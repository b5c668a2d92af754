//! Type-level witnesses: this crate compiles exactly when the obligations hold.
//! Each obligation is one function; a compile error inside it names it.
#![allow(dead_code)]

use progenitor_client::{ByteStream, Error, QueryParam, RequestBuilderExt, ResponseValue};

fn send_sync<T: Send + Sync>() {}
fn send<T: Send>(_: T) {}
fn spawn<F: std::future::Future + Send + 'static>(_: F)
where
    F::Output: Send + 'static,
{
}
fn std_error<T: std::error::Error + 'static>() {}

fn bytestream_send_sync() {
    send_sync::<ByteStream>();
}
fn response_value_send_sync<T: Send + Sync>() {
    send_sync::<ResponseValue<T>>();
}
fn response_value_stream_send_sync() {
    send_sync::<ResponseValue<ByteStream>>();
}
fn error_send_sync<E: Send + Sync>() {
    send_sync::<Error<E>>();
}
fn error_stream_send_sync() {
    send_sync::<Error<ByteStream>>();
}
fn query_param_send_sync<'a, T: Sync + 'a>() {
    send_sync::<QueryParam<'a, T>>();
}
fn error_is_std_error<E: std::fmt::Debug + 'static>() {
    std_error::<Error<E>>();
}
fn error_stream_is_std_error() {
    std_error::<Error<ByteStream>>();
}
fn untyped_error_is_std_error() {
    std_error::<Error>();
}
fn error_into_dynamic<E: std::fmt::Debug + Send + Sync + 'static>(
    e: Error<E>,
) -> Box<dyn std::error::Error + Send + Sync + 'static> {
    Box::new(e)
}
fn error_question_mark<E: std::fmt::Debug + Send + Sync + 'static>(
    r: Result<(), Error<E>>,
) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
    r?;
    Ok(())
}
fn from_response_spawns<
    T: serde::de::DeserializeOwned + Send + 'static,
    E: Send + 'static,
>(
    r: reqwest::Response,
) {
    spawn(ResponseValue::<T>::from_response::<E>(r));
}
fn upgrade_spawns<E: std::fmt::Debug + Send + 'static>(r: reqwest::Response) {
    spawn(ResponseValue::<reqwest::Upgraded>::upgrade::<E>(r));
}
fn form_request_send<T: serde::Serialize>(b: reqwest::RequestBuilder, t: &T) {
    let r: Result<reqwest::RequestBuilder, Error<()>> = b.form_urlencoded(t);
    send(r);
}
fn streaming_response_send(r: reqwest::Response) {
    send(ResponseValue::stream(r));
}

#[cfg(feature = "control")]
mod control {
    //! every function here must be rejected
    use super::*;
    fn control_rc_not_send_sync() {
        send_sync::<ResponseValue<std::rc::Rc<()>>>();
    }
    fn control_error_rc() {
        send_sync::<Error<std::rc::Rc<()>>>();
    }
    fn control_not_debug<E: 'static>() {
        std_error::<Error<E>>();
    }
    fn control_future_not_send(r: std::rc::Rc<()>) {
        spawn(async move { drop(r) });
    }
    fn control_query<'a>(v: QueryParam<'a, std::cell::Cell<u8>>) {
        send(v);
    }
}

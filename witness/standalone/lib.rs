// What a generated stand-alone crate does with the embedded runtime.
mod progenitor_client;

#[allow(unused_imports)]
use progenitor_client::{encode_path, RequestBuilderExt};
#[allow(unused_imports)]
pub use progenitor_client::{ByteStream, Error, ResponseValue};

pub fn names<'a, T: serde::Serialize>(n: &'a str, v: &'a T) -> impl serde::Serialize + 'a {
    progenitor_client::QueryParam::new(n, v)
}

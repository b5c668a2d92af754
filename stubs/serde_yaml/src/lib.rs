//! Type-level stand-in for serde_yaml 0.9.
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn from_reader<R: std::io::Read, T: serde::de::DeserializeOwned>(_: R) -> Result<T> {
    unimplemented!()
}
pub fn from_str<'de, T: serde::Deserialize<'de>>(_: &'de str) -> Result<T> {
    unimplemented!()
}
pub fn from_slice<'de, T: serde::Deserialize<'de>>(_: &'de [u8]) -> Result<T> {
    unimplemented!()
}

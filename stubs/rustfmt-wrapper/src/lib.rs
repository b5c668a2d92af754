//! Type-level stand-in for rustfmt-wrapper 0.2.
#[derive(Debug)]
pub enum Error {
    NoRustfmt,
    Rustfmt(String),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
pub fn rustfmt<T: ToString>(_: T) -> Result<String, Error> {
    unimplemented!()
}
pub fn rustfmt_config<T: ToString>(_: config::Config, _: T) -> Result<String, Error> {
    unimplemented!()
}
pub mod config {
    #[derive(Default, Debug, Clone)]
    pub struct Config {
        pub max_width: Option<usize>,
        pub format_strings: Option<bool>,
        pub wrap_comments: Option<bool>,
        pub normalize_doc_attributes: Option<bool>,
        pub normalize_comments: Option<bool>,
        pub normalize_attributes: Option<bool>,
        pub format_code_in_doc_comments: Option<bool>,
    }
}

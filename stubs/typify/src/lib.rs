//! Type-level stand-in for typify 0.3: signatures only.
#![allow(clippy::all, unused_variables)]
use proc_macro2::TokenStream;
use schemars::schema::{Schema, SchemaObject};
use serde::Deserialize;
use std::collections::BTreeMap;

#[derive(Debug)]
pub enum Error {
    BadValue(String, String),
    InvalidTypeId,
    InvalidValue,
    InvalidSchema { type_name: Option<String>, reason: String },
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Default)]
pub struct TypeSpace {
    next_id: u64,
    settings: TypeSpaceSettings,
    types: BTreeMap<u64, ()>,
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Hash)]
pub struct TypeId(u64);
pub struct Type<'a> {
    type_space: &'a TypeSpace,
    id: u64,
}
pub enum TypeDetails<'a> {
    Enum(TypeEnum<'a>),
    Struct(TypeStruct<'a>),
    Newtype(TypeNewtype<'a>),
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId, TypeId),
    Set(TypeId),
    Box(TypeId),
    Tuple(Box<dyn Iterator<Item = TypeId> + 'a>),
    Array(TypeId, usize),
    Builtin(&'a str),
    Unit,
    String,
}
pub struct TypeEnum<'a> {
    type_space: &'a TypeSpace,
}
pub enum TypeEnumVariant<'a> {
    Simple,
    Tuple(Vec<TypeId>),
    Struct(Vec<(&'a str, TypeId)>),
}
pub struct TypeStruct<'a> {
    type_space: &'a TypeSpace,
}
pub struct TypeStructPropInfo<'a> {
    pub name: &'a str,
    pub description: Option<&'a str>,
    pub required: bool,
    pub type_id: TypeId,
}
pub struct TypeNewtype<'a> {
    type_space: &'a TypeSpace,
}
#[derive(Default, Debug, Clone)]
pub struct TypeSpaceSettings {
    type_mod: Option<String>,
    extra_derives: Vec<String>,
    struct_builder: bool,
}
#[derive(Debug, Copy, Clone, PartialEq, Eq, Deserialize, Default)]
pub enum UnknownPolicy {
    #[default]
    Generate,
    Allow,
    Deny,
}
#[derive(Debug, Clone)]
pub enum CrateVers {
    Version(String),
    Any,
    Never,
}
impl CrateVers {
    pub fn parse(s: &str) -> Option<Self> {
        unimplemented!()
    }
}
#[derive(Debug, Default, Clone)]
pub struct TypeSpacePatch {
    rename: Option<String>,
    derives: Vec<String>,
}
impl TypeSpacePatch {
    pub fn with_rename<S: ToString>(&mut self, rename: S) -> &mut Self {
        unimplemented!()
    }
    pub fn with_derive<S: ToString>(&mut self, derive: S) -> &mut Self {
        unimplemented!()
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[non_exhaustive]
pub enum TypeSpaceImpl {
    FromStr,
    FromStringIrrefutable,
    Display,
    Default,
}
impl std::str::FromStr for TypeSpaceImpl {
    type Err = String;
    fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
        unimplemented!()
    }
}
impl TypeSpaceSettings {
    pub fn with_type_mod<S: AsRef<str>>(&mut self, type_mod: S) -> &mut Self {
        unimplemented!()
    }
    pub fn with_derive(&mut self, derive: String) -> &mut Self {
        unimplemented!()
    }
    pub fn with_struct_builder(&mut self, struct_builder: bool) -> &mut Self {
        unimplemented!()
    }
    pub fn with_replacement<TS: ToString, RS: ToString, I: Iterator<Item = TypeSpaceImpl>>(&mut self, type_name: TS, replace_type: RS, impls: I) -> &mut Self {
        unimplemented!()
    }
    pub fn with_patch<S: ToString>(&mut self, type_name: S, type_patch: &TypeSpacePatch) -> &mut Self {
        unimplemented!()
    }
    pub fn with_conversion<S: ToString, I: Iterator<Item = TypeSpaceImpl>>(&mut self, schema: SchemaObject, type_name: S, impls: I) -> &mut Self {
        unimplemented!()
    }
    pub fn with_unknown_crates(&mut self, policy: UnknownPolicy) -> &mut Self {
        unimplemented!()
    }
    pub fn with_crate<S1: ToString>(&mut self, crate_name: S1, version: CrateVers, rename: Option<&String>) -> &mut Self {
        unimplemented!()
    }
    pub fn with_map_type<T: ToString>(&mut self, map_type: T) -> &mut Self {
        unimplemented!()
    }
}
impl TypeSpace {
    pub fn new(settings: &TypeSpaceSettings) -> Self {
        unimplemented!()
    }
    pub fn add_ref_types<I, S>(&mut self, type_defs: I) -> Result<()>
    where
        I: IntoIterator<Item = (S, Schema)>,
        S: AsRef<str>,
    {
        unimplemented!()
    }
    pub fn add_type(&mut self, schema: &Schema) -> Result<TypeId> {
        unimplemented!()
    }
    pub fn add_type_with_name(&mut self, schema: &Schema, name_hint: Option<String>) -> Result<TypeId> {
        unimplemented!()
    }
    pub fn get_type(&self, type_id: &TypeId) -> Result<Type> {
        unimplemented!()
    }
    pub fn uses_chrono(&self) -> bool {
        unimplemented!()
    }
    pub fn uses_regress(&self) -> bool {
        unimplemented!()
    }
    pub fn uses_serde_json(&self) -> bool {
        unimplemented!()
    }
    pub fn uses_uuid(&self) -> bool {
        unimplemented!()
    }
    pub fn iter_types(&self) -> impl Iterator<Item = Type> {
        self.types.iter().map(|(id, _)| Type { type_space: self, id: *id })
    }
    pub fn to_stream(&self) -> TokenStream {
        unimplemented!()
    }
}
impl<'a> Type<'a> {
    pub fn name(&self) -> String {
        unimplemented!()
    }
    pub fn ident(&self) -> TokenStream {
        unimplemented!()
    }
    pub fn parameter_ident(&self) -> TokenStream {
        unimplemented!()
    }
    pub fn parameter_ident_with_lifetime(&self, lifetime: &str) -> TokenStream {
        unimplemented!()
    }
    pub fn describe(&self) -> String {
        unimplemented!()
    }
    pub fn details(&self) -> TypeDetails {
        unimplemented!()
    }
    pub fn has_impl(&self, impl_name: TypeSpaceImpl) -> bool {
        unimplemented!()
    }
    pub fn builder(&self) -> Option<TokenStream> {
        unimplemented!()
    }
}
impl<'a> TypeEnum<'a> {
    pub fn variants(&'a self) -> impl Iterator<Item = (&'a str, TypeEnumVariant<'a>)> {
        std::iter::empty()
    }
    pub fn variants_info(&'a self) -> impl Iterator<Item = (&'a str, TypeEnumVariant<'a>)> {
        std::iter::empty()
    }
}
impl<'a> TypeStruct<'a> {
    pub fn properties(&'a self) -> impl Iterator<Item = (&'a str, TypeId)> {
        std::iter::empty()
    }
    pub fn properties_info(&'a self) -> impl Iterator<Item = TypeStructPropInfo<'a>> {
        std::iter::empty()
    }
}
impl<'a> TypeNewtype<'a> {
    pub fn subtype(&self) -> TypeId {
        unimplemented!()
    }
}

//! Type-level stand-in for openapiv3 2.0.0: the public data model, so that the
//! generator type-checks here without the real crate. Only types matter.
#![allow(clippy::all)]
use indexmap::IndexMap;
use serde::{Deserialize, Serialize};

pub type Extensions = IndexMap<String, serde_json::Value>;
pub type Content = IndexMap<String, MediaType>;
pub type Callback = IndexMap<String, PathItem>;
pub type SecurityRequirement = IndexMap<String, Vec<String>>;

macro_rules! model {
    ($($(#[$m:meta])* struct $n:ident { $($f:ident : $t:ty,)* })*) => {$(
        $(#[$m])*
        #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
        pub struct $n { $(pub $f: $t,)* }
    )*};
}

model! {
    #[derive(Default)] struct OpenAPI { openapi: String, info: Info, servers: Vec<Server>, paths: Paths, components: Option<Components>, security: Option<Vec<SecurityRequirement>>, tags: Vec<Tag>, external_docs: Option<ExternalDocumentation>, extensions: Extensions, }
    #[derive(Default)] struct Info { title: String, description: Option<String>, terms_of_service: Option<String>, contact: Option<Contact>, license: Option<License>, version: String, extensions: Extensions, }
    #[derive(Default)] struct Contact { name: Option<String>, url: Option<String>, email: Option<String>, extensions: Extensions, }
    #[derive(Default)] struct License { name: String, url: Option<String>, extensions: Extensions, }
    #[derive(Default)] struct Server { url: String, description: Option<String>, variables: Option<IndexMap<String, ServerVariable>>, extensions: Extensions, }
    #[derive(Default)] struct ServerVariable { enumeration: Vec<String>, default: String, description: Option<String>, extensions: Extensions, }
    #[derive(Default)] struct Tag { name: String, description: Option<String>, external_docs: Option<ExternalDocumentation>, extensions: Extensions, }
    #[derive(Default)] struct ExternalDocumentation { description: Option<String>, url: String, extensions: Extensions, }
    #[derive(Default)] struct Components { security_schemes: IndexMap<String, ReferenceOr<SecurityScheme>>, responses: IndexMap<String, ReferenceOr<Response>>, parameters: IndexMap<String, ReferenceOr<Parameter>>, examples: IndexMap<String, ReferenceOr<Example>>, request_bodies: IndexMap<String, ReferenceOr<RequestBody>>, headers: IndexMap<String, ReferenceOr<Header>>, schemas: IndexMap<String, ReferenceOr<Schema>>, links: IndexMap<String, ReferenceOr<Link>>, callbacks: IndexMap<String, ReferenceOr<Callback>>, extensions: Extensions, }
    #[derive(Default)] struct Paths { paths: IndexMap<String, ReferenceOr<PathItem>>, extensions: Extensions, }
    #[derive(Default)] struct PathItem { summary: Option<String>, description: Option<String>, get: Option<Operation>, put: Option<Operation>, post: Option<Operation>, delete: Option<Operation>, options: Option<Operation>, head: Option<Operation>, patch: Option<Operation>, trace: Option<Operation>, servers: Vec<Server>, parameters: Vec<ReferenceOr<Parameter>>, extensions: Extensions, }
    #[derive(Default)] struct Operation { tags: Vec<String>, summary: Option<String>, description: Option<String>, external_docs: Option<ExternalDocumentation>, operation_id: Option<String>, parameters: Vec<ReferenceOr<Parameter>>, request_body: Option<ReferenceOr<RequestBody>>, responses: Responses, callbacks: IndexMap<String, Callback>, deprecated: bool, security: Option<Vec<SecurityRequirement>>, servers: Vec<Server>, extensions: Extensions, }
    #[derive(Default)] struct RequestBody { description: Option<String>, content: Content, required: bool, extensions: Extensions, }
    #[derive(Default)] struct MediaType { schema: Option<ReferenceOr<Schema>>, example: Option<serde_json::Value>, examples: IndexMap<String, ReferenceOr<Example>>, encoding: IndexMap<String, Encoding>, extensions: Extensions, }
    #[derive(Default)] struct Encoding { content_type: Option<String>, headers: IndexMap<String, ReferenceOr<Header>>, style: Option<QueryStyle>, explode: bool, allow_reserved: bool, extensions: Extensions, }
    #[derive(Default)] struct Responses { default: Option<ReferenceOr<Response>>, responses: IndexMap<StatusCode, ReferenceOr<Response>>, extensions: Extensions, }
    #[derive(Default)] struct Response { description: String, headers: IndexMap<String, ReferenceOr<Header>>, content: Content, links: IndexMap<String, ReferenceOr<Link>>, extensions: Extensions, }
    #[derive(Default)] struct Example { summary: Option<String>, description: Option<String>, value: Option<serde_json::Value>, external_value: Option<String>, extensions: Extensions, }
    #[derive(Default)] struct Link { description: Option<String>, parameters: IndexMap<String, serde_json::Value>, server: Option<Server>, extensions: Extensions, }
    struct Header { description: Option<String>, style: HeaderStyle, required: bool, deprecated: Option<bool>, format: ParameterSchemaOrContent, example: Option<serde_json::Value>, examples: IndexMap<String, ReferenceOr<Example>>, extensions: Extensions, }
    struct ParameterData { name: String, description: Option<String>, required: bool, deprecated: Option<bool>, format: ParameterSchemaOrContent, example: Option<serde_json::Value>, examples: IndexMap<String, ReferenceOr<Example>>, explode: Option<bool>, extensions: Extensions, }
    #[derive(Default)] struct SchemaData { nullable: bool, read_only: bool, write_only: bool, deprecated: bool, external_docs: Option<ExternalDocumentation>, example: Option<serde_json::Value>, title: Option<String>, description: Option<String>, discriminator: Option<Discriminator>, default: Option<serde_json::Value>, extensions: Extensions, }
    struct Schema { schema_data: SchemaData, schema_kind: SchemaKind, }
    #[derive(Default)] struct Discriminator { property_name: String, mapping: IndexMap<String, String>, extensions: Extensions, }
    #[derive(Default)] struct StringType { format: VariantOrUnknownOrEmpty<StringFormat>, pattern: Option<String>, enumeration: Vec<Option<String>>, min_length: Option<usize>, max_length: Option<usize>, }
    #[derive(Default)] struct NumberType { format: VariantOrUnknownOrEmpty<NumberFormat>, multiple_of: Option<f64>, exclusive_minimum: bool, exclusive_maximum: bool, minimum: Option<f64>, maximum: Option<f64>, enumeration: Vec<Option<f64>>, }
    #[derive(Default)] struct IntegerType { format: VariantOrUnknownOrEmpty<IntegerFormat>, multiple_of: Option<i64>, exclusive_minimum: bool, exclusive_maximum: bool, minimum: Option<i64>, maximum: Option<i64>, enumeration: Vec<Option<i64>>, }
    #[derive(Default)] struct ObjectType { properties: IndexMap<String, ReferenceOr<Box<Schema>>>, required: Vec<String>, additional_properties: Option<AdditionalProperties>, min_properties: Option<usize>, max_properties: Option<usize>, }
    struct ArrayType { items: Option<ReferenceOr<Box<Schema>>>, min_items: Option<usize>, max_items: Option<usize>, unique_items: bool, }
    #[derive(Default)] struct BooleanType { enumeration: Vec<Option<bool>>, }
    #[derive(Default)] struct AnySchema { typ: Option<String>, pattern: Option<String>, multiple_of: Option<f64>, exclusive_minimum: Option<bool>, exclusive_maximum: Option<bool>, minimum: Option<f64>, maximum: Option<f64>, properties: IndexMap<String, ReferenceOr<Box<Schema>>>, required: Vec<String>, additional_properties: Option<AdditionalProperties>, min_properties: Option<usize>, max_properties: Option<usize>, items: Option<ReferenceOr<Box<Schema>>>, min_items: Option<usize>, max_items: Option<usize>, unique_items: Option<bool>, enumeration: Vec<serde_json::Value>, format: Option<String>, min_length: Option<usize>, max_length: Option<usize>, one_of: Vec<ReferenceOr<Schema>>, all_of: Vec<ReferenceOr<Schema>>, any_of: Vec<ReferenceOr<Schema>>, not: Option<Box<ReferenceOr<Schema>>>, }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum ReferenceOr<T> {
    Reference { reference: String },
    Item(T),
}

impl<T> ReferenceOr<T> {
    pub fn ref_(r: &str) -> Self {
        ReferenceOr::Reference { reference: r.to_owned() }
    }
    pub fn boxed_item(item: T) -> ReferenceOr<Box<T>> {
        ReferenceOr::Item(Box::new(item))
    }
    pub fn into_item(self) -> Option<T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_item(&self) -> Option<&T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_ref(&self) -> ReferenceOr<&T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference: reference.clone() },
            ReferenceOr::Item(i) => ReferenceOr::Item(i),
        }
    }
    pub fn as_mut(&mut self) -> ReferenceOr<&mut T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference: reference.clone() },
            ReferenceOr::Item(i) => ReferenceOr::Item(i),
        }
    }
}

impl<T> ReferenceOr<Box<T>> {
    pub fn unbox(self) -> ReferenceOr<T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
            ReferenceOr::Item(boxed) => ReferenceOr::Item(*boxed),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum ParameterSchemaOrContent {
    Schema(ReferenceOr<Schema>),
    Content(Content),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Parameter {
    Query { parameter_data: ParameterData, allow_reserved: bool, style: QueryStyle, allow_empty_value: Option<bool> },
    Header { parameter_data: ParameterData, style: HeaderStyle },
    Path { parameter_data: ParameterData, style: PathStyle },
    Cookie { parameter_data: ParameterData, style: CookieStyle },
}

impl Parameter {
    pub fn parameter_data(self) -> ParameterData {
        match self {
            Parameter::Query { parameter_data, .. } => parameter_data,
            Parameter::Header { parameter_data, .. } => parameter_data,
            Parameter::Path { parameter_data, .. } => parameter_data,
            Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
    pub fn parameter_data_ref(&self) -> &ParameterData {
        match self {
            Parameter::Query { parameter_data, .. } => parameter_data,
            Parameter::Header { parameter_data, .. } => parameter_data,
            Parameter::Path { parameter_data, .. } => parameter_data,
            Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
}

macro_rules! styles {
    ($($(#[$m:meta])* enum $n:ident { $($v:ident,)* })*) => {$(
        $(#[$m])*
        #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
        pub enum $n { $($v,)* }
    )*};
}

styles! {
    enum PathStyle { Matrix, Label, Simple, }
    enum QueryStyle { Form, SpaceDelimited, PipeDelimited, DeepObject, }
    enum CookieStyle { Form, }
    enum HeaderStyle { Simple, }
    #[derive(Eq, Hash)] enum StringFormat { Date, DateTime, Password, Byte, Binary, }
    #[derive(Eq, Hash)] enum NumberFormat { Float, Double, }
    #[derive(Eq, Hash)] enum IntegerFormat { Int32, Int64, }
    enum APIKeyLocation { Query, Header, Cookie, }
}

impl Default for PathStyle {
    fn default() -> Self {
        PathStyle::Simple
    }
}
impl Default for QueryStyle {
    fn default() -> Self {
        QueryStyle::Form
    }
}
impl Default for CookieStyle {
    fn default() -> Self {
        CookieStyle::Form
    }
}
impl Default for HeaderStyle {
    fn default() -> Self {
        HeaderStyle::Simple
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum SecurityScheme {
    APIKey { location: APIKeyLocation, name: String, description: Option<String>, extensions: Extensions },
    HTTP { scheme: String, bearer_format: Option<String>, description: Option<String>, extensions: Extensions },
    OpenIDConnect { open_id_connect_url: String, description: Option<String>, extensions: Extensions },
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StatusCode {
    Code(u16),
    Range(u16),
}

impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            StatusCode::Code(n) => write!(f, "{}", n),
            StatusCode::Range(n) => write!(f, "{}XX", n),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum SchemaKind {
    Type(Type),
    OneOf { one_of: Vec<ReferenceOr<Schema>> },
    AllOf { all_of: Vec<ReferenceOr<Schema>> },
    AnyOf { any_of: Vec<ReferenceOr<Schema>> },
    Not { not: Box<ReferenceOr<Schema>> },
    Any(AnySchema),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Type {
    String(StringType),
    Number(NumberType),
    Integer(IntegerType),
    Object(ObjectType),
    Array(ArrayType),
    Boolean(BooleanType),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum AdditionalProperties {
    Any(bool),
    Schema(Box<ReferenceOr<Schema>>),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum VariantOrUnknownOrEmpty<T> {
    Item(T),
    Unknown(String),
    Empty,
}

impl<T> Default for VariantOrUnknownOrEmpty<T> {
    fn default() -> Self {
        VariantOrUnknownOrEmpty::Empty
    }
}

impl<T> VariantOrUnknownOrEmpty<T> {
    pub fn is_empty(&self) -> bool {
        matches!(self, VariantOrUnknownOrEmpty::Empty)
    }
}

impl std::ops::Deref for Schema {
    type Target = SchemaData;
    fn deref(&self) -> &SchemaData {
        &self.schema_data
    }
}
impl std::ops::DerefMut for Schema {
    fn deref_mut(&mut self) -> &mut SchemaData {
        &mut self.schema_data
    }
}
impl std::ops::Deref for Paths {
    type Target = IndexMap<String, ReferenceOr<PathItem>>;
    fn deref(&self) -> &Self::Target {
        &self.paths
    }
}

impl Paths {
    pub fn iter(&self) -> indexmap::map::Iter<String, ReferenceOr<PathItem>> {
        self.paths.iter()
    }
}
impl IntoIterator for Paths {
    type Item = (String, ReferenceOr<PathItem>);
    type IntoIter = indexmap::map::IntoIter<String, ReferenceOr<PathItem>>;
    fn into_iter(self) -> Self::IntoIter {
        self.paths.into_iter()
    }
}

impl PathItem {
    pub fn iter(&self) -> impl Iterator<Item = (&str, &Operation)> {
        vec![
            ("get", &self.get),
            ("put", &self.put),
            ("post", &self.post),
            ("delete", &self.delete),
            ("options", &self.options),
            ("head", &self.head),
            ("patch", &self.patch),
            ("trace", &self.trace),
        ]
        .into_iter()
        .filter_map(|(method, maybe_op)| maybe_op.as_ref().map(|op| (method, op)))
    }
}

impl OpenAPI {
    pub fn operations(&self) -> impl Iterator<Item = (&str, &str, &Operation)> {
        self.paths
            .paths
            .iter()
            .filter_map(|(path, item)| item.as_item().map(|i| (path, i)))
            .flat_map(|(path, item)| item.iter().map(move |(method, op)| (path.as_str(), method, op)))
    }
}

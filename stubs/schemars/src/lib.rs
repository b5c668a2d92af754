//! Type-level stand-in for schemars 0.8's schema model.
#![allow(clippy::all)]
pub type Map<K, V> = std::collections::BTreeMap<K, V>;
pub type Set<T> = std::collections::BTreeSet<T>;

pub trait JsonSchema {}

pub mod schema {
    use super::{Map, Set};
    use serde::{Deserialize, Serialize};
    use serde_json::Value;

    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum Schema {
        Bool(bool),
        Object(SchemaObject),
    }
    impl Schema {
        pub fn new_ref(reference: String) -> Self {
            SchemaObject::new_ref(reference).into()
        }
        pub fn is_ref(&self) -> bool {
            match self {
                Schema::Object(o) => o.is_ref(),
                _ => false,
            }
        }
        pub fn into_object(self) -> SchemaObject {
            match self {
                Schema::Object(o) => o,
                Schema::Bool(true) => SchemaObject::default(),
                Schema::Bool(false) => SchemaObject {
                    subschemas: Some(Box::new(SubschemaValidation {
                        not: Some(Schema::Object(Default::default()).into()),
                        ..Default::default()
                    })),
                    ..Default::default()
                },
            }
        }
    }
    impl From<SchemaObject> for Schema {
        fn from(o: SchemaObject) -> Self {
            Schema::Object(o)
        }
    }
    impl From<bool> for Schema {
        fn from(b: bool) -> Self {
            Schema::Bool(b)
        }
    }

    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    pub struct RootSchema {
        pub meta_schema: Option<String>,
        pub schema: SchemaObject,
        pub definitions: Map<String, Schema>,
    }

    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct SchemaObject {
        pub metadata: Option<Box<Metadata>>,
        pub instance_type: Option<SingleOrVec<InstanceType>>,
        pub format: Option<String>,
        pub enum_values: Option<Vec<Value>>,
        pub const_value: Option<Value>,
        pub subschemas: Option<Box<SubschemaValidation>>,
        pub number: Option<Box<NumberValidation>>,
        pub string: Option<Box<StringValidation>>,
        pub array: Option<Box<ArrayValidation>>,
        pub object: Option<Box<ObjectValidation>>,
        pub reference: Option<String>,
        pub extensions: Map<String, Value>,
    }
    macro_rules! get_or_insert {
        ($($n:ident: $t:ty,)*) => {$(
            pub fn $n(&mut self) -> &mut $t {
                self.$n.get_or_insert_with(Default::default)
            }
        )*};
    }
    impl SchemaObject {
        pub fn new_ref(reference: String) -> Self {
            SchemaObject {
                reference: Some(reference),
                ..Default::default()
            }
        }
        pub fn is_ref(&self) -> bool {
            self.reference.is_some()
        }
        pub fn has_type(&self, ty: InstanceType) -> bool {
            self.instance_type.as_ref().map(|x| x.contains(&ty)).unwrap_or(true)
        }
        get_or_insert! {
            metadata: Metadata,
            subschemas: SubschemaValidation,
            number: NumberValidation,
            string: StringValidation,
            array: ArrayValidation,
            object: ObjectValidation,
        }
    }
    impl From<Schema> for SchemaObject {
        fn from(schema: Schema) -> Self {
            schema.into_object()
        }
    }

    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct Metadata {
        pub id: Option<String>,
        pub title: Option<String>,
        pub description: Option<String>,
        pub default: Option<Value>,
        pub deprecated: bool,
        pub read_only: bool,
        pub write_only: bool,
        pub examples: Vec<Value>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct SubschemaValidation {
        pub all_of: Option<Vec<Schema>>,
        pub any_of: Option<Vec<Schema>>,
        pub one_of: Option<Vec<Schema>>,
        pub not: Option<Box<Schema>>,
        pub if_schema: Option<Box<Schema>>,
        pub then_schema: Option<Box<Schema>>,
        pub else_schema: Option<Box<Schema>>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct NumberValidation {
        pub multiple_of: Option<f64>,
        pub maximum: Option<f64>,
        pub exclusive_maximum: Option<f64>,
        pub minimum: Option<f64>,
        pub exclusive_minimum: Option<f64>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct StringValidation {
        pub max_length: Option<u32>,
        pub min_length: Option<u32>,
        pub pattern: Option<String>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct ArrayValidation {
        pub items: Option<SingleOrVec<Schema>>,
        pub additional_items: Option<Box<Schema>>,
        pub max_items: Option<u32>,
        pub min_items: Option<u32>,
        pub unique_items: Option<bool>,
        pub contains: Option<Box<Schema>>,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct ObjectValidation {
        pub max_properties: Option<u32>,
        pub min_properties: Option<u32>,
        pub required: Set<String>,
        pub properties: Map<String, Schema>,
        pub pattern_properties: Map<String, Schema>,
        pub additional_properties: Option<Box<Schema>>,
        pub property_names: Option<Box<Schema>>,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub enum InstanceType {
        Null,
        Boolean,
        Object,
        Array,
        Number,
        String,
        Integer,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum SingleOrVec<T> {
        Single(Box<T>),
        Vec(Vec<T>),
    }
    impl<T> From<T> for SingleOrVec<T> {
        fn from(t: T) -> Self {
            SingleOrVec::Single(Box::new(t))
        }
    }
    impl<T> From<Vec<T>> for SingleOrVec<T> {
        fn from(v: Vec<T>) -> Self {
            SingleOrVec::Vec(v)
        }
    }
    impl<T: PartialEq> SingleOrVec<T> {
        pub fn contains(&self, x: &T) -> bool {
            match self {
                SingleOrVec::Single(s) => &**s == x,
                SingleOrVec::Vec(v) => v.contains(x),
            }
        }
    }
}

//! Stand-in for the TOML parser. `from_str` does not look at the text: it deserialises the document the
//! harness has set, the way the real crate does (integers are 64-bit signed, tables are maps, nothing is
//! ever absent-but-null).
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Value {
    Int(i64),
    Array(Vec<Value>),
    Table(Vec<(&'static str, Value)>),
}

pub mod de {
    #[derive(Debug, Clone, PartialEq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("TOML error")
        }
    }
    impl std::error::Error for Error {}
    impl serde::de::Error for Error {
        fn custom<T: std::fmt::Display>(_: T) -> Self {
            Error
        }
        fn invalid_type(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self {
            Error
        }
        fn invalid_value(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self {
            Error
        }
        fn invalid_length(_: usize, _: &dyn serde::de::Expected) -> Self {
            Error
        }
        fn missing_field(_: &'static str) -> Self {
            Error
        }
        fn duplicate_field(_: &'static str) -> Self {
            Error
        }
    }
}

impl<'de> IntoDeserializer<'de, de::Error> for Value {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

impl<'de> Deserializer<'de> for Value {
    type Error = de::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, de::Error> {
        match self {
            Value::Int(i) => v.visit_i64(i),
            Value::Array(a) => v.visit_seq(SeqDeserializer::new(a.into_iter())),
            Value::Table(t) => v.visit_map(MapDeserializer::new(t.into_iter())),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, de::Error> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, de::Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

thread_local!(static DOCUMENT: RefCell<Option<Value>> = RefCell::new(None));

/// What the next `from_str` reads; `None` is text that is not TOML.
pub fn set_document(v: Option<Value>) {
    DOCUMENT.with(|d| *d.borrow_mut() = v)
}

pub fn from_str<T: DeserializeOwned>(_: &str) -> Result<T, de::Error> {
    match DOCUMENT.with(|d| d.borrow().clone()) {
        Some(v) => T::deserialize(v),
        None => Err(de::Error),
    }
}

//! A serializer which notes what it is given and a deserializer which hands out chosen keys and values.
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};
use std::fmt;

pub const MAX: usize = 8;
/// An empty optional.
pub const NULL: u8 = 255;

#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error
    }
    fn missing_field(_: &'static str) -> Self {
        Error
    }
    fn duplicate_field(_: &'static str) -> Self {
        Error
    }
}

/// What was written: the keys in their order and the values.
pub struct Written {
    pub n: usize,
    pub key: [&'static str; MAX],
    pub val: [u8; MAX],
}
pub struct Writer;
pub struct Fields(Written);
pub struct Value;

macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $( fn $f(self $(, _: $t)*) -> Result<Self::Ok, Error> { Err(Error) } )* };
}
macro_rules! no_compound {
    () => {
        type SerializeSeq = Impossible<Self::Ok, Error>;
        type SerializeTuple = Impossible<Self::Ok, Error>;
        type SerializeTupleStruct = Impossible<Self::Ok, Error>;
        type SerializeTupleVariant = Impossible<Self::Ok, Error>;
        type SerializeMap = Impossible<Self::Ok, Error>;
        type SerializeStructVariant = Impossible<Self::Ok, Error>;
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> { Err(Error) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> { Err(Error) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> { Err(Error) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> { Err(Error) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> { Err(Error) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> { Err(Error) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Error> { Err(Error) }
        no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u16(u16); serialize_u32(u32);
            serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_unit();
            serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    };
}
impl Serializer for Value {
    type Ok = u8;
    type Error = Error;
    type SerializeStruct = Impossible<u8, Error>;
    no_compound! {}
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        Err(Error)
    }
    fn serialize_u8(self, v: u8) -> Result<u8, Error> {
        Ok(v)
    }
    fn serialize_none(self) -> Result<u8, Error> {
        Ok(NULL)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<u8, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<u8, Error> {
        v.serialize(self)
    }
}
impl Serializer for Writer {
    type Ok = Written;
    type Error = Error;
    type SerializeStruct = Fields;
    no_compound! {}
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, Error> {
        Ok(Fields(Written { n: 0, key: [""; MAX], val: [0; MAX] }))
    }
    fn serialize_u8(self, _: u8) -> Result<Written, Error> {
        Err(Error)
    }
    fn serialize_none(self) -> Result<Written, Error> {
        Err(Error)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Written, Error> {
        Err(Error)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Written, Error> {
        Err(Error)
    }
}
impl ser::SerializeStruct for Fields {
    type Ok = Written;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<(), Error> {
        let v = value.serialize(Value)?;
        let w = &mut self.0;
        w.key[w.n] = key;
        w.val[w.n] = v;
        w.n += 1;
        Ok(())
    }
    fn end(self) -> Result<Written, Error> {
        Ok(self.0)
    }
}
pub fn write<T: Serialize>(x: &T) -> Written {
    match x.serialize(Writer) {
        Ok(w) => w,
        Err(_) => panic!("serde: serialises"),
    }
}

/// Hands out `keys[i]` with `vals[i]`, in the order of the array; a key which is not `given` comes as one nobody knows.
pub struct Reader {
    pub n: usize,
    pub key: [&'static str; MAX],
    pub val: [u8; MAX],
    pub given: [bool; MAX],
    pub at: usize,
}
impl Reader {
    pub fn of(w: &Written) -> Self {
        Reader { n: w.n, key: w.key, val: w.val, given: [true; MAX], at: 0 }
    }
}
struct One(u8);
impl<'de> Deserializer<'de> for One {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_u8(self.0)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.0 == NULL { v.visit_none() } else { v.visit_some(self) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct enum identifier
    }
}
struct Key(&'static str);
impl<'de> Deserializer<'de> for Key {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_str(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> MapAccess<'de> for Reader {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        if self.at == self.n {
            return Ok(None);
        }
        seed.deserialize(Key(if self.given[self.at] { self.key[self.at] } else { "?" })).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        self.at += 1;
        seed.deserialize(One(self.val[self.at - 1]))
    }
}
impl<'de> Deserializer<'de> for Reader {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(Error)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_map(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map enum identifier ignored_any
    }
}
pub fn read<T: de::DeserializeOwned>(r: Reader) -> Result<T, Error> {
    T::deserialize(r)
}

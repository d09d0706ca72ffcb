//! A small serialisation format: every snapshot the checks take goes through it before it is
//! resumed, as CKB stores them. Structures are written as (name, value) pairs or in order.
use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};

#[derive(Debug)]
pub struct E(String);
impl Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(t: T) -> Self {
        E(t.to_string())
    }
}
impl de::Error for E {
    fn custom<T: Display>(t: T) -> Self {
        E(t.to_string())
    }
}

pub struct W {
    out: Vec<u8>,
    named: bool,
}

/// Writes the value and reads it back.
pub fn through<T: Serialize + DeserializeOwned>(t: &T, named: bool) -> Result<T, String> {
    let mut w = W { out: vec![], named };
    t.serialize(&mut w).map_err(|e| e.0)?;
    let mut r = R { b: &w.out, named };
    let v = T::deserialize(&mut r).map_err(|e| e.0)?;
    if !r.b.is_empty() {
        return Err(format!("{} bytes left over", r.b.len()));
    }
    Ok(v)
}

impl W {
    fn len(&mut self, n: usize) {
        self.out.extend_from_slice(&(n as u32).to_le_bytes());
    }
    fn text(&mut self, s: &str) {
        self.len(s.len());
        self.out.extend_from_slice(s.as_bytes());
    }
}

macro_rules! put {
    ($($f:ident $t:ty,)*) => { $(
        #[inline]
        fn $f(self, v: $t) -> Result<(), E> {
            self.out.extend_from_slice(&v.to_le_bytes());
            Ok(())
        }
    )* };
}

impl<'a> ser::Serializer for &'a mut W {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    put! {
        serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8,
        serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64,
    }
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.serialize_u8(v as u8)
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.text(v);
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.len(v.len());
        self.out.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        self.serialize_u8(0)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        self.out.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.out.extend_from_slice(&i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> {
        self.len(n.ok_or(E("sequence of unknown length".into()))?);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.out.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, E> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, E> {
        if self.named {
            self.len(n);
        }
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, n: usize) -> Result<Self, E> {
        self.out.extend_from_slice(&i.to_le_bytes());
        if self.named {
            self.len(n);
        }
        Ok(self)
    }
}

macro_rules! items {
    ($($tr:ident $f:ident,)*) => { $(
        impl<'a> ser::$tr for &'a mut W {
            type Ok = ();
            type Error = E;
            #[inline]
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
                v.serialize(&mut **self)
            }
            fn end(self) -> Result<(), E> {
                Ok(())
            }
        }
    )* };
}
items! { SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field, }
impl<'a> ser::SerializeMap for &'a mut W {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
macro_rules! fields {
    ($($tr:ident,)*) => { $(
        impl<'a> ser::$tr for &'a mut W {
            type Ok = ();
            type Error = E;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                if self.named {
                    self.text(k);
                }
                v.serialize(&mut **self)
            }
            fn end(self) -> Result<(), E> {
                Ok(())
            }
        }
    )* };
}
fields! { SerializeStruct, SerializeStructVariant, }

pub struct R<'d> {
    b: &'d [u8],
    named: bool,
}

impl<'d> R<'d> {
    #[inline]
    fn take(&mut self, n: usize) -> Result<&'d [u8], E> {
        if self.b.len() < n {
            return Err(E("end of data".into()));
        }
        let (h, t) = self.b.split_at(n);
        self.b = t;
        Ok(h)
    }
    fn len(&mut self) -> Result<usize, E> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as usize)
    }
    fn text(&mut self) -> Result<&'d str, E> {
        let n = self.len()?;
        std::str::from_utf8(self.take(n)?).map_err(|e| E(e.to_string()))
    }
}

struct Items<'a, 'd> {
    r: &'a mut R<'d>,
    n: usize,
}
impl<'a, 'd> de::SeqAccess<'d> for Items<'a, 'd> {
    type Error = E;
    #[inline]
    fn next_element_seed<T: DeserializeSeed<'d>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        s.deserialize(&mut *self.r).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n)
    }
}
struct Pairs<'a, 'd> {
    r: &'a mut R<'d>,
    n: usize,
    fields: bool,
}
impl<'a, 'd> de::MapAccess<'d> for Pairs<'a, 'd> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'d>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        if self.fields {
            let t = self.r.text()?;
            s.deserialize(t.into_deserializer()).map(Some)
        } else {
            s.deserialize(&mut *self.r).map(Some)
        }
    }
    fn next_value_seed<V: DeserializeSeed<'d>>(&mut self, s: V) -> Result<V::Value, E> {
        s.deserialize(&mut *self.r)
    }
}

macro_rules! get {
    ($($f:ident $v:ident $t:ty,)*) => { $(
        #[inline]
        fn $f<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
            let b = self.take(std::mem::size_of::<$t>())?;
            v.$v(<$t>::from_le_bytes(b.try_into().unwrap()))
        }
    )* };
}
impl<'a, 'd> de::Deserializer<'d> for &'a mut R<'d> {
    type Error = E;
    get! {
        deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
        deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64,
        deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64,
    }
    fn deserialize_any<V: Visitor<'d>>(self, _: V) -> Result<V::Value, E> {
        Err(E("the format does not describe itself".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
    fn deserialize_bool<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let b = self.take(1)?[0];
        v.visit_bool(b != 0)
    }
    fn deserialize_char<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len()? as u32;
        v.visit_char(char::from_u32(n).ok_or(E("not a character".into()))?)
    }
    fn deserialize_str<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        v.visit_borrowed_str(self.text()?)
    }
    fn deserialize_string<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        v.visit_borrowed_str(self.text()?)
    }
    fn deserialize_identifier<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        v.visit_borrowed_str(self.text()?)
    }
    fn deserialize_bytes<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len()?;
        v.visit_borrowed_bytes(self.take(n)?)
    }
    fn deserialize_byte_buf<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        if self.take(1)?[0] == 0 {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'d>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'d>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len()?;
        v.visit_seq(Items { r: self, n })
    }
    fn deserialize_tuple<V: Visitor<'d>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Items { r: self, n })
    }
    fn deserialize_tuple_struct<V: Visitor<'d>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Items { r: self, n })
    }
    fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len()?;
        v.visit_map(Pairs { r: self, n, fields: false })
    }
    fn deserialize_struct<V: Visitor<'d>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        if self.named {
            let n = self.len()?;
            v.visit_map(Pairs { r: self, n, fields: true })
        } else {
            v.visit_seq(Items { r: self, n: f.len() })
        }
    }
    fn deserialize_enum<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E("enumerations are not supported".into()))
    }
}

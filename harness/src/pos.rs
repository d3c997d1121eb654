//! A minimal positional (not self-describing) serde format.
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

pub struct Ser(pub Vec<u8>);
pub fn to_bytes<T: Serialize + ?Sized>(t: &T) -> Result<Vec<u8>, E> {
    let mut s = Ser(vec![]);
    t.serialize(&mut s)?;
    Ok(s.0)
}
macro_rules! num { ($($m:ident $t:ty),*) => { $(fn $m(self, v: $t) -> Result<(), E> { self.0.extend(v.to_le_bytes()); Ok(()) })* } }
impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    fn is_human_readable(&self) -> bool {
        false
    }
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.0.extend((v.len() as u32).to_le_bytes());
        self.0.extend(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.0.extend(i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, E> {
        let n = len.ok_or_else(|| E("sequence of unknown length".into()))?;
        self.0.extend((n as u32).to_le_bytes());
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.0.extend(i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Self, E> {
        self.serialize_seq(len)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.0.extend(i.to_le_bytes());
        Ok(self)
    }
}
macro_rules! compound { ($($tr:ident $m:ident),*) => { $(impl<'a> ser::$tr for &'a mut Ser {
    type Ok = (); type Error = E;
    fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { Ok(()) }
})* } }
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a> ser::SerializeMap for &'a mut Ser {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
macro_rules! fields { ($($tr:ident),*) => { $(impl<'a> ser::$tr for &'a mut Ser {
    type Ok = (); type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { Ok(()) }
})* } }
fields!(SerializeStruct, SerializeStructVariant);

pub struct De<'d>(pub &'d [u8]);
pub fn from_bytes<'d, T: de::Deserialize<'d>>(b: &'d [u8]) -> Result<T, E> {
    let mut d = De(b);
    let t = T::deserialize(&mut d)?;
    if d.0.is_empty() {
        Ok(t)
    } else {
        Err(E(format!("{} bytes left over", d.0.len())))
    }
}
impl<'d> De<'d> {
    fn take(&mut self, n: usize) -> Result<&'d [u8], E> {
        if self.0.len() < n {
            return Err(E("out of data".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u32(&mut self) -> Result<u32, E> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
}
macro_rules! dnum { ($($m:ident $v:ident $t:ty),*) => { $(fn $m<V: Visitor<'d>>(self, vis: V) -> Result<V::Value, E> {
    let b = self.take(std::mem::size_of::<$t>())?; vis.$v(<$t>::from_le_bytes(b.try_into().unwrap())) })* } }
impl<'d, 'a> de::Deserializer<'d> for &'a mut De<'d> {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'d>>(self, _: V) -> Result<V::Value, E> {
        Err(E("format is not self-describing".into()))
    }
    dnum!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
          deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64,
          deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn deserialize_bool<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        match self.take(1)?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(E("bad bool".into())),
        }
    }
    fn deserialize_char<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let c = char::from_u32(self.u32()?).ok_or_else(|| E("bad char".into()))?;
        v.visit_char(c)
    }
    fn deserialize_str<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let n = self.u32()? as usize;
        let b = self.take(n)?;
        v.visit_borrowed_str(std::str::from_utf8(b).map_err(|e| E(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let n = self.u32()? as usize;
        v.visit_borrowed_bytes(self.take(n)?)
    }
    fn deserialize_byte_buf<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => Err(E("bad option".into())),
        }
    }
    fn deserialize_unit<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'d>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'d>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let n = self.u32()? as usize;
        v.visit_seq(Many { d: self, n })
    }
    fn deserialize_tuple<V: Visitor<'d>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Many { d: self, n })
    }
    fn deserialize_tuple_struct<V: Visitor<'d>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Many { d: self, n })
    }
    fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value, E> {
        let n = self.u32()? as usize;
        v.visit_map(Many { d: self, n })
    }
    fn deserialize_struct<V: Visitor<'d>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Many { d: self, n: f.len() })
    }
    fn deserialize_enum<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: Visitor<'d>>(self, _: V) -> Result<V::Value, E> {
        Err(E("no identifiers in a positional format".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'d>>(self, _: V) -> Result<V::Value, E> {
        Err(E("cannot skip in a positional format".into()))
    }
}
struct Many<'a, 'd> {
    d: &'a mut De<'d>,
    n: usize,
}
impl<'a, 'd> SeqAccess<'d> for Many<'a, 'd> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        seed.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n.min(4096))
    }
}
impl<'a, 'd> MapAccess<'d> for Many<'a, 'd> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'d>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        seed.deserialize(&mut *self.d).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'d>>(&mut self, seed: V) -> Result<V::Value, E> {
        seed.deserialize(&mut *self.d)
    }
}
impl<'a, 'd> EnumAccess<'d> for &'a mut De<'d> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'d>>(self, seed: V) -> Result<(V::Value, Self), E> {
        let i = self.u32()?;
        let v = seed.deserialize(IntoDeserializer::<E>::into_deserializer(i))?;
        Ok((v, self))
    }
}
impl<'a, 'd> VariantAccess<'d> for &'a mut De<'d> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'d>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'d>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Many { d: self, n })
    }
    fn struct_variant<V: Visitor<'d>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Many { d: self, n: f.len() })
    }
}

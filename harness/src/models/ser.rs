//! A recording serializer and a replaying deserializer, to compare external forms token by token.
use crate::Rng;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt::Display;
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Bool(bool),
    U(u8, u128),
    I(u8, i128),
    F(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some,
    Unit,
    Seq(Option<usize>),
    Tuple(usize),
    Variant(&'static str, u32, &'static str),
    UnitVariant(&'static str, u32, &'static str),
    Newtype(&'static str),
    End,
}
#[derive(Debug)]
pub struct E(pub String);
impl Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}
#[derive(Default)]
pub struct Rec(pub Vec<Tok>);
pub fn tokens<T: Serialize + ?Sized>(t: &T) -> Vec<Tok> {
    let mut r = Rec::default();
    if let Err(e) = t.serialize(&mut r) {
        r.0.push(Tok::Str(format!("ERROR {}", e.0)));
    }
    r.0
}
macro_rules! p { ($($f:ident $t:ty => $k:expr),* $(,)?) => { $(fn $f(self, v: $t) -> Result<(), E> { self.0.push($k(v)); Ok(()) })* } }
impl<'r> Serializer for &'r mut Rec {
    type Ok = ();
    type Error = E;
    type SerializeSeq = &'r mut Rec;
    type SerializeTuple = &'r mut Rec;
    type SerializeTupleStruct = ser::Impossible<(), E>;
    type SerializeTupleVariant = ser::Impossible<(), E>;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = ser::Impossible<(), E>;
    type SerializeStructVariant = ser::Impossible<(), E>;
    p! {
        serialize_bool bool => Tok::Bool,
        serialize_u8 u8 => |v| Tok::U(8, v as u128), serialize_u16 u16 => |v| Tok::U(16, v as u128), serialize_u32 u32 => |v| Tok::U(32, v as u128), serialize_u64 u64 => |v| Tok::U(64, v as u128),
        serialize_i8 i8 => |v| Tok::I(8, v as i128), serialize_i16 i16 => |v| Tok::I(16, v as i128), serialize_i32 i32 => |v| Tok::I(32, v as i128), serialize_i64 i64 => |v| Tok::I(64, v as i128),
        serialize_f32 f32 => |v: f32| Tok::F(v.to_bits() as u64), serialize_f64 f64 => |v: f64| Tok::F(v.to_bits()),
        serialize_char char => Tok::Char,
        serialize_str &str => |v: &str| Tok::Str(v.to_string()),
        serialize_bytes &[u8] => |v: &[u8]| Tok::Bytes(v.to_vec()),
    }
    fn serialize_none(self) -> Result<(), E> {
        self.0.push(Tok::None);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        self.0.push(Tok::Some);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        self.0.push(Tok::Unit);
        Ok(())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), E> {
        self.0.push(Tok::Newtype(n));
        Ok(())
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), E> {
        self.0.push(Tok::UnitVariant(n, i, v));
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<(), E> {
        self.0.push(Tok::Newtype(n));
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, name: &'static str, v: &T) -> Result<(), E> {
        self.0.push(Tok::Variant(n, i, name));
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> {
        self.0.push(Tok::Seq(n));
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, E> {
        self.0.push(Tok::Tuple(n));
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("tuple variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("struct variant".into()))
    }
}
impl ser::SerializeSeq for &mut Rec {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.0.push(Tok::End);
        Ok(())
    }
}
impl ser::SerializeTuple for &mut Rec {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.0.push(Tok::End);
        Ok(())
    }
}
/// How the deserializer hands over text, bytes and length hints.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// 0: borrowed, 1: transient, 2: owned
    pub text: u8,
    /// text is handed over as bytes
    pub text_as_bytes: bool,
    /// 0: exact, 1: none, 2: a little too long, 3: absurdly long
    pub hint: u8,
}
impl Style {
    pub fn random(r: &mut Rng) -> Self {
        Style { text: r.below(3) as u8, text_as_bytes: r.chance(1, 4), hint: if !cfg!(miri) && r.chance(1, 60) { 3 } else { r.below(3) as u8 } }
    }
}
pub struct Play<'a> {
    pub toks: &'a [Tok],
    pub at: usize,
    pub style: Style,
}
pub fn replay<'a, T: serde::Deserialize<'a>>(toks: &'a [Tok], style: Style) -> Result<T, E> {
    let mut p = Play { toks, at: 0, style };
    let r = T::deserialize(&mut p)?;
    if p.at != toks.len() {
        return Err(E(format!("{} of {} tokens read", p.at, toks.len())));
    }
    Ok(r)
}
impl<'a> Play<'a> {
    fn next(&mut self) -> Result<&'a Tok, E> {
        let t = self.toks.get(self.at).ok_or_else(|| E("end of tokens".into()))?;
        self.at += 1;
        Ok(t)
    }
}
impl<'de, 'p> Deserializer<'de> for &'p mut Play<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let style = self.style;
        match self.next()? {
            Tok::Bool(b) => v.visit_bool(*b),
            Tok::U(8, x) => v.visit_u8(*x as u8),
            Tok::U(16, x) => v.visit_u16(*x as u16),
            Tok::U(32, x) => v.visit_u32(*x as u32),
            Tok::U(_, x) => v.visit_u64(*x as u64),
            Tok::I(8, x) => v.visit_i8(*x as i8),
            Tok::I(16, x) => v.visit_i16(*x as i16),
            Tok::I(32, x) => v.visit_i32(*x as i32),
            Tok::I(_, x) => v.visit_i64(*x as i64),
            Tok::F(x) => v.visit_f64(f64::from_bits(*x)),
            Tok::Char(c) => v.visit_char(*c),
            Tok::Str(s) => match (style.text_as_bytes, style.text) {
                (false, 0) => v.visit_borrowed_str(s),
                (false, 1) => v.visit_str(&s.clone()),
                (false, _) => v.visit_string(s.clone()),
                (true, 0) => v.visit_borrowed_bytes(s.as_bytes()),
                (true, 1) => v.visit_bytes(&s.clone().into_bytes()),
                (true, _) => v.visit_byte_buf(s.clone().into_bytes()),
            },
            Tok::Bytes(s) => match style.text {
                0 => v.visit_borrowed_bytes(s),
                1 => v.visit_bytes(&s.clone()),
                _ => v.visit_byte_buf(s.clone()),
            },
            Tok::None => v.visit_none(),
            Tok::Some => v.visit_some(self),
            Tok::Unit => v.visit_unit(),
            Tok::Newtype(_) => v.visit_newtype_struct(self),
            Tok::Seq(_) | Tok::Tuple(_) => {
                let r = v.visit_seq(&mut *self)?;
                match self.next()? {
                    Tok::End => Ok(r),
                    t => Err(E(format!("sequence not read to its end: {t:?}"))),
                }
            }
            t => Err(E(format!("unexpected {t:?}"))),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}
impl<'a> SeqAccess<'a> for &mut Play<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if let Some(Tok::End) = self.toks.get(self.at) {
            return Ok(None);
        }
        s.deserialize(&mut **self).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        match self.style.hint {
            0 => match self.toks.get(self.at.wrapping_sub(1)) {
                Some(Tok::Seq(n)) => *n,
                Some(Tok::Tuple(n)) => Some(*n),
                _ => None,
            },
            1 => None,
            2 => Some(17),
            _ => Some(usize::MAX),
        }
    }
}
impl<'a, 'p> EnumAccess<'a> for &'p mut Play<'a> {
    type Error = E;
    type Variant = &'p mut Play<'a>;
    fn variant_seed<V: DeserializeSeed<'a>>(self, s: V) -> Result<(V::Value, Self::Variant), E> {
        match self.next()? {
            Tok::Variant(_, i, _) | Tok::UnitVariant(_, i, _) => {
                let v = s.deserialize(de::value::U32Deserializer::<E>::new(*i))?;
                Ok((v, self))
            }
            t => Err(E(format!("variant expected, {t:?} found"))),
        }
    }
}
impl<'a, 'p> VariantAccess<'a> for &'p mut Play<'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'a>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'a>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E("tuple variant".into()))
    }
    fn struct_variant<V: Visitor<'a>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E("struct variant".into()))
    }
}

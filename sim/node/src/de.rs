//! The consumers of decoded data.
use crate::ser::intern;
use crate::{sim_panic, Ctx, DE};
use proto::*;
use serde::de::*;
use std::fmt;

#[cfg(feature = "json")]
pub fn from_json(v: serde_json::Value) -> J {
    use serde_json::Value::*;
    match v {
        Null => J::Null,
        Bool(b) => J::Bool(b),
        Number(n) => {
            if let Some(i) = n.as_i64() {
                J::Int(i as i128)
            } else if let Some(u) = n.as_u64() {
                J::Int(u as i128)
            } else {
                J::Float(n.as_f64().unwrap())
            }
        }
        String(s) => J::Str(s),
        Array(a) => J::Arr(a.into_iter().map(from_json).collect()),
        Object(m) => J::Obj(m.into_iter().map(|(k, v)| (k, from_json(v))).collect()),
    }
}

pub fn from_value(v: toon_rs::value::Value) -> J {
    use toon_rs::value::{Number, Value::*};
    match v {
        Null => J::Null,
        Bool(b) => J::Bool(b),
        Number(Number::I64(i)) => J::Int(i as i128),
        Number(Number::U64(i)) => J::Int(i as i128),
        Number(Number::F64(f)) => J::Float(f),
        String(s) => J::Str(s),
        Array(a) => J::Arr(a.into_iter().map(from_value).collect()),
        Object(m) => J::Obj(m.into_iter().map(|(k, v)| (k, from_value(v))).collect()),
    }
}

enum Act {
    Go,
    Stop,
}

fn point<E: Error>(ctx: &Ctx) -> Result<Act, E> {
    if ctx.flags & F_DE_EVENTS == 0 {
        return Ok(Act::Go);
    }
    let n = ctx.de_calls.get();
    ctx.de_calls.set(n + 1);
    let mut aux = 0;
    match ctx.event(EV_DE, n, std::ptr::null_mut(), 0, &mut aux) {
        ACT_ERR => Err(E::custom(crate::unarmed(|| failure_text("consumer", aux & 0xffff_ffff_ffff, aux >> 48)))),
        ACT_PANIC => sim_panic(aux),
        ACT_STOP => Ok(Act::Stop),
        _ => Ok(Act::Go),
    }
}

fn top() -> (&'static Ctx, &'static V) {
    let (c, v) = DE.with(|d| *d.borrow().last().expect("no decode in progress"));
    unsafe { (&*c, &*v) }
}

pub struct AnyT(pub J);
impl<'de> Deserialize<'de> for AnyT {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (ctx, _) = top();
        d.deserialize_any(Any { ctx, want: Want::All }).map(AnyT)
    }
}
pub struct TypedT(pub J);
impl<'de> Deserialize<'de> for TypedT {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (ctx, shape) = top();
        Typed { ctx, v: shape }.deserialize(d).map(TypedT)
    }
}

/// What a scalar visitor is prepared to take.
#[derive(Clone, Copy, PartialEq)]
enum Want {
    All,
    Bool,
    Int,
    Float,
    Str,
    Null,
    NullOrFloat,
}

#[derive(Clone, Copy)]
struct Any<'c> {
    ctx: &'c Ctx,
    want: Want,
}
impl<'c> Any<'c> {
    fn take<E: Error>(self, what: Want, j: J) -> Result<J, E> {
        point::<E>(self.ctx)?;
        let ok = self.want == Want::All
            || self.want == what
            || (what == Want::Int && matches!(self.want, Want::Float | Want::NullOrFloat))
            || (self.want == Want::NullOrFloat && matches!(what, Want::Float | Want::Null));
        if ok {
            Ok(j)
        } else {
            Err(E::custom(format_args!("unexpected kind of value: {j:?}")))
        }
    }
}
impl<'de, 'c> DeserializeSeed<'de> for Any<'c> {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        d.deserialize_any(self)
    }
}
impl<'de, 'c> Visitor<'de> for Any<'c> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a value")
    }
    fn visit_bool<E: Error>(self, v: bool) -> Result<J, E> {
        self.take(Want::Bool, J::Bool(v))
    }
    fn visit_i64<E: Error>(self, v: i64) -> Result<J, E> {
        self.take(Want::Int, J::Int(v as i128))
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<J, E> {
        self.take(Want::Int, J::Int(v as i128))
    }
    fn visit_f64<E: Error>(self, v: f64) -> Result<J, E> {
        self.take(Want::Float, J::Float(v))
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<J, E> {
        self.take(Want::Str, J::Str(v.to_string()))
    }
    fn visit_unit<E: Error>(self) -> Result<J, E> {
        self.take(Want::Null, J::Null)
    }
    fn visit_none<E: Error>(self) -> Result<J, E> {
        self.take(Want::Null, J::Null)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        if self.want != Want::All {
            return Err(A::Error::custom("unexpected sequence"));
        }
        let mut out = Vec::new();
        loop {
            if let Act::Stop = point::<A::Error>(self.ctx)? {
                break;
            }
            match a.next_element_seed(self)? {
                Some(x) => out.push(x),
                None => break,
            }
        }
        Ok(J::Arr(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        if self.want != Want::All {
            return Err(A::Error::custom("unexpected map"));
        }
        let mut out = Vec::new();
        loop {
            if let Act::Stop = point::<A::Error>(self.ctx)? {
                break;
            }
            match a.next_key::<String>()? {
                Some(k) => out.push((k, a.next_value_seed(self)?)),
                None => break,
            }
        }
        Ok(J::Obj(out))
    }
}

/// Asks for exactly the shape of `v`, as derived code for that type would.
#[derive(Clone, Copy)]
struct Typed<'c> {
    ctx: &'c Ctx,
    v: &'c V,
}
impl<'c> Typed<'c> {
    fn of(self, v: &'c V) -> Self {
        Typed { ctx: self.ctx, v }
    }
}

impl<'de, 'c> DeserializeSeed<'de> for Typed<'c> {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        let w = |want| Any { ctx: self.ctx, want };
        match self.v {
            V::Unit => d.deserialize_unit(w(Want::Null)),
            V::UnitStruct => d.deserialize_unit_struct("UnitStruct", w(Want::Null)),
            V::Bool(_) => d.deserialize_bool(w(Want::Bool)),
            V::I8(_) => d.deserialize_i8(w(Want::Int)),
            V::I16(_) => d.deserialize_i16(w(Want::Int)),
            V::I32(_) => d.deserialize_i32(w(Want::Int)),
            V::I64(_) => d.deserialize_i64(w(Want::Int)),
            V::U8(_) => d.deserialize_u8(w(Want::Int)),
            V::U16(_) => d.deserialize_u16(w(Want::Int)),
            V::U32(_) => d.deserialize_u32(w(Want::Int)),
            V::U64(_) => d.deserialize_u64(w(Want::Int)),
            V::F32(b) => {
                let want =
                    if f32::from_bits(*b).is_finite() { Want::Float } else { Want::NullOrFloat };
                d.deserialize_f32(w(want))
            }
            V::F64(b) => {
                let want =
                    if f64::from_bits(*b).is_finite() { Want::Float } else { Want::NullOrFloat };
                d.deserialize_f64(w(want))
            }
            V::Char(_) => d.deserialize_char(w(Want::Str)),
            V::Str(_) => d.deserialize_string(w(Want::Str)),
            V::Disp(_) => d.deserialize_str(w(Want::Str)),
            V::Bytes(_) => d.deserialize_byte_buf(w(Want::All)),
            V::None | V::Some(_) => d.deserialize_option(self),
            V::NtStruct(_) => d.deserialize_newtype_struct("Newtype", self),
            V::Seq(..) => d.deserialize_seq(self),
            V::Tuple(a) => d.deserialize_tuple(a.len(), self),
            V::TStruct(a) => d.deserialize_tuple_struct("TupleStruct", a.len(), self),
            V::Map(..) => d.deserialize_map(self),
            V::Struct(m) => {
                let names: Vec<&'static str> = m.iter().map(|(k, _)| intern(k)).collect();
                d.deserialize_struct("Struct", leak(names), self)
            }
            V::UnitVar(s) | V::NtVar(s, _) | V::TVar(s, _) | V::SVar(s, _) => {
                d.deserialize_enum("Enum", leak(vec![intern(s)]), self)
            }
        }
    }
}

thread_local! {
    static LISTS: std::cell::RefCell<std::collections::HashSet<&'static [&'static str]>> = Default::default();
}
/// A list of names that lives on; the same list is kept once.
fn leak(v: Vec<&'static str>) -> &'static [&'static str] {
    crate::unarmed(|| {
        LISTS.with(|l| {
            let mut l = l.borrow_mut();
            if let Some(x) = l.get(&v[..]) {
                return *x;
            }
            let x: &'static [&'static str] = Box::leak(v.into_boxed_slice());
            l.insert(x);
            x
        })
    })
}

impl<'de, 'c> Visitor<'de> for Typed<'c> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the sent type")
    }
    fn visit_none<E: Error>(self) -> Result<J, E> {
        point::<E>(self.ctx)?;
        match self.v {
            V::None | V::Some(_) => Ok(J::Null),
            _ => Err(E::custom("unexpected none")),
        }
    }
    fn visit_unit<E: Error>(self) -> Result<J, E> {
        // std's Option visitor takes unit as None
        self.visit_none()
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        point::<D::Error>(self.ctx)?;
        match self.v {
            V::Some(x) => self.of(x).deserialize(d),
            // (any type at all: a null in there would have to be none)
            V::None => match d.deserialize_any(Any { ctx: self.ctx, want: Want::All })? {
                J::Null => Err(D::Error::custom("null given as some")),
                j => Ok(j),
            },
            _ => Err(D::Error::custom("unexpected some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        point::<D::Error>(self.ctx)?;
        match self.v {
            V::NtStruct(x) => self.of(x).deserialize(d),
            _ => Err(D::Error::custom("unexpected newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut out = Vec::new();
        match self.v {
            V::Seq(_, e) => loop {
                if let Act::Stop = point::<A::Error>(self.ctx)? {
                    break;
                }
                let x = match e.get(out.len()) {
                    Some(s) => a.next_element_seed(self.of(s))?,
                    None => a.next_element_seed(Any { ctx: self.ctx, want: Want::All })?,
                };
                match x {
                    Some(x) => out.push(x),
                    None => break,
                }
            },
            V::Tuple(e) | V::TStruct(e) | V::TVar(_, e) => {
                for s in e {
                    if let Act::Stop = point::<A::Error>(self.ctx)? {
                        break;
                    }
                    match a.next_element_seed(self.of(s))? {
                        Some(x) => out.push(x),
                        None => return Err(A::Error::invalid_length(out.len(), &"a longer tuple")),
                    }
                }
            }
            _ => return Err(A::Error::custom("unexpected sequence")),
        }
        Ok(J::Arr(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut out: Vec<(String, J)> = Vec::new();
        loop {
            if let Act::Stop = point::<A::Error>(self.ctx)? {
                break;
            }
            let k: String = match self.v {
                V::Map(_, m) => match a.next_key_seed(Key(key_kind(m)))? {
                    Some(k) => k,
                    None => break,
                },
                _ => match a.next_key_seed(Ident)? {
                    Some(k) => k,
                    None => break,
                },
            };
            let shape = match self.v {
                V::Struct(m) | V::SVar(_, m) => m.iter().find(|(n, _)| *n == k).map(|(_, v)| v),
                V::Map(_, m) => m.iter().find(|(n, _)| key_text(n) == k).map(|(_, v)| v),
                _ => return Err(A::Error::custom("unexpected map")),
            };
            let x = match shape {
                Some(s) => a.next_value_seed(self.of(s))?,
                None => {
                    if matches!(self.v, V::Map(..)) {
                        a.next_value_seed(Any { ctx: self.ctx, want: Want::All })?
                    } else {
                        a.next_value::<IgnoredAny>()?;
                        J::Null
                    }
                }
            };
            out.push((k, x));
        }
        Ok(J::Obj(out))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        point::<A::Error>(self.ctx)?;
        let (name, va) = a.variant_seed(Ident)?;
        match self.v {
            V::UnitVar(_) => {
                va.unit_variant()?;
                Ok(J::Str(name))
            }
            V::NtVar(_, x) => Ok(J::Obj(vec![(name, va.newtype_variant_seed(self.of(x))?)])),
            V::TVar(_, e) => Ok(J::Obj(vec![(name, va.tuple_variant(e.len(), self)?)])),
            V::SVar(_, m) => {
                let names: Vec<&'static str> = m.iter().map(|(k, _)| intern(k)).collect();
                Ok(J::Obj(vec![(name, va.struct_variant(leak(names), self)?)]))
            }
            _ => Err(A::Error::custom("unexpected enum")),
        }
    }
}

/// A field or variant name.
struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<String, E> {
        Ok(v.to_string())
    }
}

/// The kind of key to ask for: all keys of a map have one type.
fn key_kind(m: &[(V, V)]) -> Option<&V> {
    let first = &m.first()?.0;
    m.iter().all(|(k, _)| same_kind(first, k)).then_some(first)
}
fn same_kind(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::F32(x), V::F32(y)) => f32::from_bits(*x).is_finite() && f32::from_bits(*y).is_finite(),
        (V::F64(x), V::F64(y)) => f64::from_bits(*x).is_finite() && f64::from_bits(*y).is_finite(),
        (V::Some(x), V::Some(y)) | (V::NtStruct(x), V::NtStruct(y)) => same_kind(x, y),
        (V::UnitVar(_), V::UnitVar(_)) => true,
        (V::Unit | V::UnitStruct | V::None, _) => false,
        _ if !key_fits(a) => false,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}

/// A key, asked for by its type.
#[derive(Clone, Copy)]
struct Key<'c>(Option<&'c V>);
impl<'de, 'c> DeserializeSeed<'de> for Key<'c> {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.0 {
            Some(V::Bool(_)) => d.deserialize_bool(self),
            Some(V::I8(_)) => d.deserialize_i8(self),
            Some(V::I16(_)) => d.deserialize_i16(self),
            Some(V::I32(_)) => d.deserialize_i32(self),
            Some(V::I64(_)) => d.deserialize_i64(self),
            Some(V::U8(_)) => d.deserialize_u8(self),
            Some(V::U16(_)) => d.deserialize_u16(self),
            Some(V::U32(_)) => d.deserialize_u32(self),
            Some(V::U64(_)) => d.deserialize_u64(self),
            Some(V::F32(_)) => d.deserialize_f32(self),
            Some(V::F64(_)) => d.deserialize_f64(self),
            Some(V::Char(_)) => d.deserialize_char(self),
            Some(V::Some(_)) => d.deserialize_option(self),
            Some(V::NtStruct(_)) => d.deserialize_newtype_struct("Key", self),
            Some(V::UnitVar(_)) => d.deserialize_enum("Enum", &[], self),
            Some(V::Disp(_)) => d.deserialize_str(self),
            _ => d.deserialize_string(self),
        }
    }
}
impl<'de, 'c> Visitor<'de> for Key<'c> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a key of the sent type")
    }
    fn visit_bool<E: Error>(self, v: bool) -> Result<String, E> {
        match self.0 {
            Some(V::Bool(_)) => Ok(v.to_string()),
            _ => Err(E::custom("unexpected bool")),
        }
    }
    fn visit_i64<E: Error>(self, v: i64) -> Result<String, E> {
        self.integer(v as i128)
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<String, E> {
        self.integer(v as i128)
    }
    fn visit_f64<E: Error>(self, v: f64) -> Result<String, E> {
        match self.0 {
            // as derived code stores it
            Some(V::F32(_)) => Ok(key_text(&V::F32((v as f32).to_bits()))),
            Some(V::F64(_)) => Ok(key_text(&V::F64(v.to_bits()))),
            _ => Err(E::custom("unexpected float")),
        }
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<String, E> {
        match self.0 {
            Some(V::Char(_)) if v.chars().count() != 1 => Err(E::custom("not one character")),
            Some(V::Str(_) | V::Disp(_) | V::Char(_)) | None => Ok(v.to_string()),
            Some(V::Unit | V::UnitStruct | V::None) => Ok(v.to_string()),
            _ => Err(E::custom("unexpected text")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.0 {
            Some(V::Some(x)) => Key(Some(x)).deserialize(d),
            _ => Err(D::Error::custom("unexpected some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.0 {
            Some(V::NtStruct(x)) => Key(Some(x)).deserialize(d),
            _ => Err(D::Error::custom("unexpected newtype")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        let (name, va) = a.variant_seed(Ident)?;
        va.unit_variant()?;
        Ok(name)
    }
}
impl Key<'_> {
    fn integer<E: Error>(self, v: i128) -> Result<String, E> {
        let (lo, hi) = match self.0 {
            Some(V::I8(_)) => (i8::MIN as i128, i8::MAX as i128),
            Some(V::I16(_)) => (i16::MIN as i128, i16::MAX as i128),
            Some(V::I32(_)) => (i32::MIN as i128, i32::MAX as i128),
            Some(V::I64(_)) => (i64::MIN as i128, i64::MAX as i128),
            Some(V::U8(_)) => (0, u8::MAX as i128),
            Some(V::U16(_)) => (0, u16::MAX as i128),
            Some(V::U32(_)) => (0, u32::MAX as i128),
            Some(V::U64(_)) => (0, u64::MAX as i128),
            Some(V::F32(_)) => return Ok(key_text(&V::F32((v as f32).to_bits()))),
            Some(V::F64(_)) => return Ok(key_text(&V::F64((v as f64).to_bits()))),
            _ => return Err(E::custom("unexpected integer")),
        };
        if v < lo || v > hi {
            return Err(E::custom("integer out of range"));
        }
        Ok(v.to_string())
    }
}

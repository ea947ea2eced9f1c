//! The participants in serialization.
use crate::{sim_panic, Ctx};
use proto::*;
use serde::ser::*;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

pub fn intern(s: &str) -> &'static str {
    // our own bookkeeping: not an allocation of the library, no switch point
    crate::unarmed(|| intern_inner(s))
}

fn intern_inner(s: &str) -> &'static str {
    static SET: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = SET.lock().unwrap_or_else(|e| e.into_inner());
    let set = g.get_or_insert_with(HashSet::new);
    if let Some(x) = set.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    set.insert(l);
    l
}

/// Number the parts of a value in pre-order and intern the names.
pub fn number(v: &V, ids: &mut HashMap<*const V, u64>) {
    let n = ids.len() as u64;
    ids.insert(v, n);
    match v {
        V::Some(x) | V::NtStruct(x) | V::NtVar(_, x) => number(x, ids),
        V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) | V::TVar(_, a) => {
            a.iter().for_each(|x| number(x, ids))
        }
        V::Map(_, m) => m.iter().for_each(|(k, x)| {
            number(k, ids);
            number(x, ids)
        }),
        V::Struct(m) | V::SVar(_, m) => m.iter().for_each(|(_, x)| number(x, ids)),
        _ => {}
    }
}

pub struct S<'a> {
    pub v: &'a V,
    pub ctx: &'a Ctx,
}

impl<'a> S<'a> {
    fn of(&self, v: &'a V) -> S<'a> {
        S { v, ctx: self.ctx }
    }
    /// The simulator decides whether this participant fails here.
    fn point<E: Error>(&self, leave: u64) -> Result<(), E> {
        if self.ctx.flags & F_SER_EVENTS == 0 {
            return Ok(());
        }
        let id = self.ctx.ids.get(&(self.v as *const V)).copied().unwrap_or(u64::MAX / 4);
        let mut aux = 0;
        match self.ctx.event(EV_SER, id * 2 + leave, std::ptr::null_mut(), 0, &mut aux) {
            ACT_ERR => Err(E::custom(crate::unarmed(|| failure_text("participant", aux & 0xffff_ffff_ffff, aux >> 48)))),
            ACT_PANIC => sim_panic(aux),
            _ => Ok(()),
        }
    }
}

fn hint(h: Hint, n: usize) -> Option<usize> {
    match h {
        Hint::Exact => Some(n),
        Hint::Unknown => None,
        Hint::Lie(x) => Some(x as usize),
    }
}

impl Serialize for S<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        self.point(0)?;
        match self.v {
            V::Unit => z.serialize_unit(),
            V::Bool(b) => z.serialize_bool(*b),
            V::I8(x) => z.serialize_i8(*x),
            V::I16(x) => z.serialize_i16(*x),
            V::I32(x) => z.serialize_i32(*x),
            V::I64(x) => z.serialize_i64(*x),
            V::U8(x) => z.serialize_u8(*x),
            V::U16(x) => z.serialize_u16(*x),
            V::U32(x) => z.serialize_u32(*x),
            V::U64(x) => z.serialize_u64(*x),
            V::F32(x) => z.serialize_f32(f32::from_bits(*x)),
            V::F64(x) => z.serialize_f64(f64::from_bits(*x)),
            V::Char(c) => z.serialize_char(*c),
            V::Str(s) => z.serialize_str(s),
            V::Disp(s) => z.collect_str(s),
            V::Bytes(b) => z.serialize_bytes(b),
            V::None => z.serialize_none(),
            V::Some(x) => z.serialize_some(&self.of(x)),
            V::UnitStruct => z.serialize_unit_struct("UnitStruct"),
            V::UnitVar(s) => z.serialize_unit_variant("Enum", 0, intern(s)),
            V::NtStruct(x) => z.serialize_newtype_struct("Newtype", &self.of(x)),
            V::NtVar(s, x) => z.serialize_newtype_variant("Enum", 1, intern(s), &self.of(x)),
            V::Seq(h, a) => {
                let mut q = z.serialize_seq(hint(*h, a.len()))?;
                for x in a {
                    q.serialize_element(&self.of(x))?;
                }
                self.point(1)?;
                q.end()
            }
            V::Tuple(a) => {
                let mut q = z.serialize_tuple(a.len())?;
                for x in a {
                    q.serialize_element(&self.of(x))?;
                }
                self.point(1)?;
                q.end()
            }
            V::TStruct(a) => {
                let mut q = z.serialize_tuple_struct("TupleStruct", a.len())?;
                for x in a {
                    q.serialize_field(&self.of(x))?;
                }
                self.point(1)?;
                q.end()
            }
            V::TVar(s, a) => {
                let mut q = z.serialize_tuple_variant("Enum", 2, intern(s), a.len())?;
                for x in a {
                    q.serialize_field(&self.of(x))?;
                }
                self.point(1)?;
                q.end()
            }
            V::Map(h, m) => {
                let mut q = z.serialize_map(hint(*h, m.len()))?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&self.of(k), &self.of(x))?;
                    } else {
                        q.serialize_key(&self.of(k))?;
                        q.serialize_value(&self.of(x))?;
                    }
                }
                self.point(1)?;
                q.end()
            }
            V::Struct(m) => {
                let mut q = z.serialize_struct("Struct", m.len())?;
                for (k, x) in m {
                    q.serialize_field(intern(k), &self.of(x))?;
                }
                self.point(1)?;
                q.end()
            }
            V::SVar(s, m) => {
                let mut q = z.serialize_struct_variant("Enum", 3, intern(s), m.len())?;
                for (k, x) in m {
                    q.serialize_field(intern(k), &self.of(x))?;
                }
                self.point(1)?;
                q.end()
            }
        }
    }
}

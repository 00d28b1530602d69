//! A self-describing serde target: any document as the reference model.

use crate::model::{f32n, f64n, D};
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};

pub struct AnyD(pub D);

struct V;
impl<'de> Visitor<'de> for V {
    type Value = AnyD;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_none<E>(self) -> Result<AnyD, E> {
        Ok(AnyD(D::Null))
    }
    fn visit_unit<E>(self) -> Result<AnyD, E> {
        Ok(AnyD(D::Undef))
    }
    fn visit_bool<E>(self, v: bool) -> Result<AnyD, E> {
        Ok(AnyD(D::Bool(v)))
    }
    fn visit_i64<E>(self, v: i64) -> Result<AnyD, E> {
        Ok(AnyD(D::Int(i128::from(v))))
    }
    fn visit_u64<E>(self, v: u64) -> Result<AnyD, E> {
        Ok(AnyD(D::Int(i128::from(v))))
    }
    fn visit_f32<E>(self, v: f32) -> Result<AnyD, E> {
        Ok(AnyD(f32n(v)))
    }
    fn visit_f64<E>(self, v: f64) -> Result<AnyD, E> {
        Ok(AnyD(f64n(v)))
    }
    fn visit_str<E>(self, v: &str) -> Result<AnyD, E> {
        Ok(AnyD(D::Str(v.to_string())))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<AnyD, E> {
        Ok(AnyD(D::Data(v.to_vec())))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<AnyD, A::Error> {
        let mut out = Vec::new();
        while let Some(AnyD(d)) = a.next_element()? {
            out.push(d);
        }
        Ok(AnyD(D::Arr(out)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<AnyD, A::Error> {
        let mut out = Vec::new();
        while let Some((k, AnyD(d))) = a.next_entry::<String, AnyD>()? {
            out.push((k, d));
        }
        Ok(AnyD(D::Dict(out)))
    }
}
impl<'de> Deserialize<'de> for AnyD {
    fn deserialize<T: Deserializer<'de>>(d: T) -> Result<AnyD, T::Error> {
        d.deserialize_any(V)
    }
}

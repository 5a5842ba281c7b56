//! What only exists with an optional feature of the library.  Without it the call is recorded as "absent".
use baa::*;
use num_bigint::{BigInt, BigUint};

#[allow(dead_code)]
pub fn absent() -> ! { panic!("harness: not in this feature set") }

#[cfg(feature = "bigint")]
mod big {
    use super::*;
    pub fn to_big_uint<B: BitVecOps + ?Sized>(x: &B) -> BigUint { x.to_big_uint() }
    pub fn to_big_int<B: BitVecOps + ?Sized>(x: &B) -> BigInt { x.to_big_int() }
    pub fn from_big_uint(x: &BigUint, w: WidthInt) -> BitVecValue { BitVecValue::from_big_uint(x, w) }
    pub fn from_big_int(x: &BigInt, w: WidthInt) -> BitVecValue { BitVecValue::from_big_int(x, w) }
    pub fn auto_uint(x: &BigUint) -> BitVecValue { BitVecValue::from(x) }
    pub fn auto_int(x: &BigInt) -> BitVecValue { BitVecValue::from(x) }
}
#[cfg(not(feature = "bigint"))]
mod big {
    use super::*;
    pub fn to_big_uint<B: BitVecOps + ?Sized>(_: &B) -> BigUint { absent() }
    pub fn to_big_int<B: BitVecOps + ?Sized>(_: &B) -> BigInt { absent() }
    pub fn from_big_uint(_: &BigUint, _: WidthInt) -> BitVecValue { absent() }
    pub fn from_big_int(_: &BigInt, _: WidthInt) -> BitVecValue { absent() }
    pub fn auto_uint(_: &BigUint) -> BitVecValue { absent() }
    pub fn auto_int(_: &BigInt) -> BitVecValue { absent() }
}
pub use big::*;

#[cfg(feature = "fraction1")]
pub fn fixed<B: BitVecOps + ?Sized>(x: &B, signed: bool, f: WidthInt) -> Option<fraction::Fraction> {
    if signed { x.to_signed_fixed_point(f) } else { x.to_unsigned_fixed_point(f) }
}
#[cfg(not(feature = "fraction1"))]
pub fn fixed<B: BitVecOps + ?Sized>(_: &B, _: bool, _: WidthInt) -> Option<fraction::Fraction> { absent() }

#[cfg(feature = "serde1")]
mod copy {
    use super::*;
    fn through<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, compact: bool) -> T {
        if compact { bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap() } else { serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap() }
    }
    pub fn vector(x: &BitVecValue, compact: bool) -> BitVecValue { through(x, compact) }
    pub fn array(x: &ArrayValue, compact: bool) -> ArrayValue { through(x, compact) }
    pub fn sparse(x: &SparseArrayValue, compact: bool) -> SparseArrayValue { through(x, compact) }
}
#[cfg(not(feature = "serde1"))]
mod copy {
    use super::*;
    pub fn vector(_: &BitVecValue, _: bool) -> BitVecValue { absent() }
    pub fn array(_: &ArrayValue, _: bool) -> ArrayValue { absent() }
    pub fn sparse(_: &SparseArrayValue, _: bool) -> SparseArrayValue { absent() }
}
pub use copy::*;

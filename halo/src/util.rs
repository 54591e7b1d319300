use halo2curves::FieldExt;
use num_bigint::{BigInt, BigUint};
use serde_json::Value as J;

pub fn i(j: &J) -> i64 {
    j.as_i64().expect("integer")
}
pub fn u(j: &J) -> usize {
    j.as_u64().expect("natural") as usize
}
pub fn arr(j: &J) -> &Vec<J> {
    static EMPTY: Vec<J> = Vec::new();
    j.as_array().unwrap_or(&EMPTY)
}

pub fn order<F: FieldExt>() -> BigInt {
    BigInt::from(BigUint::from_bytes_le((-F::one()).to_repr().as_ref())) + 1
}

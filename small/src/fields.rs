//! Records a trace of field operations for spec/FieldTrace.tla. Operands come from spec/FieldOperands.tla, interpreted both as
//! standard and as internal (Montgomery) representations.
use crate::util::arr;
use ff::{Field, PrimeField};
use halo2curves::serde::SerdeObject;
use halo2curves::{FieldExt, Group};
use num_bigint::BigUint;
use serde_json::{json, Value as J};
use std::io::Write;

pub fn digits(x: &BigUint) -> J {
    let n = (x.bits() + 11) / 12;
    J::from((0..n).map(|k| ((x >> (12 * k)) & BigUint::from(4095u32)).iter_u64_digits().next().unwrap_or(0)).collect::<Vec<u64>>())
}
pub fn val<F: PrimeField>(x: &F) -> BigUint {
    BigUint::from_bytes_le(x.to_repr().as_ref())
}
fn bytes32(x: &BigUint) -> Vec<u8> {
    let mut b = x.to_bytes_le();
    b.resize(32, 0);
    b
}
trait Probe: FieldExt<Repr = [u8; 32]> + SerdeObject + Ord {
    fn raw(l: [u64; 4]) -> Self;
}
macro_rules! probe {
    ($($t:ty),*) => {$(impl Probe for $t {
        fn raw(l: [u64; 4]) -> Self {
            <$t>::from_raw(l)
        }
    })*};
}
probe!(halo2curves::bn256::Fq, halo2curves::bn256::Fr, halo2curves::secp256k1::Fp, halo2curves::secp256k1::Fq);

struct Rec {
    out: std::io::BufWriter<std::fs::File>,
    p: BigUint,
    n: usize,
}
impl Rec {
    fn put(&mut self, op: &str, a: &BigUint, b: &BigUint, r: &BigUint, q: &BigUint, s: J, ok: u64) {
        self.n += 1;
        writeln!(self.out, "{}", json!({"op": op, "a": digits(a), "b": digits(b), "r": digits(r), "q": digits(q), "s": s, "ok": ok})).unwrap();
    }
    /// a*b (or a+b ...) = r + q p: the quotient, rounded down, is only a witness.
    fn quot(&self, total: BigUint, r: &BigUint) -> BigUint {
        if total < *r {
            return BigUint::from(0u32);
        }
        (total - r) / &self.p
    }
}
fn limbs(x: &BigUint) -> [u64; 4] {
    let mut l = [0; 4];
    for (i, d) in x.iter_u64_digits().enumerate() {
        l[i] = d;
    }
    l
}
fn record<F: Probe>(cases: &[J], out: &str, consts: bool, zeta: bool, per: usize, seed: u64) {
    let z = BigUint::from(0u32);
    let p = BigUint::parse_bytes(F::MODULUS.trim_start_matches("0x").as_bytes(), 16).unwrap();
    let mut t = Rec { out: std::io::BufWriter::new(std::fs::File::create(out).unwrap()), p: p.clone(), n: 0 };
    let pl = limbs(&p);
    let none = json!(0);
    // operands
    let mut nums: Vec<BigUint> = vec![];
    for c in cases {
        let mut v = BigUint::from(0u32);
        for (i, k) in arr(&c["limbs"]).iter().enumerate().rev() {
            let l = match k.as_str().unwrap() {
                "0" => 0,
                "1" => 1,
                "max" => u64::MAX,
                "top" => 1 << 63,
                "p" => pl[i],
                "p-" => pl[i].wrapping_sub(1),
                "p+" => pl[i].wrapping_add(1),
                "mix" => 0x9e3779b97f4a7c15u64.rotate_left(i as u32 * 7) ^ seed,
                x => panic!("limb {}", x),
            };
            v = (v << 64) + l;
        }
        nums.push(v);
    }
    let mut elems: Vec<F> = vec![F::zero(), F::one(), -F::one(), F::from(2), F::TWO_INV];
    for v in &nums {
        let mut b = [0u8; 32];
        b.copy_from_slice(&bytes32(v));
        let e: Option<F> = F::from_repr(b).into();
        t.put("repr", v, &z, &e.map(|x| val(&x)).unwrap_or_default(), &z, none.clone(), e.is_some() as u64);
        elems.extend(e);
        let m = <F as SerdeObject>::from_raw_bytes(&b);
        let rd = <F as SerdeObject>::read_raw(&mut &b[..]).ok();
        if m != rd {
            // both ways to read must agree: recorded as a wrong answer otherwise
            t.put("same", &BigUint::from(1u32), &z, &z, &z, none.clone(), 0);
        }
        let r = m.map(|x| val(&x)).unwrap_or_default();
        let q = t.quot(&r << 256, v);
        t.put("raw", v, &z, &r, &q, m.map(|x| digits(&BigUint::from_bytes_le(&x.to_raw_bytes()))).unwrap_or(none.clone()), m.is_some() as u64);
        elems.extend(m);
        // conversions that reduce
        let l = limbs(v);
        for (a, f) in [
            (v.clone(), F::raw(l)),
            (BigUint::from(l[1]), F::from(l[1])),
            ((BigUint::from(l[2]) << 64) + l[1], F::from_u128((l[2] as u128) << 64 | l[1] as u128)),
        ] {
            let r = val(&f);
            let q = t.quot(a.clone(), &r);
            t.put("reduce", &a, &z, &r, &q, none.clone(), 0);
        }
    }
    for (k, v) in nums.iter().enumerate() {
        let w = &nums[(k * 7 + 13) % nums.len()];
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(&bytes32(v));
        b[32..].copy_from_slice(&bytes32(w));
        if k % 3 == 0 {
            b[32..].fill(0xff);
        }
        let a = BigUint::from_bytes_le(&b);
        let r = val(&F::from_bytes_wide(&b));
        let q = t.quot(a.clone(), &r);
        t.put("reduce", &a, &z, &r, &q, none.clone(), 0);
    }
    // operations
    let n = elems.len();
    let bin = |t: &mut Rec, op: &str, x: &F, y: &F, f: F| {
        let (a, b, r) = (val(x), val(y), val(&f));
        let q = match op {
            "add" => t.quot(&a + &b, &r),
            "mul" => t.quot(&a * &b, &r),
            // a + q p = b + r
            _ => if a < b { BigUint::from(1u32) } else { BigUint::from(0u32) },
        };
        t.put(op, &a, &b, &r, &q, json!(0), 0);
    };
    let mut state = seed | 1;
    for (k, x) in elems.iter().enumerate() {
        bin(&mut t, "mul", x, x, x.square());
        bin(&mut t, "add", x, x, x.double());
        let nx = -*x;
        let (a, r) = (val(x), val(&nx));
        t.put("neg", &a, &z, &r, &BigUint::from((a != z) as u32), none.clone(), 0);
        t.put("odd", &a, &z, &z, &z, none.clone(), bool::from(x.is_odd()) as u64);
        t.put("low", &a, &z, &BigUint::from(x.get_lower_128()), &z, none.clone(), 0);
        t.put("low32", &a, &z, &BigUint::from(x.get_lower_32()), &z, none.clone(), 0);
        bin(&mut t, "sub", x, x, *x - x);
        bin(&mut t, "add", x, &nx, *x + nx);
        for j in 0..per {
            state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let y = if j == 0 { elems[n - 1 - k] } else { elems[(state >> 33) as usize % n] };
            bin(&mut t, "add", x, &y, *x + y);
            bin(&mut t, "sub", x, &y, *x - y);
            bin(&mut t, "mul", x, &y, *x * y);
            let mut s = *x;
            s += &y;
            s -= y;
            s *= &y;
            s.group_add(&y);
            s.group_sub(&y);
            bin(&mut t, "mul", x, &y, s);
            let ord = match x.cmp(&y) {
                std::cmp::Ordering::Less => 0,
                std::cmp::Ordering::Equal => 1,
                _ => 2,
            };
            t.put("cmp", &val(x), &val(&y), &z, &z, none.clone(), ord);
            t.put("cmp", &BigUint::from(1u32), &BigUint::from(if (*x == y) == (val(x) == val(&y)) && bool::from(x.ct_eq(&y)) == (x == &y) { 1u32 } else { 9 }), &z, &z, none.clone(), 1);
        }
        if k % 4 == 0 || k < 40 {
            let iv: Option<F> = x.invert().into();
            let r = iv.map(|f| val(&f)).unwrap_or_default();
            let q = if r == z { z.clone() } else { t.quot(&a * &r, &BigUint::from(1u32)) };
            t.put("inv", &a, &z, &r, &q, none.clone(), iv.is_some() as u64);
        }
    }
    // roots: squares have one, squares times a fixed number without root have none
    let half = (&p - 1u32) / 2u32;
    let mut n0 = F::from(2);
    // smallest number that Euler's criterion (over the integers) says has no root
    while val(&n0).modpow(&half, &p) == BigUint::from(1u32) {
        n0 += F::one();
    }
    euler(&mut t, &val(&n0), &half);
    for (k, x) in elems.iter().enumerate() {
        if k % 16 != 0 && k > 60 {
            continue;
        }
        for (a, want) in [(x.square(), 1u64), (x.square() * n0, bool::from(x.is_zero()) as u64)] {
            let s: Option<F> = a.sqrt().into();
            let r = s.map(|f| val(&f)).unwrap_or_default();
            let q = t.quot(&r * &r, &val(&a));
            t.put("sqrt", &val(&a), &z, &r, &q, json!(want), s.is_some() as u64);
        }
        // powers agree with repeated multiplication (checked above)
        for e in [0u64, 1, 2, 3, 5, 64] {
            let mut m = F::one();
            (0..e).for_each(|_| m = m * x);
            t.put("same", &val(&m), &z, &val(&x.pow_vartime(&[e])), &z, none.clone(), 0);
            t.put("same", &val(&m), &z, &val(&x.pow(&[e, 0, 0, 0])), &z, none.clone(), 0);
        }
        let e = [3u64, 0, 1, 1 << 63];
        let mut m = F::one();
        for i in (0..256).rev() {
            m = m * m;
            if e[i / 64] >> (i % 64) & 1 == 1 {
                m = m * x;
            }
        }
        t.put("same", &val(&m), &z, &val(&x.pow_vartime(&e)), &z, none.clone(), 0);
        t.put("same", &val(&m), &z, &val(&x.pow(&e)), &z, none.clone(), 0);
    }
    // constants
    bin(&mut t, "mul", &F::TWO_INV, &F::from(2), F::one());
    t.put("modulus", &p, &z, &(val(&-F::one()) + 1u32), &z, none.clone(), 0);
    t.put("same", &BigUint::from(p.bits()), &z, &BigUint::from(F::NUM_BITS), &z, none.clone(), 0);
    t.put("same", &BigUint::from(p.bits() - 1), &z, &BigUint::from(F::CAPACITY), &z, none.clone(), 0);
    if consts {
        let mut w = F::root_of_unity();
        bin(&mut t, "mul", &w, &F::ROOT_OF_UNITY_INV, F::one());
        for _ in 0..F::S - 1 {
            let s = w * w;
            bin(&mut t, "mul", &w, &w, s);
            w = s;
        }
        t.put("same", &(&p - 1u32), &z, &val(&w), &z, none.clone(), 0);
        t.put("same", &BigUint::from(F::S), &z, &BigUint::from((&p - 1u32).trailing_zeros().unwrap()), &z, none.clone(), 0);
    }
    if consts && zeta {
        let mut d = F::multiplicative_generator();
        (0..F::S).for_each(|_| d = d * d);
        t.put("same", &val(&d), &z, &val(&F::DELTA), &z, none.clone(), 0);
        euler(&mut t, &val(&F::multiplicative_generator()), &half);
    }
    if zeta {
        // a cube root of one other than one
        let zz = F::ZETA * F::ZETA;
        bin(&mut t, "add", &(zz + F::ZETA), &F::one(), F::zero());
    }
}
/// Euler's criterion as a chain of recorded multiplications: n^half = p - 1.
fn euler(t: &mut Rec, n: &BigUint, half: &BigUint) {
    let p = t.p.clone();
    let z = BigUint::from(0u32);
    let mut acc = BigUint::from(1u32);
    for i in (0..half.bits()).rev() {
        let s = &acc * &acc;
        let r = &s % &p;
        t.put("mul", &acc, &acc, &r, &(&s / &p), json!(0), 0);
        acc = r;
        if half.bit(i) {
            let s = &acc * n;
            let r = &s % &p;
            t.put("mul", &acc, n, &r, &(&s / &p), json!(0), 0);
            acc = r;
        }
    }
    t.put("same", &(&p - 1u32), &z, &acc, &z, json!(0), 0);
}
pub fn run(cases: &[J], out: &str, field: &str, per: usize, seed: u64) {
    match field {
        "bn-q" => record::<halo2curves::bn256::Fq>(cases, out, false, true, per, seed),
        "bn-r" => record::<halo2curves::bn256::Fr>(cases, out, true, true, per, seed),
        "secp-p" => record::<halo2curves::secp256k1::Fp>(cases, out, false, false, per, seed),
        _ => record::<halo2curves::secp256k1::Fq>(cases, out, true, false, per, seed),
    }
}

//! A family of small prime fields with everything the repository's generic code asks of a field, and the
//! replay of cases computed exactly by the specification (Poly.tla, Poseidon.tla, Rational.tla).
use crate::par::Out;
use ff::{Field, PrimeField};
use halo2_proofs::arithmetic::*;
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::Assigned;
use halo2_proofs::poly::{EvaluationDomain, Rotation};
use halo2curves::{FieldExt, Group};
use pasta_curves::arithmetic::SqrtRatio;
use rand_core::RngCore;
use serde_json::Value as J;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

const fn powm(b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    let mut b = b % p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}

macro_rules! tiny {
    ($name:ident, $p:expr, $s:expr, $gen:expr, $bits:expr, $bytes:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
        pub struct $name(pub u64);
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                ((self.0 == o.0) as u8).into()
            }
        }
        impl From<u64> for $name {
            fn from(x: u64) -> Self {
                $name(x % $p)
            }
        }
        impl From<bool> for $name {
            fn from(x: bool) -> Self {
                $name(x as u64)
            }
        }
        impl Neg for $name {
            type Output = Self;
            fn neg(self) -> Self {
                $name(($p - self.0) % $p)
            }
        }
        tiny!(@op $name, Add, add, AddAssign, add_assign, |a: u64, b: u64| (a + b) % $p);
        tiny!(@op $name, Sub, sub, SubAssign, sub_assign, |a: u64, b: u64| (a + $p - b) % $p);
        tiny!(@op $name, Mul, mul, MulAssign, mul_assign, |a: u64, b: u64| (a * b) % $p);
        impl Field for $name {
            fn random(mut rng: impl RngCore) -> Self {
                $name(rng.next_u64() % $p)
            }
            fn zero() -> Self {
                $name(0)
            }
            fn one() -> Self {
                $name(1)
            }
            fn square(&self) -> Self {
                *self * *self
            }
            fn double(&self) -> Self {
                *self + *self
            }
            fn invert(&self) -> CtOption<Self> {
                CtOption::new($name(powm(self.0, $p - 2, $p)), ((self.0 != 0) as u8).into())
            }
            fn sqrt(&self) -> CtOption<Self> {
                match (0..$p).find(|x| x * x % $p == self.0) {
                    Some(x) => CtOption::new($name(x), 1.into()),
                    None => CtOption::new($name(0), 0.into()),
                }
            }
        }
        impl PrimeField for $name {
            type Repr = [u8; $bytes];
            fn from_repr(r: Self::Repr) -> CtOption<Self> {
                let mut v = 0u64;
                for b in r.iter().rev() {
                    v = v << 8 | *b as u64;
                }
                CtOption::new($name(v % $p), ((v < $p) as u8).into())
            }
            fn to_repr(&self) -> Self::Repr {
                let mut r = [0u8; $bytes];
                for (i, b) in r.iter_mut().enumerate() {
                    *b = (self.0 >> (8 * i)) as u8;
                }
                r
            }
            fn is_odd(&self) -> Choice {
                ((self.0 & 1) as u8).into()
            }
            const NUM_BITS: u32 = $bits;
            const CAPACITY: u32 = $bits - 1;
            fn multiplicative_generator() -> Self {
                $name($gen)
            }
            const S: u32 = $s;
            fn root_of_unity() -> Self {
                $name(powm($gen, ($p - 1) >> $s, $p))
            }
        }
        impl SqrtRatio for $name {
            const T_MINUS1_OVER2: [u64; 4] = [((($p - 1) >> $s) - 1) / 2, 0, 0, 0];
            fn get_lower_32(&self) -> u32 {
                self.0 as u32
            }
        }
        impl Group for $name {
            type Scalar = Self;
            fn group_zero() -> Self {
                $name(0)
            }
            fn group_add(&mut self, r: &Self) {
                *self += *r
            }
            fn group_sub(&mut self, r: &Self) {
                *self -= *r
            }
            fn group_scale(&mut self, k: &Self) {
                *self *= *k
            }
        }
        impl FieldExt for $name {
            const MODULUS: &'static str = "tiny";
            const ROOT_OF_UNITY_INV: Self = $name(powm(powm($gen, ($p - 1) >> $s, $p), $p - 2, $p));
            const DELTA: Self = $name(powm($gen, 1 << $s, $p));
            const TWO_INV: Self = $name(($p + 1) / 2);
            const ZETA: Self = $name(powm($gen, ($p - 1) / 3, $p));
            fn from_u128(v: u128) -> Self {
                $name((v % $p as u128) as u64)
            }
            fn from_bytes_wide(b: &[u8; 64]) -> Self {
                $name(b.iter().rev().fold(0u64, |a, x| (a * 256 + *x as u64) % $p))
            }
            fn get_lower_128(&self) -> u128 {
                self.0 as u128
            }
        }
        impl ff::PrimeFieldBits for $name {
            type ReprBits = [u64; 1];
            fn to_le_bits(&self) -> ff::FieldBits<[u64; 1]> {
                ff::FieldBits::new([self.0])
            }
            fn char_le_bits() -> ff::FieldBits<[u64; 1]> {
                ff::FieldBits::new([$p])
            }
        }
        impl From<&J> for $name {
            fn from(j: &J) -> Self {
                $name(j.as_u64().expect("element"))
            }
        }
    };
    (@op $name:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl $tr for $name {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let g: fn(u64, u64) -> u64 = $e;
                $name(g(self.0, o.0))
            }
        }
        impl<'a> $tr<&'a $name> for $name {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                $tr::$f(self, *o)
            }
        }
        impl $tra for $name {
            fn $fa(&mut self, o: Self) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a> $tra<&'a $name> for $name {
            fn $fa(&mut self, o: &'a Self) {
                *self = $tr::$f(*self, *o)
            }
        }
    };
}
tiny!(F13, 13u64, 2, 2u64, 4, 1);
tiny!(F97, 97u64, 5, 5u64, 7, 1);
tiny!(F7, 7u64, 1, 3u64, 3, 1);
tiny!(F37, 37u64, 2, 2u64, 6, 1);
tiny!(F12289, 12289u64, 12, 11u64, 14, 2);

pub trait Small: FieldExt + for<'a> From<&'a J> {}
impl Small for F13 {}
impl Small for F7 {}
impl Small for F37 {}
impl Small for F97 {}
impl Small for F12289 {}

fn vec_of<F: Small>(j: &J) -> Vec<F> {
    j.as_array().expect("array").iter().map(|x| F::from(x)).collect()
}

macro_rules! by_field {
    ($c:expr, $f:ident) => {
        match $c["p"].as_u64().unwrap() {
            13 => $f::<F13>($c),
            97 => $f::<F97>($c),
            12289 => $f::<F12289>($c),
            _ => panic!("field"),
        }
    };
}

macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {
        let (g, w) = ($got, $want);
        if g != w {
            return Out::Bad(format!("{}: {:?} instead of {:?}", $what, g, w));
        }
    };
}

pub fn poly_case(c: &J) -> Out {
    by_field!(c, poly)
}

fn poly<F: Small>(c: &J) -> Out {
    let (k, j) = (c["k"].as_u64().unwrap() as u32, c["j"].as_u64().unwrap() as u32);
    let d = EvaluationDomain::<F>::new(j, k);
    let a: Vec<F> = vec_of(&c["a"]);
    let b: Vec<F> = vec_of(&c["b"]);
    let x = F::from(&c["x"]);
    let v = |n: &str| vec_of::<F>(&c[n]);
    let n = a.len();
    same!("k", d.k(), k);
    same!("extended_k", d.extended_k() as u64, c["ek"].as_u64().unwrap());
    same!("omega", d.get_omega(), F::from(&c["w"]));
    same!("omega_inv", d.get_omega_inv() * d.get_omega(), F::one());
    same!("extended_omega", d.get_extended_omega(), F::from(&c["ew"]));
    same!("quotient degree", d.get_quotient_poly_degree(), j as usize - 1);
    let pa = d.coeff_from_vec(a.clone());
    let pb = d.coeff_from_vec(b.clone());
    let la = d.lagrange_from_vec(a.clone());
    same!("lagrange_to_coeff of values", d.lagrange_to_coeff(d.lagrange_from_vec(v("dom"))).to_vec(), a.clone());
    same!("lagrange_to_coeff", d.lagrange_to_coeff(la.clone()).to_vec(), v("coeff"));
    let ea = d.coeff_to_extended(pa.clone());
    same!("coeff_to_extended", ea.to_vec(), v("coset"));
    let parts: Vec<Vec<F>> = c["parts"].as_array().unwrap().iter().map(vec_of).collect();
    let got = d.coeff_to_extended_parts(&pa);
    same!("coeff_to_extended_parts", got.iter().map(|p| p.to_vec()).collect::<Vec<_>>(), parts.clone());
    let batch = d.batched_coeff_to_extended_parts(&[pa.clone(), pb.clone()]);
    let gb = d.coeff_to_extended_parts(&pb);
    for (i, p) in batch.iter().enumerate() {
        same!("batched parts", p[0].to_vec(), parts[i].clone());
        same!("batched parts", p[1].to_vec(), gb[i].to_vec());
    }
    same!("number of parts", batch.len(), parts.len());
    same!("extended_from_lagrange_vec", d.extended_from_lagrange_vec(got).to_vec(), v("coset"));
    // back to coefficients: the result is cut to the length of the quotient
    let mut back = a.clone();
    back.resize(n * (j as usize - 1).max(1), F::zero());
    if j > 1 {
        same!("extended_to_coeff", d.extended_to_coeff(ea.clone()), back);
    }
    let mut e = d.empty_extended();
    same!("empty_extended", e.to_vec(), vec![F::zero(); 1 << d.extended_k()]);
    e.iter_mut().zip(v("bcoset")).for_each(|(e, x)| *e = x);
    if j > 1 {
        let bc = d.extended_to_coeff(e.clone());
        same!("extended_to_coeff", bc[..n].to_vec(), b.clone());
        same!("extended_to_coeff tail", bc[n..].iter().all(|x| *x == F::zero()), true);
    }
    same!("divide_by_vanishing_poly", d.divide_by_vanishing_poly(ea.clone()).to_vec(), v("quot"));
    same!("add", (pa.clone() + &pb).to_vec(), v("add"));
    same!("sub", (pa.clone() - &pb).to_vec(), v("sub"));
    same!("scale", (pa.clone() * x).to_vec(), v("scale"));
    same!("scale", (ea.clone() * x).to_vec(), v("coset").iter().map(|y| *y * x).collect::<Vec<_>>());
    same!("minus constant", (&pa - x).to_vec(), v("minus"));
    same!("constant_lagrange", d.constant_lagrange(x).to_vec(), vec![x; n]);
    same!("constant_extended", d.constant_extended(x).to_vec(), vec![x; 1 << d.extended_k()]);
    same!("empty", (d.empty_coeff().to_vec(), d.empty_lagrange().to_vec()), (vec![F::zero(); n], vec![F::zero(); n]));
    let rots: Vec<&J> = c["rots"].as_array().unwrap().iter().collect();
    for r in &rots {
        let i = r["r"].as_i64().unwrap() as i32;
        if i.unsigned_abs() as usize <= n {
            same!("rotate", la.rotate(Rotation(i)).to_vec(), vec_of::<F>(&r["dom"]));
            same!("rotate_extended", d.rotate_extended(&ea, Rotation(i)).to_vec(), vec_of::<F>(&r["ext"]));
        }
        same!("rotate_omega", d.rotate_omega(x, Rotation(i)), F::from(&r["pt"]));
    }
    if rots[0]["li"].as_i64() != Some(-1) {
        let is: Vec<i32> = rots.iter().map(|r| r["r"].as_i64().unwrap() as i32).collect();
        let li: Vec<F> = rots.iter().map(|r| F::from(&r["li"])).collect();
        same!("l_i_range", d.l_i_range(x, F::from(&c["xn"]), is), li);
    }
    same!("eval_polynomial", eval_polynomial(&a, x), F::from(&c["eval"]));
    same!("inner product", compute_inner_product(&a, &b), F::from(&c["inner"]));
    same!("kate_division", kate_division(&a, x), v("kate"));
    same!("lagrange_interpolate", lagrange_interpolate(&v("pts"), &v("ys")), v("interp"));
    let mut f = a.clone();
    best_fft(&mut f, d.get_omega(), k);
    same!("best_fft", f, v("dom"));
    let mut f = a.clone();
    best_fft(&mut f, d.get_omega_inv(), k);
    same!("best_fft with the inverse root", f, v("fftx"));
    Out::Ok("same")
}

pub fn wide_case(c: &J) -> Out {
    by_field!(c, wide)
}

fn wide<F: Small>(c: &J) -> Out {
    let (k, j) = (c["k"].as_u64().unwrap() as u32, c["j"].as_u64().unwrap() as u32);
    let d = EvaluationDomain::<F>::new(j, k);
    let (a, b): (Vec<F>, Vec<F>) = (vec_of(&c["a"]), vec_of(&c["b"]));
    let x = F::from(&c["x"]);
    let v = |n: &str| vec_of::<F>(&c[n]);
    let (pa, pb) = (d.coeff_from_vec(a.clone()), d.coeff_from_vec(b.clone()));
    let short = |v: Vec<F>, w: Vec<F>| v.iter().zip(w.iter()).position(|(a, b)| a != b).map(|i| (i, v[i], w[i])).or(if v.len() == w.len() { None } else { Some((v.len().min(w.len()), F::zero(), F::zero())) });
    macro_rules! long {
        ($what:expr, $got:expr, $want:expr) => {
            if let Some((i, g, w)) = short($got, $want) {
                return Out::Bad(format!("{} with k = {}: entry {} is {:?} instead of {:?}", $what, k, i, g, w));
            }
        };
    }
    same!("omega", (d.get_omega(), d.get_extended_omega()), (F::from(&c["w"]), F::from(&c["ew"])));
    long!("lagrange_to_coeff", d.lagrange_to_coeff(d.lagrange_from_vec(v("dom"))).to_vec(), a.clone());
    let ea = d.coeff_to_extended(pa.clone());
    long!("coeff_to_extended", ea.to_vec(), v("coset"));
    let mut back = a.clone();
    back.resize(a.len() * (j as usize - 1), F::zero());
    long!("extended_to_coeff", d.extended_to_coeff(ea.clone()), back);
    let parts = d.batched_coeff_to_extended_parts(&[pb.clone(), pa.clone()]);
    long!("batched parts", d.extended_from_lagrange_vec(parts.into_iter().map(|mut p| p.pop().unwrap()).collect()).to_vec(), v("coset"));
    let mut f = a.clone();
    best_fft(&mut f, d.get_omega(), k);
    long!("best_fft", f, v("dom"));
    let mut f = v("bdom");
    best_fft(&mut f, d.get_omega_inv(), k);
    let n = F::from(&J::from(a.len() as u64));
    long!("best_fft", f, b.iter().map(|y| *y * n).collect());
    same!("eval_polynomial", eval_polynomial(&a, x), F::from(&c["eval"]));
    long!("kate_division", kate_division(&a, x), v("kate"));
    let la = d.lagrange_from_vec(a.clone());
    let rots: Vec<&J> = c["rots"].as_array().unwrap().iter().collect();
    for r in &rots {
        let i = r["r"].as_i64().unwrap();
        same!(format!("rotate_omega by {}", i), d.rotate_omega(x, Rotation(i as i32)), F::from(&r["pt"]));
        if i.unsigned_abs() as usize <= a.len() {
            let at = |v: &[F], m: i64| (0..v.len()).map(|q| v[(q as i64 + i * m).rem_euclid(v.len() as i64) as usize]).collect::<Vec<F>>();
            long!(format!("rotate by {}", i), la.rotate(Rotation(i as i32)).to_vec(), at(&a, 1));
            long!(format!("rotate_extended by {}", i), d.rotate_extended(&ea, Rotation(i as i32)).to_vec(), at(&ea, (ea.len() / a.len()) as i64));
        }
    }
    if rots[0]["li"].as_i64() != Some(-1) {
        same!("l_i_range", d.l_i_range(x, F::from(&c["xn"]), rots.iter().map(|r| r["r"].as_i64().unwrap() as i32).collect::<Vec<_>>()), rots.iter().map(|r| F::from(&r["li"])).collect::<Vec<F>>());
    }
    Out::Ok("same")
}

// ---- Poseidon --------------------------------------------------------------------------------------
fn varlen<F: Small, const T: usize, const RATE: usize>(c: &J) -> Out {
    let mut h = poseidon::Poseidon::<F, T, RATE>::new(c["rf"].as_u64().unwrap() as usize, c["rp"].as_u64().unwrap() as usize);
    let mut got = vec![];
    for op in c["ops"].as_array().unwrap() {
        if op.as_array().unwrap().first().map(|x| x.as_i64() == Some(-1)).unwrap_or(false) {
            got.push(h.squeeze());
        } else {
            h.update(&vec_of::<F>(op));
        }
    }
    same!("digests", got, vec_of::<F>(&c["outs"]));
    Out::Ok("varlen")
}

#[derive(Debug)]
pub struct Sp<const RF: usize, const RP: usize, const SKIP: usize>;
impl<F: FieldExt, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const SKIP: usize>
    halo2_gadgets::poseidon::primitives::Spec<F, T, RATE> for Sp<RF, RP, SKIP>
{
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        v.square().square() * v
    }
    fn secure_mds() -> usize {
        SKIP
    }
}
fn constlen<F: Small, S: halo2_gadgets::poseidon::primitives::Spec<F, T, RATE>, const T: usize, const RATE: usize>(c: &J) -> Out {
    use halo2_gadgets::poseidon::primitives::{ConstantLength, Hash};
    let m: Vec<F> = vec_of(&c["ops"][0]);
    macro_rules! go {
        ($($l:expr),*) => {
            match m.len() {
                $($l => Hash::<F, S, ConstantLength<$l>, T, RATE>::init().hash(m.try_into().unwrap()),)*
                _ => panic!("length"),
            }
        };
    }
    let got: F = go!(1, 2, 3, 4, 5, 6, 7, 8, 9);
    same!("digest", got, F::from(&c["outs"][0]));
    Out::Ok("const")
}

pub fn poseidon_case(c: &J) -> Out {
    by_field!(c, poseidon_f)
}
fn poseidon_f<F: Small>(c: &J) -> Out {
    let u = |n: &str| c[n].as_u64().unwrap();
    if c["which"] == "varlen" {
        return match u("t") {
            2 => varlen::<F, 2, 1>(c),
            3 => varlen::<F, 3, 2>(c),
            4 => varlen::<F, 4, 3>(c),
            5 => varlen::<F, 5, 4>(c),
            9 => varlen::<F, 9, 8>(c),
            _ => panic!("width"),
        };
    }
    match (u("t"), u("rf"), u("rp"), u("skip")) {
        (3, 8, 56, 0) => constlen::<F, Sp<8, 56, 0>, 3, 2>(c),
        (3, 8, 57, 1) => constlen::<F, Sp<8, 57, 1>, 3, 2>(c),
        (3, 4, 3, 2) => constlen::<F, Sp<4, 3, 2>, 3, 2>(c),
        (2, 4, 6, 0) => constlen::<F, Sp<4, 6, 0>, 2, 1>(c),
        (5, 8, 10, 0) => constlen::<F, Sp<8, 10, 0>, 5, 4>(c),
        x => panic!("{:?}", x),
    }
}

// ---- Assigned and Value ------------------------------------------------------------------------------
pub fn rational_case(c: &J) -> Out {
    by_field!(c, rational)
}
fn elem<F: Small>(j: &J) -> Assigned<F> {
    match j[0].as_str().unwrap() {
        "z" => Assigned::Zero,
        "t" => Assigned::Trivial(F::from(&j[1])),
        _ => Assigned::Rational(F::from(&j[1]), F::from(&j[2])),
    }
}
fn opened<T: Clone>(v: &Value<T>) -> Option<T> {
    let mut r = None;
    v.as_ref().map(|x| r = Some(x.clone()));
    r
}
fn rational<F: Small>(c: &J) -> Out {
    let (l, r) = (elem::<F>(&c["l"]), elem::<F>(&c["r"]));
    let w = |n: &str| F::from(&c[n]);
    // the value of an element, also as the batched inversion of the back end computes it
    let ev = |a: Assigned<F>| {
        let v = a.evaluate();
        let mut d = [a.denominator().unwrap_or(F::one())];
        use ff::BatchInvert;
        d.iter_mut().batch_invert();
        let b = a.numerator() * d[0];
        if a.denominator().map(|d| d.is_zero_vartime()).unwrap_or(false) || v == b { v } else { panic!("batched {:?} {:?}", v, b) }
    };
    same!("value", ev(l), w("x"));
    same!("value", ev(r), w("y"));
    let y = w("y");
    same!("add", [ev(l + r), ev(&l + &r), ev(l + &r), ev(&l + r), ev(l + y), ev(&l + y)], [w("add"); 6]);
    same!("sub", [ev(l - r), ev(&l - &r), ev(l - &r), ev(&l - r), ev(l - y), ev(&l - y)], [w("sub"); 6]);
    same!("mul", [ev(l * r), ev(l * &r), ev(l * y), ev(&l * y)], [w("mul"); 4]);
    let (mut p, mut q, mut m) = (l, l, l);
    p += r;
    q -= r;
    m *= r;
    same!("assign ops", [ev(p), ev(q), ev(m)], [w("add"), w("sub"), w("mul")]);
    let (mut p, mut q, mut m) = (l, l, l);
    p += &r;
    q -= &r;
    m *= &r;
    same!("assign ops", [ev(p), ev(q), ev(m)], [w("add"), w("sub"), w("mul")]);
    same!("unary", [ev(-l), ev(-&l), ev(l.double()), ev(l.square()), ev(l.cube()), ev(l.invert())], [w("neg"), w("neg"), w("dbl"), w("sq"), w("cube"), w("inv")]);
    same!("equality", (l == r, r == l, l != r), (c["eq"].as_bool().unwrap(), c["eq"].as_bool().unwrap(), !c["eq"].as_bool().unwrap()));
    same!("zero test", l.is_zero_vartime(), c["zero"].as_bool().unwrap());
    let invd = Assigned::from((l.numerator(), l.denominator().unwrap_or(F::one())));
    same!("rebuilt", ev(invd), w("x"));
    // values: known ones behave as their contents, unknown ones stay unknown
    let (kl, kr, un) = (Value::known(l), Value::known(r), Value::<Assigned<F>>::unknown());
    let vy = Value::known(y);
    let e = |v: Value<Assigned<F>>| opened(&v.evaluate());
    same!("Value add", [e(kl + kr), e(&kl + &kr), e(kl + &kr), e(&kl + kr), e(kl + kr.as_ref()), e(kl.as_ref() + kr), e(kl + vy), e(kl + y), e(kl.as_ref() + vy), e(kl.as_ref() + y)], [Some(w("add")); 10]);
    same!("Value sub", [e(kl - kr), e(&kl - &kr), e(kl - &kr), e(&kl - kr), e(kl - kr.as_ref()), e(kl.as_ref() - kr), e(kl - vy), e(kl - y), e(kl.as_ref() - vy), e(kl.as_ref() - y)], [Some(w("sub")); 10]);
    same!("Value mul", [e(kl * kr), e(kl * &kr), e(kl * kr.as_ref()), e(kl * vy), e(kl * y), e(kl.as_ref() * vy), e(kl.as_ref() * y)], [Some(w("mul")); 7]);
    same!("Value unary", [e(-kl), e(kl.double()), e(kl.square()), e(kl.cube()), e(kl.invert()), e(kl.to_field()), e(kl.into_field())], [Some(w("neg")), Some(w("dbl")), Some(w("sq")), Some(w("cube")), Some(w("inv")), Some(w("x")), Some(w("x"))]);
    let uy = Value::<F>::unknown();
    let none = [e(un + kr), e(kl + un), e(&un + &kr), e(&kl + &un), e(un - kr), e(kl - un), e(un * kr), e(kl * un), e(kl + uy), e(un + y), e(kl - uy), e(un - y), e(kl * uy), e(un * y), e(-un),
                e(un.double()), e(un.square()), e(un.cube()), e(un.invert()), e(un.to_field()), e(un.into_field())];
    same!("unknown", none.iter().all(|x| x.is_none()), true);
    same!("is_none", (un.is_none(), kl.is_none()), (true, false));
    same!("zip", (opened(&kl.zip(kr)).map(|(a, b)| (ev(a), ev(b))), opened(&kl.zip(un)).is_none(), opened(&un.zip(kl)).is_none()), (Some((w("x"), y)), true, true));
    let many = |vs: Vec<Value<F>>| opened(&vs.into_iter().collect::<Value<Vec<F>>>());
    same!("collect", (many(vec![vy, Value::known(w("x"))]), many(vec![vy, uy]), many(vec![uy, vy])), (Some(vec![y, w("x")]), None, None));
    same!("transpose", Value::known([w("x"), y]).transpose_array().iter().map(|v| opened(v)).collect::<Vec<_>>(), vec![Some(w("x")), Some(y)]);
    same!("transpose", Value::<[F; 2]>::unknown().transpose_array().iter().map(|v| opened(v)).collect::<Vec<_>>(), vec![None, None]);
    same!("transpose_vec", Value::known(vec![w("x"), y]).transpose_vec(2).iter().map(|v| opened(v)).collect::<Vec<_>>(), vec![Some(w("x")), Some(y)]);
    same!("transpose_vec", Value::<Vec<F>>::unknown().transpose_vec(3).iter().map(|v| opened(v)).collect::<Vec<_>>(), vec![None, None, None]);
    same!("error_if_known_and", (kl.error_if_known_and(|v| v.is_zero_vartime()).is_err(), un.error_if_known_and(|_| true).is_err()), (c["zero"].as_bool().unwrap(), false));
    Out::Ok("same")
}

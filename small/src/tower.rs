//! Binding of spec/Tower.tla and spec/Pairing.tla to the extension fields and the pairing of bn256.
use crate::par::Out;
use crate::util::{arr, i};
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2curves::bn256::{multi_miller_loop, pairing, Bn256, Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine, G2Prepared, Gt, LegendreSymbol, G1, G2};
use halo2curves::pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use num_bigint::BigUint;
use serde_json::Value as J;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

type Flat = [(Fq, Fq); 6];
fn int(v: i64) -> Fq {
    let m = Fq::from(v.unsigned_abs());
    if v < 0 {
        -m
    } else {
        m
    }
}
fn flat(v: &J) -> Flat {
    let mut f = [(Fq::zero(), Fq::zero()); 6];
    for (k, c) in arr(v).iter().enumerate() {
        f[k] = (int(i(&arr(c)[0])), int(i(&arr(c)[1])));
    }
    f
}
fn scale(s: Fq, a: &Flat) -> Flat {
    a.map(|(x, y)| (x * s, y * s))
}
fn mul(a: &Flat, b: &Flat) -> Flat {
    let mut r = [(Fq::zero(), Fq::zero()); 11];
    for (k, x) in a.iter().enumerate() {
        for (l, y) in b.iter().enumerate() {
            r[k + l].0 += x.0 * y.0 - x.1 * y.1;
            r[k + l].1 += x.0 * y.1 + x.1 * y.0;
        }
    }
    let mut o = [(Fq::zero(), Fq::zero()); 6];
    let nine = Fq::from(9);
    for k in 0..6 {
        o[k] = r[k];
        if k + 6 < 11 {
            let h = r[k + 6];
            o[k].0 += nine * h.0 - h.1;
            o[k].1 += nine * h.1 + h.0;
        }
    }
    o
}
fn one() -> Flat {
    let mut o = [(Fq::zero(), Fq::zero()); 6];
    o[0].0 = Fq::one();
    o
}
fn pow(a: &Flat, e: &BigUint) -> Flat {
    let mut acc = one();
    for n in (0..e.bits()).rev() {
        acc = mul(&acc, &acc);
        if e.bit(n) {
            acc = mul(&acc, a);
        }
    }
    acc
}
fn conj(a: &Flat) -> Flat {
    let mut o = *a;
    for k in [1, 3, 5] {
        o[k] = (-o[k].0, -o[k].1);
    }
    o
}
fn q() -> BigUint {
    BigUint::from_bytes_le((-Fq::one()).to_repr().as_ref()) + 1u32
}
fn f2(p: (Fq, Fq)) -> Fq2 {
    Fq2 { c0: p.0, c1: p.1 }
}
trait Level: Field {
    fn to(f: &Flat) -> Self;
    fn back(&self) -> Flat;
    fn frob(&mut self, n: usize);
    fn other(&self, op: &str, y: &Flat) -> Option<Self>;
    fn assign_ops(&self, y: &Self) -> [Self; 3];
    fn sq(&self) -> Self;
}
macro_rules! common {
    () => {
        fn frob(&mut self, n: usize) {
            self.frobenius_map(n)
        }
        fn assign_ops(&self, y: &Self) -> [Self; 3] {
            let mut m = *self;
            m.mul_assign(y);
            let mut s = *self;
            s.square_assign();
            let mut d = *self;
            d.double_assign();
            [m, s, d]
        }
        fn sq(&self) -> Self {
            Self::square(self)
        }
    };
}
impl Level for Fq2 {
    fn to(f: &Flat) -> Self {
        f2(f[0])
    }
    fn back(&self) -> Flat {
        let mut o = [(Fq::zero(), Fq::zero()); 6];
        o[0] = (self.c0, self.c1);
        o
    }
    fn other(&self, op: &str, _: &Flat) -> Option<Self> {
        let mut r = *self;
        match op {
            "conjugate" => r.conjugate(),
            "nonresidue" => r.mul_by_nonresidue(),
            "xi" => r.mul_by_xi(),
            "norm" => r = Fq2 { c0: self.norm(), c1: Fq::zero() },
            _ => return None,
        }
        Some(r)
    }
    common!();
}
impl Level for Fq6 {
    fn to(f: &Flat) -> Self {
        Fq6 { c0: f2(f[0]), c1: f2(f[2]), c2: f2(f[4]) }
    }
    fn back(&self) -> Flat {
        let mut o = [(Fq::zero(), Fq::zero()); 6];
        for (k, c) in [(0, self.c0), (2, self.c1), (4, self.c2)] {
            o[k] = (c.c0, c.c1);
        }
        o
    }
    fn other(&self, op: &str, y: &Flat) -> Option<Self> {
        let mut r = *self;
        match op {
            "nonresidue" => r.mul_by_nonresidue(),
            "v" => r.mul_by_v(),
            "mul1" => r.mul_by_1(&f2(y[2])),
            "mul01" => r.mul_by_01(&f2(y[0]), &f2(y[2])),
            _ => return None,
        }
        Some(r)
    }
    common!();
}
impl Level for Fq12 {
    fn to(f: &Flat) -> Self {
        Fq12 { c0: Fq6::to(f), c1: Fq6 { c0: f2(f[1]), c1: f2(f[3]), c2: f2(f[5]) } }
    }
    fn back(&self) -> Flat {
        let mut o = self.c0.back();
        let h = self.c1.back();
        for k in 0..3 {
            o[2 * k + 1] = h[2 * k];
        }
        o
    }
    fn other(&self, op: &str, y: &Flat) -> Option<Self> {
        let mut r = *self;
        match op {
            "conjugate" => r.conjugate(),
            "mul014" => r.mul_by_014(&f2(y[0]), &f2(y[2]), &f2(y[3])),
            "mul034" => r.mul_by_034(&f2(y[0]), &f2(y[1]), &f2(y[3])),
            _ => return None,
        }
        Some(r)
    }
    common!();
}
fn judge<L: Level>(c: &J) -> Result<(), String> {
    let op = c["op"].as_str().unwrap();
    let (x0, y0, w0) = (flat(&c["x"]), flat(&c["y"]), flat(&c["want"]));
    // the operations are homogeneous, so the integers may be multiplied by any element of the base field
    let big = -(Fq::from(0x1234_5678_9abc_def1).square().square() + Fq::from(5).invert().unwrap());
    let units = [(Fq::one(), Fq::one()), (big, big.square()), (-Fq::one(), big)];
    for (s, t) in units {
        let (x, y) = (scale(s, &x0), scale(t, &y0));
        let deg = match op {
            "mul" | "mul1" | "mul01" | "mul014" | "mul034" => s * t,
            "add" | "sub" => {
                if s != t {
                    continue;
                }
                s
            }
            "square" | "norm" | "sqrt" | "nosqrt" => s.square(),
            _ => s,
        };
        let w = scale(deg, &w0);
        let (a, b) = (L::to(&x), L::to(&y));
        let same = |what: &str, got: L, want: &Flat| -> Result<(), String> {
            if got.back() != *want || got != L::to(want) {
                return Err(format!("{} at level {}: {:?}, specified {:?}", what, c["level"], got, want));
            }
            Ok(())
        };
        let zero = x == [(Fq::zero(), Fq::zero()); 6];
        match op {
            "mul" => {
                same("a * b", a * b, &w)?;
                same("mul_assign", a.assign_ops(&b)[0], &w)?;
                let mut m = a;
                m *= b;
                same("*=", m, &w)?;
            }
            "add" => {
                same("a + b", a + b, &w)?;
                let mut m = a;
                m += b;
                same("+=", m, &w)?;
                if bool::from(L::conditional_select(&a, &b, Choice::from(0)).ct_eq(&b)) != (a == b) || (a == b) != (x == y) || L::conditional_select(&a, &b, Choice::from(1)) != b {
                    return Err(format!("selection or equality of {:?} and {:?}", a, b));
                }
                if bool::from(a.is_zero()) != zero {
                    return Err(format!("is_zero of {:?}", a));
                }
            }
            "sub" => {
                same("a - b", a - b, &w)?;
                let mut m = a;
                m -= b;
                same("-=", m, &w)?;
            }
            "square" => {
                same("square", a.sq(), &w)?;
                same("Field::square", Field::square(&a), &w)?;
                same("square_assign", a.assign_ops(&a)[1], &w)?;
            }
            "double" => {
                same("double", Field::double(&a), &w)?;
                same("double_assign", a.assign_ops(&a)[2], &w)?;
            }
            "neg" => same("negation", -a, &w)?,
            "invert" => {
                let r: Option<L> = a.invert().into();
                match r {
                    None if zero => {}
                    Some(r) if !zero && mul(&r.back(), &x) == one() && r == L::to(&r.back()) => {}
                    r => return Err(format!("inverse of {:?}: {:?}", a, r)),
                }
            }
            "frobenius" => {
                let n = c["n"].as_u64().unwrap();
                let mut m = a;
                m.frob(n as usize);
                same("frobenius_map", m, &pow(&x, &q().pow(n as u32)))?;
            }
            "sqrt" | "nosqrt" => {
                let v = L::to(&w);
                let r: Option<L> = v.sqrt().into();
                let good = match (&r, op) {
                    (Some(r), "sqrt") => mul(&r.back(), &r.back()) == w,
                    (Some(r), _) => zero && bool::from(r.is_zero()),
                    (None, o) => o == "nosqrt" && !zero,
                };
                if !good {
                    return Err(format!("square root of {:?}: {:?}", v, r));
                }
                let l = f2(w[0]).legendre();
                let wl = if zero {
                    LegendreSymbol::Zero
                } else if op == "sqrt" {
                    LegendreSymbol::QuadraticResidue
                } else {
                    LegendreSymbol::QuadraticNonResidue
                };
                if l != wl {
                    return Err(format!("legendre of {:?}: {:?}", v, l));
                }
            }
            "cyclotomic" => {
                if zero {
                    continue;
                }
                // x^((q^6 - 1)(q^2 + 1)) lies in the cyclotomic subgroup
                let inv: Flat = L::to(&x).invert().unwrap().back();
                let e = mul(&conj(&x), &inv);
                let y = mul(&pow(&e, &q().pow(2)), &e);
                let mut m = Fq12::to(&y);
                m.cyclotomic_square();
                same("cyclotomic_square", L::to(&m.back()), &mul(&y, &y))?;
            }
            _ => match a.other(op, &y) {
                Some(r) => same(op, r, &w)?,
                None => return Err(format!("HARNESS: unknown operation {}", op)),
            },
        }
    }
    Ok(())
}
pub fn tower_case(c: &J) -> Out {
    let r = match c["level"].as_u64().unwrap() {
        2 => judge::<Fq2>(c),
        6 => judge::<Fq6>(c),
        _ => judge::<Fq12>(c),
    };
    match r {
        Ok(()) => Out::Ok("agrees"),
        Err(e) => Out::Bad(e),
    }
}

pub struct Base {
    e: Gt,
    powers: Vec<Gt>,
}
impl Base {
    pub fn new() -> Self {
        let e = pairing(&G1Affine::generator(), &G2Affine::generator());
        // the powers, by repeated multiplication
        let mut p = vec![Gt::identity()];
        for k in 0..4000 {
            p.push(p[k] + e);
        }
        Base { e, powers: p }
    }
    fn at(&self, n: i64) -> Gt {
        let g = self.powers[n.unsigned_abs() as usize];
        if n < 0 {
            -g
        } else {
            g
        }
    }
}
fn fr(n: i64) -> Fr {
    let m = Fr::from(n.unsigned_abs());
    if n < 0 {
        -m
    } else {
        m
    }
}
pub fn pairing_case(b: &Base, c: &J) -> Out {
    let ts: Vec<(i64, i64)> = arr(&c["terms"]).iter().map(|t| (i(&arr(t)[0]), i(&arr(t)[1]))).collect();
    let g1: Vec<G1Affine> = ts.iter().map(|t| (G1::generator() * fr(t.0)).to_affine()).collect();
    let g2: Vec<G2Affine> = ts.iter().map(|t| (G2::generator() * fr(t.1)).to_affine()).collect();
    let pre: Vec<G2Prepared> = g2.iter().map(|p| G2Prepared::from(*p)).collect();
    let refs: Vec<(&G1Affine, &G2Prepared)> = g1.iter().zip(pre.iter()).collect();
    let want = b.at(i(&c["value"]));
    let mut got = vec![("multi_miller_loop", multi_miller_loop(&refs).final_exponentiation()), ("Bn256::multi_miller_loop", Bn256::multi_miller_loop(&refs).final_exponentiation())];
    let each: Vec<Gt> = g1.iter().zip(&g2).map(|(p, q)| pairing(p, q)).collect();
    got.push(("the product of pairings", each.iter().sum::<Gt>()));
    if ts.len() == 1 {
        got.push(("Engine::pairing", Bn256::pairing(&g1[0], &g2[0])));
        got.push(("G1::pairing_with", g1[0].pairing_with(&g2[0])));
        got.push(("G2::pairing_with", g2[0].pairing_with(&g1[0])));
    }
    for (w, g) in &got {
        if *g != want || bool::from(g.is_identity()) != (i(&c["value"]) == 0) {
            return Out::Bad(format!("{}: not e(G, H) * {}", w, c["value"]));
        }
    }
    let mut acc = want;
    for (o, w) in arr(&c["prog"]).iter().zip(arr(&c["want"])) {
        let k = i(&o["k"]);
        acc = match o["o"].as_str().unwrap() {
            "double" => acc.double(),
            "neg" => -acc,
            "mul" => acc * fr(k),
            "add" => acc + b.at(k),
            "sub" => acc - b.at(k),
            x => return Out::Bad(format!("HARNESS: {}", x)),
        };
        if acc != b.at(i(w)) {
            return Out::Bad(format!("after {}: not e(G, H) * {}", o, w));
        }
    }
    // the order of the target group
    if b.e * (-Fr::one()) + b.e != Gt::identity() || b.e == Gt::identity() {
        return Out::Bad("e(G, H) is not of the order of the group".into());
    }
    Out::Ok("agrees")
}

//! Binding of spec/Curve.tla and spec/Msm.tla: the real curve operations follow the specified multiples of the generator, which are
//! computed here by the chord and tangent law over the coordinate field.
use crate::par::Out;
use crate::util::{arr, i, order};
use ff::Field;
use group::{Curve, Group, GroupEncoding};
use halo2_proofs::arithmetic::{best_multiexp, small_multiexp};
use halo2curves::{CurveAffine, CurveExt, FieldExt, Group as HGroup};
use num_bigint::{BigInt, BigUint, Sign};
use serde_json::Value as J;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

type Aff<F> = Option<(F, F)>;
/// Chord and tangent law on y^2 = x^3 + b.
pub fn law<F: Field>(p: &Aff<F>, q: &Aff<F>) -> Aff<F> {
    let ((x1, y1), (x2, y2)) = match (p, q) {
        (None, _) => return *q,
        (_, None) => return *p,
        (Some(a), Some(b)) => (*a, *b),
    };
    let l = if x1 == x2 {
        if y1 != y2 || bool::from(y1.is_zero()) {
            return None;
        }
        (x1.square() + x1.square() + x1.square()) * (y1 + y1).invert().unwrap()
    } else {
        (y2 - y1) * (x2 - x1).invert().unwrap()
    };
    let x = l.square() - x1 - x2;
    Some((x, l * (x1 - x) - y1))
}
pub fn times<F: Field>(k: &BigUint, g: &Aff<F>) -> Aff<F> {
    let mut acc = None;
    for n in (0..k.bits()).rev() {
        acc = law(&acc, &acc);
        if k.bit(n) {
            acc = law(&acc, g);
        }
    }
    acc
}
pub fn vector(v: &J) -> BigInt {
    arr(v).iter().rev().fold(BigInt::from(0), |a, c| (a << 64) + i(c))
}
pub fn modulo(v: BigInt, r: &BigInt) -> BigUint {
    let x = ((v % r) + r) % r;
    let (s, n) = x.into_parts();
    assert!(s != Sign::Minus);
    n
}
pub fn scalar_of<F: FieldExt>(k: &BigUint) -> F {
    k.to_bytes_be().iter().fold(F::zero(), |a, b| a * F::from(256) + F::from(*b as u64))
}
/// Everything the replay needs of a curve.
pub struct World<C: CurveAffine> {
    g: Aff<C::Base>,
    r: BigInt,
    cache: std::sync::Mutex<std::collections::HashMap<BigUint, Aff<C::Base>>>,
}
#[derive(Clone, Copy)]
enum Pt<C: CurveAffine> {
    A(C),
    J(C::CurveExt),
}
impl<C: CurveAffine> World<C> where C::CurveExt: CurveExt<Base = <C as CurveAffine>::Base> {
    pub fn new() -> Self {
        let c = C::generator().coordinates().unwrap();
        World { g: Some((*c.x(), *c.y())), r: order::<C::Scalar>(), cache: Default::default() }
    }
    /// The specified point.
    pub fn at(&self, v: BigInt) -> Aff<C::Base> {
        let k = modulo(v, &self.r);
        if let Some(p) = self.cache.lock().unwrap().get(&k) {
            return *p;
        }
        // -k is closer for small negative multiples
        let neg = BigUint::try_from(self.r.clone()).unwrap() - &k;
        let p = if neg < k { times(&neg, &self.g).map(|(x, y)| (x, -y)) } else { times(&k, &self.g) };
        self.cache.lock().unwrap().insert(k, p);
        p
    }
    pub fn affine(p: &Aff<C::Base>) -> C {
        match p {
            None => C::identity(),
            Some((x, y)) => C::from_xy(*x, *y).unwrap(),
        }
    }
    fn jac(p: &Aff<C::Base>, z: C::Base) -> C::CurveExt {
        match p {
            None if z == C::Base::one() => C::CurveExt::identity(),
            None => C::CurveExt::new_jacobian(z.square() * z, z.square() + C::Base::one(), C::Base::zero()).unwrap(),
            Some((x, y)) => C::CurveExt::new_jacobian(*x * z.square(), *y * z.square() * z, z).unwrap(),
        }
    }
    fn start(&self, m: i64, rep: &str) -> Pt<C> {
        let p = self.at(BigInt::from(m));
        match rep {
            "affine" => Pt::A(Self::affine(&p)),
            "one" => Pt::J(Self::jac(&p, C::Base::one())),
            "two" => Pt::J(Self::jac(&p, C::Base::from(2))),
            _ => Pt::J(Self::jac(&p, -C::Base::from(3).invert().unwrap())),
        }
    }
    fn check_affine(&self, what: &str, got: C, want: &Aff<C::Base>) -> Result<(), String> {
        let ok = match want {
            None => bool::from(got.is_identity()) && got == C::identity(),
            Some((x, y)) => {
                !bool::from(got.is_identity()) && {
                    let c = got.coordinates().unwrap();
                    c.x() == x && c.y() == y
                }
            }
        };
        if !ok || !bool::from(got.is_on_curve()) {
            return Err(format!("{}: {:?}, specified {:?}", what, got, want));
        }
        Ok(())
    }
    fn check_jac(&self, what: &str, got: C::CurveExt, want: &Aff<C::Base>) -> Result<(), String> {
        let (x, y, z) = got.jacobian_coordinates();
        let zero = bool::from(z.is_zero());
        let ok = match want {
            None => zero,
            Some((wx, wy)) => !zero && x == *wx * z.square() && y == *wy * z.square() * z,
        };
        let other = law(want, &self.g);
        let w = Self::jac(want, C::Base::from(5));
        let q = Self::jac(&other, C::Base::from(5));
        if !ok || bool::from(got.is_identity()) != want.is_none() || !bool::from(got.is_on_curve()) {
            return Err(format!("{}: {:?}, specified {:?}", what, got, want));
        }
        if got != w || got == q || !bool::from(got.ct_eq(&w)) || bool::from(q.ct_eq(&got)) {
            return Err(format!("{}: equality is wrong for {:?}", what, got));
        }
        if C::CurveExt::conditional_select(&got, &q, Choice::from(0)) != got || C::CurveExt::conditional_select(&got, &q, Choice::from(1)) != q {
            return Err(format!("{}: selection is wrong", what));
        }
        self.check_affine(what, got.to_affine(), want)
    }
    fn check(&self, what: &str, got: Pt<C>, want: &Aff<C::Base>) -> Result<(), String> {
        match got {
            Pt::A(p) => {
                self.check_affine(what, p, want)?;
                self.check_jac(what, p.into(), want)
            }
            Pt::J(p) => self.check_jac(what, p, want),
        }
    }
}
fn curve<C: CurveAffine>(w: &World<C>, c: &J, endo: bool) -> Result<(), String> where C::CurveExt: CurveExt<Base = <C as CurveAffine>::Base> {
    let m: Vec<i64> = arr(&c["first"]).iter().map(i).collect();
    let rep: Vec<&str> = arr(&c["rep"]).iter().map(|x| x.as_str().unwrap()).collect();
    let (mut a, mut b) = (w.start(m[0], rep[0]), w.start(m[1], rep[1]));
    let mut hist: Vec<C::CurveExt> = vec![];
    let mut wants = vec![];
    for (n, op) in arr(&c["prog"]).iter().enumerate() {
        let want = w.at(vector(&c["want"][n]));
        let o = op["o"].as_str().unwrap();
        let what = format!("{} (step {})", o, n + 1);
        a = match o {
            "add" | "sub" => {
                let add = o == "add";
                let r: C::CurveExt = match (a, b) {
                    (Pt::A(p), Pt::A(q)) => if add { p + q } else { p - q }.into(),
                    (Pt::A(p), Pt::J(q)) => {
                        let q: C::Curve = w_curve::<C>(q);
                        if add { q + p } else { -(q - p) }.into()
                    }
                    (Pt::J(p), Pt::A(q)) => {
                        let r = if add { p + q } else { p - q };
                        let mut s = p;
                        if add { s += q } else { s -= q }
                        w.check_jac(&format!("{} in place", what), s, &want)?;
                        r
                    }
                    (Pt::J(p), Pt::J(q)) => {
                        let r = if add { p + q } else { p - q };
                        let (mut s, mut t, mut v) = (p, p, p);
                        if add { s += q } else { s -= q }
                        if add { t += &q } else { t -= &q }
                        if add { v.group_add(&q) } else { v.group_sub(&q) }
                        for s in [s, t, v] {
                            w.check_jac(&format!("{} in place", what), s, &want)?;
                        }
                        r
                    }
                };
                Pt::J(r)
            }
            "neg" => match a {
                Pt::A(p) => Pt::A(-p),
                Pt::J(p) => Pt::J(-p),
            },
            "double" => match a {
                Pt::A(p) => Pt::J((p + p).into()),
                Pt::J(p) => Pt::J(p.double()),
            },
            "affine" => match a {
                Pt::A(p) => Pt::J(p.into()),
                Pt::J(p) => Pt::A(p.to_affine()),
            },
            "encode" => match a {
                Pt::A(p) => Pt::A(Option::from(C::from_bytes(&p.to_bytes())).ok_or(format!("{}: cannot be read back", what))?),
                Pt::J(p) => Pt::J(Option::from(C::CurveExt::from_bytes(&p.to_bytes())).ok_or(format!("{}: cannot be read back", what))?),
            },
            "rescale" => match a {
                Pt::A(p) => Pt::J({
                    w.check_affine(&what, p, &want)?;
                    World::<C>::jac(&want, C::Base::from(7))
                }),
                Pt::J(p) => Pt::J({
                    let (x, y, z) = p.jacobian_coordinates();
                    let l = C::Base::from(11).invert().unwrap();
                    Option::from(C::CurveExt::new_jacobian(x * l.square(), y * l.square() * l, z * l)).ok_or(format!("{}: not on the curve", what))?
                }),
            },
            "swap" => std::mem::replace(&mut b, a),
            "mul" => {
                let k: C::Scalar = scalar_of(&modulo(vector(&op["k"]), &w.r));
                match a {
                    Pt::A(p) => Pt::J((p * k).into()),
                    Pt::J(p) => {
                        let (mut s, mut t) = (p, p);
                        s *= k;
                        t.group_scale(&k);
                        w.check_jac(&format!("{} in place", what), s, &want)?;
                        w.check_jac(&format!("{} in place", what), t, &want)?;
                        Pt::J(p * k)
                    }
                }
            }
            _ => panic!("op {}", o),
        };
        w.check(&what, a, &want)?;
        hist.push(match a {
            Pt::A(p) => p.into(),
            Pt::J(p) => p,
        });
        wants.push(want);
    }
    if endo {
        for p in &hist {
            let f = p.endo();
            if f.endo() + p != f {
                return Err(format!("endomorphism of {:?}", p));
            }
        }
    }
    let mut total = None;
    for x in &wants {
        total = law(&total, x);
    }
    w.check_jac("sum", hist.iter().sum(), &total)?;
    let mut out = vec![C::generator(); hist.len()];
    let curves: Vec<C::Curve> = hist.iter().map(|p| w_curve::<C>(*p)).collect();
    C::Curve::batch_normalize(&curves, &mut out);
    for (k, (p, want)) in out.iter().zip(&wants).enumerate() {
        w.check_affine(&format!("batch normalisation, entry {}", k), *p, want)?;
    }
    Ok(())
}
fn w_curve<C: CurveAffine>(p: C::CurveExt) -> C::Curve {
    p.into()
}
fn msm<C: CurveAffine>(w: &World<C>, c: &J) -> Result<(), String> where C::CurveExt: CurveExt<Base = <C as CurveAffine>::Base> {
    let (mut ks, mut ps) = (vec![], vec![]);
    for t in arr(&c["list"]) {
        ks.push(scalar_of::<C::Scalar>(&modulo(vector(&t[0]), &w.r)));
        ps.push(World::<C>::affine(&w.at(BigInt::from(i(&t[1])))));
    }
    let want = w.at(vector(&c["sum"]));
    w.check_jac("best_multiexp", best_multiexp(&ks, &ps).into(), &want)?;
    w.check_jac("small_multiexp", small_multiexp(&ks, &ps).into(), &want)
}
pub fn runner(kind: &str, name: &str) -> Box<dyn Fn(&J) -> Out + Send + Sync> {
    fn on<C: CurveAffine>(kind: &str, endo: bool) -> Box<dyn Fn(&J) -> Out + Send + Sync> where C::CurveExt: CurveExt<Base = <C as CurveAffine>::Base> {
        let w = World::<C>::new();
        let k = kind == "curve";
        Box::new(move |c| match if k { curve(&w, c, endo) } else { msm(&w, c) } {
            Ok(()) => Out::Ok("agreed"),
            Err(e) => Out::Bad(format!("{}: {}", std::any::type_name::<C>(), e)),
        })
    }
    match name {
        "g1" => on::<halo2curves::bn256::G1Affine>(kind, true),
        "g2" => on::<halo2curves::bn256::G2Affine>(kind, false),
        "secp" => on::<halo2curves::secp256k1::Secp256k1Affine>(kind, false),
        "vesta" => on::<halo2curves::pasta::EqAffine>(kind, false),
        _ => on::<halo2curves::pasta::EpAffine>(kind, false),
    }
}

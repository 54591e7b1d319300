//! Binding of spec/Encoding.tla and spec/Commit.tla: encodings of field elements, points, parameters and keys.
use crate::util::order;
use crate::par::{panic_text, Out};
use crate::plonk::{arr, i, instances, set_doc, u, Doc, SpecCircuit};
use ff::{Field, PrimeField};
use group::{Curve, GroupEncoding};
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::helpers::{SerdeCurveAffine, SerdePrimeField};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver};
use halo2_proofs::poly::ipa::commitment::ParamsIPA;
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
use halo2_proofs::poly::kzg::strategy::SingleStrategy;
use halo2_proofs::poly::EvaluationDomain;
use halo2_proofs::transcript::*;
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::{Bn256, Fq, Fq2, Fr, G1Affine, G2Affine};
use halo2curves::pasta::EqAffine;
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt, FieldExt};
use num_bigint::BigUint;
use rand::SeedableRng;
use rand_xorshift::XorShiftRng;
use serde_json::Value as J;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// What reading gives: the object written again, how many bytes were left, whether it equals the original, whether it is valid.
struct Got {
    again: Vec<u8>,
    left: usize,
    same: bool,
    valid: bool,
}
type Reader = Box<dyn Fn(&[u8]) -> Result<Got, String> + Send + Sync>;
/// Bytes to put into a slot for a fault; None: the fault has no meaning here.
type Slot = Box<dyn Fn(&str) -> Option<Vec<u8>> + Send + Sync>;
pub struct Target {
    bytes: Vec<u8>,
    slots: Vec<(usize, usize, Slot)>,
    readers: Vec<(&'static str, Reader)>,
}
fn find(hay: &[u8], needle: &[u8]) -> usize {
    hay.windows(needle.len()).position(|w| w == needle).expect("HARNESS: slot not found")
}
/// Coordinates of a curve: bytes of an element in standard and internal form, and the same for numbers that are too large.
trait Coord: FieldExt {
    fn std(&self) -> Vec<u8>;
    /// standard (internal) form plus the modulus, when it fits
    fn over(b: Vec<u8>) -> Option<Vec<u8>>;
    const B: usize;
}
fn plus_p<F: FieldExt>(b: Vec<u8>) -> Option<Vec<u8>> {
    let p = BigUint::try_from(order::<F>()).unwrap();
    let mut r = (BigUint::from_bytes_le(&b) + p).to_bytes_le();
    if r.len() > 32 {
        return None;
    }
    r.resize(32, 0);
    Some(r)
}
macro_rules! coord {
    ($($t:ty),*) => {$(impl Coord for $t {
        fn std(&self) -> Vec<u8> {
            self.to_repr().as_ref().to_vec()
        }
        fn over(b: Vec<u8>) -> Option<Vec<u8>> {
            plus_p::<$t>(b)
        }
        const B: usize = 32;
    })*};
}
coord!(Fq, Fr, halo2curves::secp256k1::Fp, halo2curves::secp256k1::Fq, halo2curves::pasta::Fp, halo2curves::pasta::Fq);
impl Coord for Fq2 {
    fn std(&self) -> Vec<u8> {
        self.to_bytes().to_vec()
    }
    fn over(b: Vec<u8>) -> Option<Vec<u8>> {
        // either coordinate, depending on the first
        let (l, h) = (b[..32].to_vec(), b[32..].to_vec());
        if b[0] & 1 == 1 {
            plus_p::<Fq>(h).map(|h| [l, h].concat())
        } else {
            plus_p::<Fq>(l).map(|l| [l, h].concat())
        }
    }
    const B: usize = 64;
}
fn small_x<C: CurveAffine>(want: bool, from: u64) -> C::Base {
    // an x that is (not) the coordinate of a point
    (from..from + 500).map(C::Base::from).find(|x| bool::from((x.square() * *x + C::b()).sqrt().is_some()) == want).expect("x")
}
fn processed<C>(p: C) -> Slot
where
    C: CurveAffine,
    C::Base: Coord,
{
    Box::new(move |f| {
        let rep = p.to_bytes();
        let b: Vec<u8> = rep.as_ref().to_vec();
        let n = b.len();
        let with_x = |x: Vec<u8>, flag: u8| {
            let mut v = vec![0u8; n];
            v[..C::Base::B].copy_from_slice(&x);
            if v[n - 1] & 0x80 != 0 {
                return None;
            }
            v[n - 1] |= flag;
            Some(v)
        };
        match f {
            "negated" => Some((-p).to_bytes().as_ref().to_vec()),
            "identity" => Some(vec![0; n]),
            "nonreduced" => with_x(C::Base::over(small_x::<C>(true, 1).std())?, 0).or_else(|| with_x(C::Base::over(small_x::<C>(true, 1).std())?, 0x80)),
            "nonresidue" => with_x(small_x::<C>(false, 2).std(), 0x80),
            "padding" => {
                // the byte of the sign has no other bits; where it is shared with the coordinate they are part of the number
                let mut v = b.clone();
                v[n - 1] |= if n > C::Base::B { 1 } else { 0x40 };
                Some(v)
            }
            _ => None,
        }
    })
}
fn raw<C>(p: C) -> Slot
where
    C: CurveAffine + SerdeObject,
    C::Base: Coord + SerdeObject,
{
    Box::new(move |f| {
        let c = p.coordinates().unwrap();
        let (x, y) = (c.x().to_raw_bytes(), c.y().to_raw_bytes());
        let small = small_x::<C>(true, 1);
        let r = match f {
            "negated" => (x, (-*c.y()).to_raw_bytes()),
            "identity" => (vec![0; x.len()], vec![0; y.len()]),
            "nonreduced-x" => (C::Base::over(lowest(&x, C::Base::B))?, y),
            "nonreduced-y" => (small.to_raw_bytes(), C::Base::over(lowest(&y, C::Base::B))?),
            "off curve" => (x, (*c.y() + C::Base::one()).to_raw_bytes()),
            "half identity" => (vec![0; x.len()], y),
            _ => return None,
        };
        Some([r.0, r.1].concat())
    })
}
/// A representation that still fits after adding the modulus.
fn lowest(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    v[0] = b[0];
    v[n / 2] = b[n / 2] & 1;
    v
}
fn scaled<C>(p: C) -> Slot
where
    C: CurveAffine,
    C::Base: Coord + SerdeObject,
    C::CurveExt: CurveExt<Base = <C as CurveAffine>::Base> + SerdeObject,
{
    Box::new(move |f| {
        let c = p.coordinates().unwrap();
        let j = |z: C::Base, y: C::Base| [*c.x() * z.square(), y * z.square() * z, z].map(|v| v.to_raw_bytes()).to_vec();
        let mut v = j(C::Base::from(5), *c.y());
        match f {
            "negated" => v = j(C::Base::from(5), -*c.y()),
            "rescaled" => v = j(C::Base::from(77).invert().unwrap(), *c.y()),
            "identity" => v[2] = vec![0; C::Base::B],
            "off curve" => v[2] = C::Base::from(6).to_raw_bytes(),
            "nonreduced-x" => v[0] = C::Base::over(lowest(&v[0], C::Base::B))?,
            "nonreduced-y" => v[1] = C::Base::over(lowest(&v[1], C::Base::B))?,
            "nonreduced-z" => v[2] = C::Base::over(lowest(&v[2], C::Base::B))?,
            "none" => {}
            _ => return None,
        }
        Some(v.concat())
    })
}
fn elem<F: Coord + SerdeObject>(x: F, internal: bool) -> Slot {
    Box::new(move |f| {
        let p = F::MODULUS.trim_start_matches("0x");
        let p = BigUint::parse_bytes(p.as_bytes(), 16).unwrap();
        let num = |n: BigUint| {
            let mut b = n.to_bytes_le();
            b.resize(32, 0);
            // a number in either half of a pair
            if F::B == 64 && internal {
                [vec![0; 32], b].concat()
            } else if F::B == 64 {
                [b, vec![0; 32]].concat()
            } else {
                b
            }
        };
        Some(match f {
            "other" => {
                let y = x + F::one();
                if internal {
                    y.to_raw_bytes()
                } else {
                    y.std()
                }
            }
            "zero" => vec![0; F::B],
            "max" => num(p - 1u32),
            "modulus" => num(p),
            "modulus+1" => num(p + 1u32),
            "all ones" => num((BigUint::from(1u32) << 256) - 1u32),
            _ => return None,
        })
    })
}
fn got<T: PartialEq>(x: T, o: &T, again: Vec<u8>, left: usize, valid: bool) -> Result<Got, String> {
    Ok(Got { again, left, same: x == *o, valid })
}

const R: SerdeFormat = SerdeFormat::RawBytes;
const P: SerdeFormat = SerdeFormat::Processed;
const U: SerdeFormat = SerdeFormat::RawBytesUnchecked;
fn element<F: Coord + SerdeObject>(fmt: &str) -> Target {
    let x = F::from(0x1234_5678_9abc).square().square().square() + F::from(11).invert().unwrap();
    let mut readers: Vec<(&'static str, Reader)> = vec![];
    let (bytes, slot);
    if fmt == "processed" {
        bytes = x.std();
        slot = elem(x, false);
        readers.push(("from_repr", Box::new(move |b| {
            let mut r = F::Repr::default();
            if b.len() != r.as_ref().len() {
                return Err("length".into());
            }
            r.as_mut().copy_from_slice(b);
            let y: F = Option::from(F::from_repr(r)).ok_or("none")?;
            got(y, &x, y.std(), 0, true)
        })));
        readers.push(("read", Box::new(move |mut b| {
            let y = <F as SerdePrimeField>::read(&mut b, P)?;
            let mut w = vec![];
            SerdePrimeField::write(&y, &mut w, P)?;
            got(y, &x, w, b.len(), true)
        })));
    } else {
        bytes = x.to_raw_bytes();
        slot = elem(x, true);
        readers.push(("from_raw_bytes", Box::new(move |b| {
            let y = F::from_raw_bytes(b).ok_or("none")?;
            if F::from_raw_bytes(&[b, &[0]].concat()).is_some() {
                return Err("HARNESS-BAD: an encoding with a byte too many is read".into());
            }
            if F::from_raw_bytes_unchecked(b) != y {
                return Err("HARNESS-BAD: from_raw_bytes_unchecked differs".into());
            }
            got(y, &x, y.to_raw_bytes(), 0, true)
        })));
        readers.push(("read_raw", Box::new(move |mut b| {
            let full = b;
            let y = F::read_raw(&mut b)?;
            if F::read_raw_unchecked(&mut &full[..]) != y {
                return Err("HARNESS-BAD: read_raw_unchecked differs".into());
            }
            let mut w = vec![];
            y.write_raw(&mut w)?;
            got(y, &x, w, b.len(), true)
        })));
        readers.push(("read", Box::new(move |mut b| {
            let y = <F as SerdePrimeField>::read(&mut b, R)?;
            let mut w = vec![];
            SerdePrimeField::write(&y, &mut w, U)?;
            got(y, &x, w, b.len(), true)
        })));
    }
    let n = bytes.len();
    Target { bytes, slots: vec![(0, n, slot)], readers }
}
fn sample<C: CurveAffine>() -> C {
    (C::generator() * C::Scalar::from(0xdead_beef_1234_5678)).to_affine()
}
fn point<C>(fmt: &str) -> Target
where
    C: CurveAffine + SerdeObject,
    C::Base: Coord + SerdeObject,
{
    let p: C = sample();
    let mut readers: Vec<(&'static str, Reader)> = vec![];
    let (bytes, slot);
    if fmt == "processed" {
        bytes = p.to_bytes().as_ref().to_vec();
        slot = processed(p);
        let rep = |b: &[u8]| {
            let mut r = <C as GroupEncoding>::Repr::default();
            if b.len() != r.as_ref().len() {
                return Err("length".to_string());
            }
            r.as_mut().copy_from_slice(b);
            Ok(r)
        };
        readers.push(("from_bytes", Box::new(move |b| {
            let q: C = Option::from(C::from_bytes(&rep(b)?)).ok_or("none")?;
            got(q, &p, q.to_bytes().as_ref().to_vec(), 0, q.is_on_curve().into())
        })));
        readers.push(("projective from_bytes", Box::new(move |b| {
            let mut r = <C::CurveExt as GroupEncoding>::Repr::default();
            if b.len() != r.as_ref().len() {
                return Err("length".to_string());
            }
            r.as_mut().copy_from_slice(b);
            let q: C::CurveExt = Option::from(C::CurveExt::from_bytes(&r)).ok_or("none")?;
            got(q.to_affine(), &p, q.to_bytes().as_ref().to_vec(), 0, q.is_on_curve().into())
        })));
        readers.push(("read", Box::new(move |mut b| {
            let q = <C as SerdeCurveAffine>::read(&mut b, P)?;
            let mut w = vec![];
            SerdeCurveAffine::write(&q, &mut w, P)?;
            got(q, &p, w, b.len(), q.is_on_curve().into())
        })));
    } else {
        bytes = p.to_raw_bytes();
        slot = raw(p);
        readers.push(("from_raw_bytes", Box::new(move |b| {
            let q = C::from_raw_bytes(b).ok_or("none")?;
            if C::from_raw_bytes(&[b, &[0]].concat()).is_some() {
                return Err("HARNESS-BAD: an encoding with a byte too many is read".into());
            }
            got(q, &p, q.to_raw_bytes(), 0, q.is_on_curve().into())
        })));
        readers.push(("read_raw", Box::new(move |mut b| {
            let full = b;
            let q = C::read_raw(&mut b)?;
            if C::read_raw_unchecked(&mut &full[..]) != q {
                return Err("HARNESS-BAD: read_raw_unchecked differs".into());
            }
            let mut w = vec![];
            q.write_raw(&mut w)?;
            got(q, &p, w, b.len(), q.is_on_curve().into())
        })));
        readers.push(("read", Box::new(move |mut b| {
            let q = <C as SerdeCurveAffine>::read(&mut b, R)?;
            let mut w = vec![];
            SerdeCurveAffine::write(&q, &mut w, R)?;
            got(q, &p, w, b.len(), q.is_on_curve().into())
        })));
    }
    let n = bytes.len();
    Target { bytes, slots: vec![(0, n, slot)], readers }
}
fn projective<C>() -> Target
where
    C: CurveAffine,
    C::Base: Coord + SerdeObject,
    C::CurveExt: CurveExt<Base = <C as CurveAffine>::Base> + SerdeObject,
{
    let p: C = sample();
    let slot = scaled(p);
    let bytes = slot("none").unwrap();
    let orig = C::CurveExt::from_raw_bytes_unchecked(&bytes);
    assert!(orig.to_affine() == p, "HARNESS: projective sample");
    let n = bytes.len();
    let same = move |q: &C::CurveExt| q.to_raw_bytes() == orig.to_raw_bytes();
    let mut readers: Vec<(&'static str, Reader)> = vec![];
    readers.push(("from_raw_bytes", Box::new(move |b| {
        let q = C::CurveExt::from_raw_bytes(b).ok_or("none")?;
        Ok(Got { again: q.to_raw_bytes(), left: 0, same: same(&q), valid: q.is_on_curve().into() })
    })));
    readers.push(("read_raw", Box::new(move |mut b| {
        let q = C::CurveExt::read_raw(&mut b)?;
        let mut w = vec![];
        q.write_raw(&mut w)?;
        Ok(Got { again: w, left: b.len(), same: same(&q), valid: q.is_on_curve().into() })
    })));
    Target { bytes, slots: vec![(0, n, slot)], readers }
}
fn slot_of<C>(bytes: &[u8], p: C, fmt: &str) -> (usize, usize, Slot)
where
    C: CurveAffine + SerdeObject,
    C::Base: Coord + SerdeObject,
{
    let (enc, s) = if fmt == "processed" { (p.to_bytes().as_ref().to_vec(), processed(p)) } else { (p.to_raw_bytes(), raw(p)) };
    (find(bytes, &enc), enc.len(), s)
}
fn params(fmt: &str) -> Target {
    let f = if fmt == "processed" { P } else { R };
    let p = ParamsKZG::<Bn256>::unsafe_setup_with_s(3, Fr::from(0x1234_5678_9abc).square());
    let mut bytes = vec![];
    p.write_custom(&mut bytes, f).unwrap();
    let mut slots: Vec<_> = [p.g[1], p.g[7], p.g_lagrange[0], p.g_lagrange[7]].iter().map(|x| slot_of(&bytes, *x, fmt)).collect();
    slots.extend([p.g2, p.s_g2].iter().map(|x| slot_of(&bytes, *x, fmt)));
    let mut readers: Vec<(&'static str, Reader)> = vec![];
    let q = p.clone();
    readers.push(("read_custom", Box::new(move |mut b| {
        let r = ParamsKZG::<Bn256>::read_custom(&mut b, f)?;
        let mut w = vec![];
        r.write_custom(&mut w, f)?;
        let same = r.k == q.k && r.n == q.n && r.g == q.g && r.g_lagrange == q.g_lagrange && r.g2 == q.g2 && r.s_g2 == q.s_g2;
        let valid = r.g.iter().chain(&r.g_lagrange).all(|x| bool::from(x.is_on_curve())) && r.g.len() == 8 && r.g_lagrange.len() == 8;
        Ok(Got { again: w, left: b.len(), same, valid })
    })));
    if fmt == "raw" {
        readers.push(("read", Box::new(move |mut b| {
            let r = ParamsKZG::<Bn256>::read(&mut b)?;
            let mut w = vec![];
            r.write(&mut w)?;
            Ok(Got { again: w, left: b.len(), same: r.g == p.g && r.g_lagrange == p.g_lagrange && r.g2 == p.g2 && r.s_g2 == p.s_g2, valid: true })
        })));
    }
    Target { bytes, slots, readers }
}
fn ipa() -> Target {
    let p = ParamsIPA::<EqAffine>::new(3);
    let mut bytes = vec![];
    p.write(&mut bytes).unwrap();
    // the last points are the two extra generators
    let n = bytes.len();
    let g = p.get_g();
    let first = find(&bytes, g[0].to_bytes().as_ref());
    let last = find(&bytes, g[7].to_bytes().as_ref());
    let at = |o: usize| {
        let mut r = <EqAffine as GroupEncoding>::Repr::default();
        r.as_mut().copy_from_slice(&bytes[o..o + 32]);
        Option::<EqAffine>::from(EqAffine::from_bytes(&r)).expect("HARNESS: ipa slot")
    };
    let slots = [first, last, last + 32, n - 64, n - 32].iter().map(|o| (*o, 32, processed(at(*o)))).collect();
    let readers: Vec<(&'static str, Reader)> = vec![("read", Box::new(move |mut b| {
        let r = ParamsIPA::<EqAffine>::read(&mut b)?;
        let mut w = vec![];
        r.write(&mut w)?;
        let mut o = vec![];
        p.write(&mut o)?;
        Ok(Got { same: w == o, again: w, left: b.len(), valid: r.get_g().len() == 8 && r.k() == 3 && r.n() == 8 })
    }))];
    Target { bytes, slots, readers }
}
type Circ = SpecCircuit<Fr, SimpleFloorPlanner>;
fn keygen(p: &ParamsKZG<Bn256>, case: &Arc<J>) -> Result<ProvingKey<G1Affine>, String> {
    let empty = Circ::new(case, None);
    let vk = keygen_vk(p, &empty).map_err(|e| format!("{:?}", e))?;
    keygen_pk(p, vk, &empty).map_err(|e| format!("{:?}", e))
}
fn key(d: &Arc<Doc>, case: &Arc<J>, what: &str, fmt: &str) -> Target {
    set_doc(d);
    let f = if fmt == "processed" { P } else { R };
    let k = u(&d.shape["k"]) as u32;
    let params = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, Fr::from(42));
    let pk = keygen(&params, case).expect("HARNESS: keys");
    let mut bytes = vec![];
    if what == "vk" {
        pk.get_vk().write(&mut bytes, f).unwrap();
    } else {
        pk.write(&mut bytes, f).unwrap();
    }
    let id = G1Affine::default();
    let fixed: Vec<_> = pk.get_vk().fixed_commitments().iter().filter(|c| **c != id).cloned().collect();
    let perm = pk.get_vk().permutation().commitments().clone();
    let mut pts = vec![fixed[0], *fixed.last().unwrap(), perm[0], *perm.last().unwrap()];
    pts.dedup();
    let mut slots: Vec<_> = pts.iter().map(|x| slot_of(&bytes, *x, fmt)).collect();
    if what == "pk" {
        // the coefficients of the polynomial that is one in the first row
        let x = Fr::from(1 << k).invert().unwrap();
        let e = if f_is_raw(f) { x.to_raw_bytes() } else { x.std() };
        slots.push((find(&bytes, &e), 32, elem(x, f_is_raw(f))));
        // the last coefficient that is not zero
        let l = (1..).map(|i| bytes.len() - 32 * i).find(|l| bytes[*l..*l + 32].iter().any(|b| *b != 0)).unwrap();
        let y = if f_is_raw(f) { Fr::from_raw_bytes(&bytes[l..l + 32]).unwrap() } else { Fr::from_repr(bytes[l..l + 32].try_into().unwrap()).unwrap() };
        slots.push((l, 32, elem(y, f_is_raw(f))));
    }
    slots.sort_by_key(|s| s.0);
    let orig = bytes.clone();
    let pinned = format!("{:?}", pk.get_vk().pinned());
    let (d, what) = (d.clone(), what.to_string());
    let readers: Vec<(&'static str, Reader)> = vec![("read", Box::new(move |mut b| {
        set_doc(&d);
        let mut w = vec![];
        let s;
        if what == "vk" {
            let v = VerifyingKey::<G1Affine>::read::<_, Circ>(&mut b, f)?;
            v.write(&mut w, f)?;
            s = format!("{:?}", v.pinned());
        } else {
            let v = ProvingKey::<G1Affine>::read::<_, Circ>(&mut b, f)?;
            v.write(&mut w, f)?;
            s = format!("{:?}", v.get_vk().pinned());
        }
        let same = w == orig;
        if same && s != pinned {
            return Err("HARNESS-BAD: the key that was read is another one".into());
        }
        Ok(Got { same, again: w, left: b.len(), valid: true })
    }))];
    Target { bytes, slots, readers }
}
fn f_is_raw(f: SerdeFormat) -> bool {
    !matches!(f, SerdeFormat::Processed)
}
pub fn target(object: &str, fmt: &str, doc: Option<(&Arc<Doc>, &Arc<J>)>) -> Target {
    use halo2curves::secp256k1 as sp;
    match object {
        "element:bn-r" => element::<Fr>(fmt),
        "element:bn-q" => element::<Fq>(fmt),
        "element:bn-q2" => element::<Fq2>(fmt),
        "element:secp-p" => element::<sp::Fp>(fmt),
        "element:secp-n" => element::<sp::Fq>(fmt),
        "point:g1" => point::<G1Affine>(fmt),
        "point:g2" => point::<G2Affine>(fmt),
        "point:secp" => point::<sp::Secp256k1Affine>(fmt),
        "projective:g1" => projective::<G1Affine>(),
        "projective:g2" => projective::<G2Affine>(),
        "projective:secp" => projective::<sp::Secp256k1Affine>(),
        "params" => params(fmt),
        "ipa" => ipa(),
        "vk" | "pk" => key(doc.unwrap().0, doc.unwrap().1, object, fmt),
        x => panic!("HARNESS: object {}", x),
    }
}
/// The kinds of the slots, for the specification.
pub fn kinds(t: &Target) -> J {
    J::from(t.slots.iter().map(|s| if s.2("other").is_some() { "field" } else if s.2("rescaled").is_some() { "scaled" } else { "point" }).collect::<Vec<_>>())
}
pub fn encoding_case(t: &Target, c: &J) -> Out {
    let mut b = t.bytes.clone();
    for (s, f) in t.slots.iter().zip(arr(&c["faults"])) {
        let f = f.as_str().unwrap();
        if f == "none" {
            continue;
        }
        match (s.2)(f) {
            None => return Out::Skip("no such fault"),
            Some(v) => {
                assert_eq!(v.len(), s.1, "HARNESS: length of {}", f);
                b[s.0..s.0 + s.1].copy_from_slice(&v)
            }
        }
    }
    let cut = i(&c["cut"]);
    if cut >= 0 {
        let s = &t.slots[(cut / 2) as usize - 1];
        b.truncate(if cut % 2 == 0 { s.0 } else { s.0 + s.1 / 2 });
    }
    let want = c["ok"].as_bool().unwrap();
    let plain = arr(&c["faults"]).iter().all(|f| f == "none");
    for (name, r) in &t.readers {
        let run = |b: &[u8]| catch_unwind(AssertUnwindSafe(|| r(b))).unwrap_or_else(|e| Err(format!("HARNESS-BAD: panic {}", panic_text(e))));
        match (run(&b), want) {
            (Err(e), _) if e.starts_with("HARNESS-BAD") => return Out::Bad(format!("{}: {}", name, e)),
            (Err(e), true) => return Out::Bad(format!("{}: refused: {}", name, e)),
            (Ok(_), false) => return Out::Bad(format!("{}: an encoding of nothing is read", name)),
            (Ok(g), true) => {
                if g.left != 0 || g.again != b || g.same != plain || !g.valid {
                    return Out::Bad(format!("{}: left {}, written again the same {}, equal to the original {}, valid {}", name, g.left, g.again == b, g.same, g.valid));
                }
                match run(&b[..b.len() - 1]) {
                    Err(e) if e.starts_with("HARNESS-BAD") => return Out::Bad(format!("{}: without the last byte: {}", name, e)),
                    Ok(_) => return Out::Bad(format!("{}: read without its last byte", name)),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    Out::Ok(if want { "read" } else { "refused" })
}

/// Keys of the circuits of spec/Plonk.tla: written and read, they are the same keys and prove the same.
pub fn keys_case(d: &Arc<Doc>, p: &ParamsKZG<Bn256>, case: &J) -> Out {
    set_doc(d);
    let case = Arc::new(case.clone());
    let pk = match keygen(p, &case) {
        Ok(k) => k,
        Err(_) => return Out::Skip("no keys"),
    };
    let want = arr(&case["sat"]).iter().all(|s| s == true);
    let prove = |pk: &ProvingKey<G1Affine>| -> Result<Vec<u8>, String> {
        let inst = instances::<Fr>(&case, 0);
        let i1: Vec<&[Fr]> = inst.iter().map(|y| &y[..]).collect();
        let mut t = Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]);
        create_proof::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, _, _, _, _>(p, pk, &[Circ::new(&case, Some(0))], &[&i1], XorShiftRng::seed_from_u64(7), &mut t).map_err(|e| format!("{:?}", e))?;
        Ok(t.finalize())
    };
    let verify = |vk: &VerifyingKey<G1Affine>, proof: &[u8]| -> bool {
        let inst = instances::<Fr>(&case, 0);
        let i1: Vec<&[Fr]> = inst.iter().map(|y| &y[..]).collect();
        let mut r = Blake2bRead::<_, G1Affine, Challenge255<_>>::init(proof);
        verify_proof::<KZGCommitmentScheme<Bn256>, VerifierSHPLONK<'_, Bn256>, _, _, _>(p, vk, SingleStrategy::new(p), &[&i1], &mut r).is_ok()
    };
    let proof = prove(&pk);
    for f in [P, R, U] {
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            let bytes = pk.get_vk().to_bytes(f);
            let vk = VerifyingKey::<G1Affine>::from_bytes::<Circ>(&bytes, f)?;
            if vk.to_bytes(f) != bytes || format!("{:?}", vk.pinned()) != format!("{:?}", pk.get_vk().pinned()) {
                return Err("the verifying key that was read is another one".into());
            }
            let pb = pk.to_bytes(f);
            let pk2 = ProvingKey::<G1Affine>::from_bytes::<Circ>(&pb, f)?;
            if pk2.to_bytes(f) != pb {
                return Err("the proving key that was read is another one".into());
            }
            match (&proof, prove(&pk2)) {
                (Err(_), Err(_)) => {}
                (Ok(a), Ok(b)) => {
                    // the proof of either key, with either verifying key
                    let v = [verify(&vk, a), verify(pk.get_vk(), &b), verify(&vk, &b)];
                    if v != [want; 3] {
                        return Err(format!("verdicts {:?} with keys that were read, expected {}", v, want));
                    }
                }
                (a, b) => return Err(format!("the keys prove differently: {:?} {:?}", a.is_ok(), b.is_ok())),
            }
            Ok(())
        }))
        .unwrap_or_else(|e| Err(format!("panic {}", panic_text(e))));
        if let Err(e) = r {
            return Out::Bad(format!("{:?}: {}", f, e));
        }
    }
    Out::Ok(if want { "accepted" } else { "rejected" })
}

pub struct Commits {
    s: Fr,
    kzg: Vec<ParamsKZG<Bn256>>,
    fresh: Vec<ParamsKZG<Bn256>>,
    ipa: Vec<ParamsIPA<EqAffine>>,
    fresh_ipa: Vec<ParamsIPA<EqAffine>>,
}
impl Commits {
    /// Parameters of size k, cut down step by step (and in one step), and made afresh.
    pub fn new(k: u32, s: u64) -> Self {
        let s = Fr::from(s);
        let mut a = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, s);
        let mut b = ParamsIPA::<EqAffine>::new(k);
        let mut c = Commits { s, kzg: vec![], fresh: vec![], ipa: vec![], fresh_ipa: vec![] };
        for j in (0..=k).rev() {
            a.downsize(j);
            b.downsize(j);
            c.kzg.insert(0, a.clone());
            c.ipa.insert(0, b.clone());
            c.fresh.insert(0, ParamsKZG::<Bn256>::unsafe_setup_with_s(j, s));
            c.fresh_ipa.insert(0, ParamsIPA::<EqAffine>::new(j));
        }
        c
    }
}
pub fn commit_case(c: &Commits, case: &J) -> Out {
    let k = u(&case["k"]);
    let n = 1usize << k;
    let (a, f) = (&c.kzg[k], &c.fresh[k]);
    if (a.k, a.n, a.g.len(), a.g_lagrange.len()) != (k as u32, n as u64, n, n) || a.g != f.g || a.g_lagrange != f.g_lagrange || a.g2 != f.g2 || a.s_g2 != f.s_g2 {
        return Out::Bad(format!("parameters cut down to {} differ from parameters of that size", k));
    }
    let coef: Vec<i64> = arr(&case["poly"]).iter().map(i).collect();
    fn int<F: FieldExt>(v: i64) -> F {
        crate::plonk::num(v)
    }
    let check = |p: &ParamsKZG<Bn256>| -> Result<(), String> {
        let d = EvaluationDomain::<Fr>::new(1, k as u32);
        let mut poly = d.empty_coeff();
        for (x, v) in poly.iter_mut().zip(&coef) {
            *x = int(*v);
        }
        let at_s = poly.iter().collect::<Vec<_>>().into_iter().rev().fold(Fr::zero(), |a, x| a * c.s + x);
        let want = halo2curves::bn256::G1::generator() * at_s;
        // values, by evaluating
        let mut lag = d.empty_lagrange();
        let mut w = Fr::one();
        for x in lag.iter_mut() {
            *x = poly.iter().collect::<Vec<_>>().into_iter().rev().fold(Fr::zero(), |a, c| a * w + c);
            w *= d.get_omega();
        }
        let b = Blind(Fr::from(9));
        if p.commit(&poly, b) != want {
            return Err("the commitment to coefficients is wrong".into());
        }
        if p.commit_lagrange(&lag, b) != want {
            return Err("the commitment to values is wrong".into());
        }
        if p.s_g2 != (G2Affine::generator() * c.s).to_affine() || p.g2 != G2Affine::generator() {
            return Err("wrong points of the second group".into());
        }
        Ok(())
    };
    let ipa = |p: &ParamsIPA<EqAffine>| -> Result<(), String> {
        use halo2curves::pasta::Fp;
        let g = p.get_g();
        if g.len() != n || p.n() != n as u64 || p.k() != k as u32 || g != c.fresh_ipa[k].get_g() {
            return Err("wrong generators".into());
        }
        let d = EvaluationDomain::<Fp>::new(1, k as u32);
        let mut poly = d.empty_coeff();
        for (x, v) in poly.iter_mut().zip(&coef) {
            *x = int(*v);
        }
        let mut lag = d.empty_lagrange();
        let mut w = Fp::one();
        for x in lag.iter_mut() {
            *x = poly.iter().collect::<Vec<_>>().into_iter().rev().fold(Fp::zero(), |a, c| a * w + c);
            w *= d.get_omega();
        }
        // the blinding generator is what a commitment to nothing has
        let w = p.commit(&d.empty_coeff(), Blind(Fp::one()));
        if bool::from(group::Group::is_identity(&w)) {
            return Err("commitments are not blinded".into());
        }
        for r in [Fp::zero(), Fp::from(7)] {
            let want = poly.iter().zip(g).fold(w * r, |a, (x, g)| a + *g * *x);
            if p.commit(&poly, Blind(r)) != want {
                return Err("the commitment to coefficients is wrong".into());
            }
            if p.commit_lagrange(&lag, Blind(r)) != want {
                return Err("the commitment to values is wrong".into());
            }
        }
        Ok(())
    };
    for r in [check(a), check(f), ipa(&c.ipa[k]), ipa(&c.fresh_ipa[k])] {
        if let Err(e) = r {
            return Out::Bad(e);
        }
    }
    Out::Ok("agrees")
}

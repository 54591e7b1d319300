//! The curve gadgets (EccChip), replayed against Ecc.tla: all provable tuples on curves over tiny fields, the chip's own
//! witnesses on Pallas, and whether the constraints leave a coordinate of a result free.
use crate::attack::Attack;
use crate::cells::*;
use crate::par::Out;
use crate::tiny::{Small, F37, F7};
use ff::{Field, PrimeField};
use group::{prime::PrimeCurveAffine, Curve, Group};
use halo2_gadgets::ecc::chip::*;
use halo2_gadgets::ecc::*;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_gadgets::utilities::UtilitiesInstructions;
use halo2_proofs::circuit::{floor_planner::V1, AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2curves::pasta::pallas;
use halo2curves::{CurveAffine, FieldExt};
use serde_json::Value as J;
use std::collections::BTreeSet;
use std::marker::PhantomData;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

type B = pallas::Base;
type S = pallas::Scalar;
type Cell = AssignedCell<B, B>;
type Zu = Vec<(u64, [B; H])>;

/// The points of the windows of a fixed base: (k + 2) 8^w B, and k 8^w B - sum of 2 8^j B for the last one.
fn window(n: usize, w: usize) -> Vec<pallas::Affine> {
    let pow = |e: usize| (0..e).fold(S::one(), |a, _| a * S::from(8));
    (0..8u64)
        .map(|k| {
            let s = if w + 1 < n { S::from(k + 2) * pow(w) } else { (0..n - 1).fold(S::from(k) * pow(w), |a, j| a - S::from(2) * pow(j)) };
            multiple(1, s)
        })
        .collect()
}
/// For each window a number z with z + y a square and z - y none for all points (x, y); zs.txt was written by `smallverif zs`.
fn table(n: usize) -> &'static Zu {
    static T: Mutex<Vec<(usize, &'static Zu)>> = Mutex::new(vec![]);
    let mut t = T.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((_, z)) = t.iter().find(|x| x.0 == n) {
        return z;
    }
    let line = include_str!("zs.txt").lines().find(|l| l.split(' ').next() == Some(&n.to_string())).expect("window numbers").to_string();
    let zs: Vec<u64> = line.split(' ').skip(1).map(|z| z.parse().unwrap()).collect();
    let all: Zu = zs.iter().enumerate().map(|(w, z)| (*z, good(&window(n, w), *z).expect("a good number"))).collect();
    let z: &'static Zu = Box::leak(Box::new(all));
    t.push((n, z));
    z
}
fn good(w: &[pallas::Affine], z: u64) -> Option<[B; H]> {
    let mut us = [B::zero(); H];
    for (u, p) in us.iter_mut().zip(w) {
        let y = coords(*p)[1];
        if bool::from((B::from(z) - y).sqrt().is_some()) {
            return None;
        }
        *u = Option::from((B::from(z) + y).sqrt())?;
    }
    Some(us)
}
pub fn find() {
    for n in [NUM_WINDOWS, NUM_WINDOWS_SHORT] {
        let hs: Vec<_> = (0..n).map(|w| std::thread::spawn(move || { let p = window(n, w); (0u64..).find(|z| good(&p, *z).is_some()).unwrap() })).collect();
        println!("{} {}", n, hs.into_iter().map(|h| h.join().unwrap().to_string()).collect::<Vec<_>>().join(" "));
    }
}
fn long_zu() -> &'static Zu {
    table(NUM_WINDOWS)
}
fn short_zu() -> &'static Zu {
    table(NUM_WINDOWS_SHORT)
}
fn base_point() -> pallas::Affine {
    pallas::Point::generator().to_affine()
}
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Bases;
macro_rules! base {
    ($n:ident, $k:ty, $t:ident) => {
        #[derive(Debug, Eq, PartialEq, Clone)]
        pub struct $n;
        impl halo2_gadgets::ecc::chip::FixedPoint<pallas::Affine> for $n {
            type FixedScalarKind = $k;
            fn generator(&self) -> pallas::Affine {
                base_point()
            }
            fn u(&self) -> Vec<[[u8; 32]; H]> {
                $t().iter().map(|(_, us)| us.map(|u| u.to_repr())).collect()
            }
            fn z(&self) -> Vec<u64> {
                $t().iter().map(|(z, _)| *z).collect()
            }
        }
    };
}
base!(Full, FullScalar, long_zu);
base!(Short, ShortScalar, short_zu);
base!(Elem, BaseFieldElem, long_zu);
impl FixedPoints<pallas::Affine> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = Elem;
}

pub const OPS: [&str; 15] = ["witness", "nonid", "add", "addn", "addm", "twice", "inc", "eq", "ext", "chain", "mul", "full", "short", "elem", "mulmul"];
struct Ecc;
type Chip = EccChip<Bases>;
impl Gadget<B> for Ecc {
    type Config = (EccConfig<Bases>, TableColumn);
    fn configure(m: &mut ConstraintSystem<B>) -> Self::Config {
        let a = [0; 10].map(|_| m.advice_column());
        let t = m.lookup_table_column();
        let f = [0; 8].map(|_| m.fixed_column());
        let k = m.fixed_column();
        m.enable_constant(k);
        let r = LookupRangeCheckConfig::configure(m, a[9], t);
        (Chip::configure(m, a, f, r), t)
    }
    fn run((c, t): Self::Config, mut l: impl Layouter<B>, x: &[Value<B>], p: &[u64]) -> Result<Vec<Cell>, Error> {
        let chip = Chip::construct(c.clone());
        let op = OPS[p[0] as usize];
        if p[0] >= 10 {
            l.assign_table(|| "table", |mut r| {
                for i in 0..1usize << halo2_gadgets::sinsemilla::primitives::K {
                    r.assign_cell(|| "i", t, i, || Value::known(B::from(i as u64)))?;
                }
                Ok(())
            })?;
        }
        let at = |i: usize| {
            x[2 * i].zip(x[2 * i + 1]).map(|(x, y)| {
                if x == B::zero() && y == B::zero() { pallas::Affine::identity() } else { Option::<pallas::Affine>::from(pallas::Affine::from_xy(x, y)).expect("a point") }
            })
        };
        macro_rules! pt {
            ($i:expr) => { Point::new(chip.clone(), l.namespace(|| "point"), at($i))? };
        }
        macro_rules! np {
            ($i:expr) => { NonIdentityPoint::new(chip.clone(), l.namespace(|| "point"), at($i))? };
        }
        let mut out: Vec<Cell> = vec![];
        macro_rules! show {
            ($($p:expr),*) => {{ $( out.push($p.inner().x()); out.push($p.inner().y()); )* }};
        }
        match op {
            "witness" => { let a = pt!(0); show!(a) }
            "nonid" => { let a = np!(0); show!(a) }
            "add" => { let a = pt!(0); let b = pt!(1); let c = a.add(l.namespace(|| "+"), &b)?; show!(a, b, c) }
            "addn" => { let a = np!(0); let b = np!(1); let c = a.add(l.namespace(|| "+"), &b)?; show!(a, b, c) }
            "addm" => { let a = np!(0); let b = pt!(1); let c = a.add(l.namespace(|| "+"), &b)?; show!(a, b, c) }
            "twice" => { let a = pt!(0); let c = a.add(l.namespace(|| "+"), &a)?; show!(a, c) }
            "inc" => { let a = np!(0); let b = np!(1); let c = a.add_incomplete(l.namespace(|| "+"), &b)?; show!(a, b, c) }
            "eq" => { let a = pt!(0); let b = np!(1); a.constrain_equal(l.namespace(|| "="), &b)?; show!(a, b) }
            "ext" => { let a = pt!(0); show!(a); out.push(a.extract_p().inner().clone()) }
            "chain" => { let a = pt!(0); let b = np!(1); let d = pt!(2); let s = a.add(l.namespace(|| "+"), &b)?; let c = s.add(l.namespace(|| "+"), &d)?; show!(a, b, d, c) }
            "mul" | "mulmul" => {
                let a = np!(0);
                let k = chip.load_private(l.namespace(|| "k"), c.advices[0], x[2])?;
                let s = halo2_gadgets::ecc::ScalarVar::from_base(chip.clone(), l.namespace(|| "s"), &k)?;
                let (r, s) = a.mul(l.namespace(|| "*"), s)?;
                show!(a);
                out.push(k);
                show!(r);
                if op == "mulmul" {
                    let (r, _) = a.mul(l.namespace(|| "*"), s)?;
                    show!(r);
                }
            }
            "full" => {
                let s = x[0].map(|_| { let mut b = [0u8; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&p[1 + i].to_le_bytes()) } S::from_repr(b).unwrap() });
                let s = ScalarFixed::new(chip.clone(), l.namespace(|| "s"), s)?;
                let (r, _) = halo2_gadgets::ecc::FixedPoint::from_inner(chip.clone(), Full).mul(l.namespace(|| "*"), s)?;
                show!(r)
            }
            "short" => {
                let m = chip.load_private(l.namespace(|| "m"), c.advices[0], x[0])?;
                let g = chip.load_private(l.namespace(|| "g"), c.advices[0], x[1])?;
                let s = ScalarFixedShort::new(chip.clone(), l.namespace(|| "s"), (m.clone(), g.clone()))?;
                let (r, _) = FixedPointShort::from_inner(chip.clone(), Short).mul(l.namespace(|| "*"), s)?;
                out.push(m);
                out.push(g);
                show!(r)
            }
            "elem" => {
                let k = chip.load_private(l.namespace(|| "k"), c.advices[0], x[0])?;
                let r = FixedPointBaseField::from_inner(chip.clone(), Elem).mul(l.namespace(|| "*"), k.clone())?;
                out.push(k);
                show!(r)
            }
            _ => panic!("operation"),
        }
        Ok(out)
    }
}

fn small<E: FieldExt>(c: B) -> Option<E> {
    (1..=12u64).find_map(|d| {
        let m = c * B::from(d);
        let of = |m: B| {
            let r = m.to_repr();
            if r[2..].iter().all(|b| *b == 0) { Some(E::from(r[0] as u64 + 256 * r[1] as u64)) } else { None }
        };
        let v = of(m).or_else(|| of(-m).map(|x| -x))?;
        Option::<E>::from(E::from(d).invert()).map(|i| v * i)
    })
}
fn host<P>(op: usize, x: Vec<Value<B>>, p: &[u64]) -> Host<B, Ecc, P> {
    let mut params = vec![op as u64];
    params.extend_from_slice(p);
    Host { inputs: x, params, _p: PhantomData }
}
/// (inputs, visible cells)
fn size(op: &str) -> (usize, usize) {
    match op {
        "witness" | "nonid" => (2, 2),
        "twice" => (2, 4),
        "ext" => (2, 3),
        "eq" => (4, 4),
        "chain" => (6, 8),
        "mul" => (3, 5),
        "mulmul" => (3, 7),
        "full" => (1, 2),
        "short" => (2, 4),
        "elem" => (1, 3),
        _ => (4, 6),
    }
}
fn system<P: FloorPlanner>(op: usize) -> Result<Sys<B>, String> {
    let (n, shown) = size(OPS[op]);
    Sys::of(&host::<P>(op, vec![Value::unknown(); n], &[]), shown)
}
fn shapes(op: usize) -> Result<Arc<Vec<Sys<B>>>, String> {
    static T: Mutex<Option<HashMap<usize, Arc<Vec<Sys<B>>>>>> = Mutex::new(None);
    let mut t = T.lock().unwrap_or_else(|e| e.into_inner());
    let m = t.get_or_insert_with(HashMap::new);
    if let Some(s) = m.get(&op) {
        return Ok(s.clone());
    }
    let s = Arc::new(vec![system::<SimpleFloorPlanner>(op)?, system::<V1>(op)?]);
    m.insert(op, s.clone());
    Ok(s)
}

/// What can be proved about points of the small curve.
pub fn ecc_case(c: &J) -> Out {
    match c["p"].as_u64().unwrap() {
        7 => tiny::<F7>(c, 5_000_000),
        37 => tiny::<F37>(c, 2_000_000),
        _ => panic!("field"),
    }
}
fn tiny<E: Small + Ord>(c: &J, limit: usize) -> Out {
    let op = OPS.iter().position(|o| c["op"] == *o).expect("operation");
    let vec = |j: &J| j.as_array().unwrap().iter().map(E::from).collect::<Vec<E>>();
    let acc: BTreeSet<Vec<E>> = c["acc"].as_array().unwrap().iter().map(vec).collect();
    let elems: Vec<E> = (0..c["p"].as_u64().unwrap()).map(<E as From<u64>>::from).collect();
    let shapes = match shapes(op) {
        Ok(s) => s,
        Err(e) => return Out::Bad(format!("synthesis: {}", e)),
    };
    for s in shapes.iter() {
        let s = match s.translate(&small::<E>) {
            Some(s) => s,
            None => return Out::Ok("constants without meaning"),
        };
        match s.solutions(&vec(&c["in"]), &elems, limit) {
            None => return Out::Ok("too many tables"),
            Some(got) => {
                if let Some(x) = got.difference(&acc).next() {
                    return Out::Bad(format!("{}: {:?} can be proved", OPS[op], x));
                }
                if let Some(x) = acc.difference(&got).next() {
                    return Out::Bad(format!("{}: {:?} cannot be proved", OPS[op], x));
                }
            }
        }
    }
    Out::Ok(if acc.is_empty() { "refuses" } else { "proves" })
}

fn int(j: &J, modulus: &[u8]) -> num_bigint::BigInt {
    use num_bigint::BigInt;
    let p = BigInt::from_bytes_le(num_bigint::Sign::Plus, modulus);
    let mut s = BigInt::from(0);
    for t in j.as_array().unwrap() {
        let (k, e) = (t[0].as_i64().unwrap(), t[1].as_i64().unwrap());
        s += BigInt::from(k) * if e < 0 { p.clone() } else { BigInt::from(1) << e as usize };
    }
    ((s % &p) + &p) % &p
}
pub fn modulus<F: PrimeField<Repr = [u8; 32]>>() -> [u8; 32] {
    let mut b = (-F::one()).to_repr();
    b[0] += 1;
    b
}
pub fn elem<F: PrimeField<Repr = [u8; 32]>>(k: &num_bigint::BigInt) -> F {
    let m = num_bigint::BigInt::from_bytes_le(num_bigint::Sign::Plus, &modulus::<F>());
    let v = (k % m).to_bytes_le().1;
    let mut b = [0u8; 32];
    b[..v.len()].copy_from_slice(&v);
    F::from_repr(b).unwrap()
}
fn multiple(k: i64, s: S) -> pallas::Affine {
    let g = pallas::Point::generator() * (if k < 0 { -S::from((-k) as u64) } else { S::from(k as u64) } * s);
    g.to_affine()
}
pub fn coords(p: pallas::Affine) -> Vec<B> {
    if bool::from(p.is_identity()) {
        return vec![B::zero(); 2];
    }
    let c = p.coordinates().unwrap();
    vec![*c.x(), *c.y()]
}

/// The chip's own witness on Pallas.
pub fn pallas_case(c: &J) -> Out {
    let op = OPS.iter().position(|o| c["op"] == *o).expect("operation");
    let exps: Vec<i64> = c["exps"].as_array().unwrap().iter().map(|e| e.as_i64().unwrap()).collect();
    let mut x: Vec<B> = exps.iter().flat_map(|e| coords(multiple(*e, S::one()))).collect();
    let mut params: Vec<u64> = vec![];
    // the factor of the result, where there is a scalar
    let mut by = S::one();
    match OPS[op] {
        "mul" | "mulmul" | "elem" => {
            let k = int(&c["k"], &modulus::<B>());
            x.push(elem::<B>(&k));
            by = elem::<S>(&k);
        }
        "full" => {
            let k = int(&c["k"], &modulus::<S>());
            by = elem::<S>(&k);
            x.push(B::zero());
            params = by.to_repr().chunks(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
        }
        "short" => {
            let k = int(&c["k"], &modulus::<B>());
            let g = c["sign"].as_i64().unwrap();
            x.push(elem::<B>(&k));
            x.push(if g < 0 { -B::from((-g) as u64) } else { B::from(g as u64) });
            by = elem::<S>(&k) * if g < 0 { -S::one() } else { S::one() };
        }
        _ => {}
    }
    let given = if OPS[op] == "full" { 0 } else { x.len() };
    let want: Option<Vec<B>> = if c["ok"] == true {
        let mut w = x[..given].to_vec();
        for e in c["out"].as_array().unwrap() {
            w.extend(coords(multiple(e.as_i64().unwrap(), by)));
        }
        if OPS[op] == "ext" { w.push(x[0]) }
        Some(w)
    } else {
        None
    };
    let shown = size(OPS[op]).1;
    let inputs: Vec<Value<B>> = x.iter().map(|v| Value::known(*v)).collect();
    for v1 in [false, true] {
        let s = if v1 { Sys::of(&host::<V1>(op, inputs.clone(), &params), shown) } else { Sys::of(&host::<SimpleFloorPlanner>(op, inputs.clone(), &params), shown) };
        let got = s.as_ref().map_err(|e| e.clone()).and_then(|s| s.honest());
        match (&got, &want) {
            (Ok(g), Some(w)) if g == w => {}
            (Err(_), None) => continue,
            _ => return Out::Bad(format!("{}: the witness gives {:?} instead of {:?}", OPS[op], got, want)),
        }
        if c["rigid"] == true {
            let m = s.unwrap().movable(given);
            if !m.is_empty() {
                return Out::Bad(format!("{}: the constraints leave visible values {:?} free", OPS[op], m));
            }
        }
    }
    Out::Ok(if want.is_some() { "witness" } else { "no witness" })
}
/// A dishonest prover on Pallas: the bits of another number than the scalar, but congruent to it; or whatever fits of
/// the table for other inputs.
pub fn forge_case(c: &J) -> Out {
    use num_bigint::{BigInt, Sign};
    let op = OPS.iter().position(|o| c["op"] == *o).expect("operation");
    let name = OPS[op];
    let p = BigInt::from_bytes_le(Sign::Plus, &modulus::<B>());
    let q = BigInt::from_bytes_le(Sign::Plus, &modulus::<S>());
    let two = |e: usize| BigInt::from(1) << e;
    let exps: Vec<i64> = c["exps"].as_array().unwrap().iter().map(|e| e.as_i64().unwrap()).collect();
    let k = int(&c["k"], &modulus::<B>());
    let sign = c["sign"].as_i64().unwrap();
    let inputs = |exps: &[i64], k: &BigInt, sign: i64| -> Vec<B> {
        let mut x: Vec<B> = exps.iter().flat_map(|e| coords(multiple(*e, S::one()))).collect();
        x.push(elem::<B>(k));
        if name == "short" {
            x.push(if sign < 0 { -B::one() } else { B::from(sign as u64) });
        }
        x
    };
    let shown = size(name).1;
    let table = |v1: bool, x: &[B]| {
        let x: Vec<Value<B>> = x.iter().map(|v| Value::known(*v)).collect();
        if v1 { Sys::of(&host::<V1>(op, x, &[]), shown) } else { Sys::of(&host::<SimpleFloorPlanner>(op, x, &[]), shown) }
    };
    let x = inputs(&exps, &k, sign);
    let mut want = x.clone();
    for e in c["out"].as_array().unwrap() {
        want.extend(coords(multiple(e.as_i64().unwrap(), elem::<S>(&k) * if name == "short" && sign < 0 { -S::one() } else { S::one() })));
    }
    let fits = c["ok"] == true;
    let other = if name == "short" { two(60) + two(33) + 5 } else { two(253) + two(129) + two(77) + 11 };
    let mut alike: Vec<Vec<B>> = vec![x.clone(), inputs(&exps, &other, sign), inputs(&exps, &(&k + 1), sign)];
    alike.push(if name == "short" { inputs(&exps, &k, if sign == 1 { -1 } else { 1 }) } else { inputs(&exps.iter().map(|e| e + 6).collect::<Vec<_>>(), &k, sign) });
    let mut found = 0;
    for v1 in [false, true] {
        let s = match table(v1, &x) {
            Ok(s) => s,
            Err(e) => return Out::Bad(format!("synthesis: {}", e)),
        };
        let mut judge = |got: Option<Vec<B>>| match got {
            None => Ok(()),
            Some(got) if fits && got == want => {
                found += 1;
                Ok(())
            }
            Some(got) => Err(Out::Bad(format!("{}: {:?} can be proved instead of {:?}", name, got, if fits { Some(&want) } else { None }))),
        };
        for a in &alike {
            let like = match table(v1, a) {
                Ok(l) if l.honest.len() == s.honest.len() && l.vis == s.vis => l,
                _ => continue,
            };
            if let Err(b) = judge(Attack::run(&s, x.len(), &x, vec![], &like.honest, 400)) {
                return b;
            }
        }
        if name == "short" {
            continue;
        }
        let t = if name == "elem" { BigInt::from(0) } else { &q - two(254) };
        for off in [-1, 1] {
            let n = &k + &t + BigInt::from(off) * &p;
            if n.sign() == Sign::Minus || n >= two(255) {
                continue;
            }
            // its shifts, and those of the numbers the range checks are about
            let top: BigInt = &n >> 254;
            let side = if name == "elem" { &n % two(252) + two(130) - (&p - two(254)) } else { &k + (top << 130) };
            let side = ((side % &p) + &p) % &p;
            let cut: BigInt = &side % two(130);
            let hints: Vec<B> = (0..256usize).flat_map(|j| [&n >> j, &side >> j, &cut >> j]).map(|v| elem::<B>(&v)).collect();
            if let Err(b) = judge(Attack::run(&s, x.len(), &x, hints, &s.honest, 400)) {
                return b;
            }
        }
    }
    Out::Ok(if found > 0 { "only the right one" } else { "nothing" })
}

//! Sinsemilla (hash, commitment, Merkle layer and path; outside the circuit and as a gadget), replayed against Sinsemilla.tla:
//! the specification names each result as a sum of multiples of generators.
use crate::attack::Attack;
use crate::cells::*;
use crate::ecc::{coords, elem, modulus, Bases, Full};
use crate::par::Out;
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::*;
use halo2_gadgets::ecc::*;
use halo2_gadgets::sinsemilla::chip::*;
use halo2_gadgets::sinsemilla::merkle::chip::*;
use halo2_gadgets::sinsemilla::merkle::*;
use halo2_gadgets::sinsemilla::*;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_gadgets::utilities::UtilitiesInstructions;
use halo2_proofs::circuit::{floor_planner::V1, AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2curves::pasta::pallas;
use halo2curves::CurveExt;
use num_bigint::{BigInt, Sign};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::sync::Mutex;

type B = pallas::Base;
type S = pallas::Scalar;
type Cell = AssignedCell<B, B>;
const K: usize = 10;
const MAX: usize = 253;

const DOMAIN: &str = "verif:domain";
fn start(domain: &str) -> pallas::Point {
    pallas::Point::hash_to_curve("z.cash:SinsemillaQ")(domain.as_bytes())
}
fn generator(j: usize) -> pallas::Point {
    static T: Mutex<Vec<pallas::Point>> = Mutex::new(vec![]);
    let mut t = T.lock().unwrap_or_else(|e| e.into_inner());
    if t.is_empty() {
        let h = pallas::Point::hash_to_curve("z.cash:SinsemillaS");
        *t = (0..1024u32).map(|j| h(&j.to_le_bytes())).collect();
    }
    t[j]
}
fn pow2(e: u64) -> S {
    (0..e).fold(S::one(), |a, _| a + a)
}
/// sum of 2^e times a generator; the first term is the starting point
fn sum(q: pallas::Point, terms: &J) -> pallas::Point {
    terms.as_array().unwrap().iter().fold(pallas::Point::identity(), |a, t| {
        let w = t[0].as_i64().unwrap();
        a + (if w < 0 { q } else { generator(w as usize) }) * pow2(t[1].as_u64().unwrap())
    })
}

#[derive(Debug, Clone, PartialEq, Eq)]
struct Dom;
impl HashDomains<pallas::Affine> for Dom {
    fn Q(&self) -> pallas::Affine {
        start(DOMAIN).to_affine()
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
struct Com;
impl CommitDomains<pallas::Affine, Bases, Dom> for Com {
    fn r(&self) -> Full {
        Full
    }
    fn hash_domain(&self) -> Dom {
        Dom
    }
}
type Sin = SinsemillaChip<Dom, Com, Bases>;
type Mer = MerkleChip<Dom, Com, Bases>;
type Ecc = EccChip<Bases>;
const DEPTH: usize = 3;
const OPS: [&str; 6] = ["hash", "commit", "layer", "root", "root2", "short"];
struct Gad;
impl Gadget<B> for Gad {
    type Config = (EccConfig<Bases>, MerkleConfig<Dom, Com, Bases>, MerkleConfig<Dom, Com, Bases>, SinsemillaConfig<Dom, Com, Bases>);
    fn configure(m: &mut ConstraintSystem<B>) -> Self::Config {
        let a = [0; 10].map(|_| m.advice_column());
        for c in &a {
            m.enable_equality(*c);
        }
        let k = m.fixed_column();
        m.enable_constant(k);
        let t = (m.lookup_table_column(), m.lookup_table_column(), m.lookup_table_column());
        let f = [0; 8].map(|_| m.fixed_column());
        let r = LookupRangeCheckConfig::configure(m, a[9], t.0);
        let e = Ecc::configure(m, a, f, r);
        let s1 = Sin::configure(m, a[..5].try_into().unwrap(), a[2], f[0], t, r);
        let s2 = Sin::configure(m, a[5..].try_into().unwrap(), a[7], f[1], t, r);
        (e, Mer::configure(m, s1.clone()), Mer::configure(m, s2), s1)
    }
    fn run((e, m1, m2, s): Self::Config, mut l: impl Layouter<B>, x: &[Value<B>], p: &[u64]) -> Result<Vec<Cell>, Error> {
        Sin::load(s.clone(), &mut l)?;
        let ecc = Ecc::construct(e.clone());
        let sin = Sin::construct(s);
        let (one, two) = (Mer::construct(m1), Mer::construct(m2));
        let mut out: Vec<Cell> = vec![];
        match OPS[p[0] as usize] {
            op @ ("hash" | "commit" | "short") => {
                let n = p[1] as usize;
                let mut pieces = vec![];
                for i in 0..n {
                    pieces.push(MessagePiece::from_field_elem(sin.clone(), l.namespace(|| "piece"), x[i], p[2 + i] as usize)?);
                }
                for q in &pieces {
                    out.push(q.inner().cell_value());
                }
                let msg = Message::from_pieces(sin.clone(), pieces);
                if op == "hash" {
                    let d = HashDomain::new(sin, ecc, &Dom);
                    let (r, zs) = d.hash_to_point(l.namespace(|| "hash"), msg)?;
                    out.push(r.inner().x());
                    out.push(r.inner().y());
                    for z in zs {
                        out.extend(z.into_iter().skip(1));
                    }
                } else {
                    let d = CommitDomain::new(sin, ecc.clone(), &Com);
                    let r = x[0].map(|_| {
                        let mut b = [0u8; 32];
                        for i in 0..4 {
                            b[8 * i..8 * i + 8].copy_from_slice(&p[2 + n + i].to_le_bytes())
                        }
                        S::from_repr(b).unwrap()
                    });
                    let r = ScalarFixed::new(ecc, l.namespace(|| "r"), r)?;
                    if op == "short" {
                        let (r, _) = d.short_commit(l.namespace(|| "commit"), msg, r)?;
                        out.push(r.inner().clone());
                    } else {
                        let (r, _) = d.commit(l.namespace(|| "commit"), msg, r)?;
                        out.push(r.inner().x());
                        out.push(r.inner().y());
                    }
                }
            }
            "layer" => {
                let a = one.load_private(l.namespace(|| "left"), e.advices[0], x[0])?;
                let b = one.load_private(l.namespace(|| "right"), e.advices[0], x[1])?;
                let r = MerkleInstructions::<pallas::Affine, DEPTH, K, MAX>::hash_layer(&one, l.namespace(|| "layer"), Dom.Q(), p[1] as usize, a.clone(), b.clone())?;
                out.extend([a, b, r]);
            }
            op => {
                let leaf = one.load_private(l.namespace(|| "leaf"), e.advices[0], x[0])?;
                let path = x[1].zip(x[2]).zip(x[3]).map(|((a, b), c)| [a, b, c]);
                let pos = x[0].map(|_| p[1] as u32);
                let r = if op == "root" {
                    MerklePath::<pallas::Affine, Mer, DEPTH, K, MAX, 1>::construct([one], Dom, pos, path).calculate_root(l.namespace(|| "root"), leaf.clone())?
                } else {
                    MerklePath::<pallas::Affine, Mer, DEPTH, K, MAX, 2>::construct([one, two], Dom, pos, path).calculate_root(l.namespace(|| "root"), leaf.clone())?
                };
                out.extend([leaf, r]);
            }
        }
        Ok(out)
    }
}
fn table(v1: bool, x: &[B], params: &[u64], shown: usize) -> Result<Sys<B>, String> {
    let inputs = x.iter().map(|v| Value::known(*v)).collect();
    if v1 {
        Sys::of(&Host::<B, Gad, V1> { inputs, params: params.to_vec(), _p: PhantomData }, shown)
    } else {
        Sys::of(&Host::<B, Gad, SimpleFloorPlanner> { inputs, params: params.to_vec(), _p: PhantomData }, shown)
    }
}
fn bits(j: &J) -> BigInt {
    j.as_array().unwrap().iter().fold(BigInt::from(0), |a, b| a + (BigInt::from(1) << b.as_u64().unwrap() as usize))
}
fn words(j: &J) -> BigInt {
    j.as_array().unwrap().iter().rev().fold(BigInt::from(0), |a, b| (a << K) + b.as_u64().unwrap())
}
fn scalar(j: &J) -> S {
    elem::<S>(&bits(j))
}
fn limbs(s: S) -> Vec<u64> {
    s.to_repr().chunks(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect()
}

/// Outside the circuit.
pub fn host_case(c: &J) -> Out {
    use halo2_gadgets::sinsemilla::primitives as prim;
    let msg: Vec<bool> = c["bits"].as_array().unwrap().iter().map(|b| b.as_u64() == Some(1)).collect();
    let name = c["domain"].as_str().unwrap();
    let d = prim::HashDomain::new(name);
    let want = sum(start(name), &c["terms"]);
    if Option::<pallas::Point>::from(d.hash_to_point(msg.iter().copied())) != Some(want) {
        return Out::Bad("hash_to_point".into());
    }
    if Option::<B>::from(d.hash(msg.iter().copied())) != Some(coords(want.to_affine())[0]) {
        return Out::Bad("hash".into());
    }
    let r = scalar(&c["r"]);
    let k = prim::CommitDomain::new(name);
    let blind = pallas::Point::hash_to_curve(&format!("{}-r", name))(&[]);
    let want = sum(start(&format!("{}-M", name)), &c["terms"]) + blind * r;
    if Option::<pallas::Point>::from(k.commit(msg.iter().copied(), &r)) != Some(want) {
        return Out::Bad("commit".into());
    }
    if Option::<B>::from(k.short_commit(msg.iter().copied(), &r)) != Some(coords(want.to_affine())[0]) {
        return Out::Bad("short_commit".into());
    }
    Out::Ok("host")
}
/// Tables of a Merkle layer for other encodings of the nodes: congruent integers that are too long, and parts that do not fit together as integers,
/// only modulo p. Each is the honest table with the parts replaced, cells in lookups (range checks and the hash) apart from the others.
fn encodings(s: &Sys<B>, l: u64, left: &BigInt, right: &BigInt, p: &BigInt) -> Vec<Vec<Option<B>>> {
    let two = |e: usize| BigInt::from(1) << e;
    let half5 = elem::<B>(&two(5)).invert().unwrap();
    let int = |v: B| BigInt::from_bytes_le(Sign::Plus, &v.to_repr());
    let m = |v: &BigInt, e: usize| -> BigInt { v % two(e) };
    // a, b, c as hashed; z1_a, b_1, b_2 as they appear in the decomposition
    let mut all: Vec<([BigInt; 3], [B; 3])> = vec![];
    let parts = |u: &BigInt, v: &BigInt| -> ([BigInt; 3], [B; 3]) {
        let (z, b0, b1, b2): (BigInt, BigInt, BigInt, BigInt) = (m(u, 240), m(u, 250) >> 240usize, u >> 250usize, m(v, 5));
        let rest: BigInt = v >> 5usize;
        ([BigInt::from(l) + (&z << K), b0 + (&b1 << 10usize) + (&b2 << 15usize), rest], [elem(&z), elem(&b1), elem(&b2)])
    };
    let (h, g) = parts(left, right);
    for (i, j) in [(1, 0), (2, 0), (3, 0), (5, 0), (0, 1), (0, 2), (1, 1), (2, 1)] {
        all.push(parts(&(left + p * i), &(right + p * j)));
    }
    let rest: BigInt = right >> 5usize;
    let top: BigInt = left >> 240usize;
    let some = (0..1u64 << 15).filter_map(|w| {
        let z = elem::<B>(left) - B::from(w) * elem::<B>(&two(240));
        let a = int(B::from(l) + z * B::from(1024));
        let b2: BigInt = m(right, 5) << 15usize;
        (a < two(250) && BigInt::from(w) != top).then(|| ([a, BigInt::from(w) + b2, rest.clone()], [z, B::from(w >> 10), g[2]]))
    });
    all.extend(some.take(3));
    let some = (0..1024u64).filter_map(|w| {
        let b2 = (B::from(w) - g[1]) * half5;
        let c = int((elem::<B>(right) - b2) * half5);
        let b0: BigInt = m(left, 250) >> 240usize;
        (c < two(250) && b2 != g[2]).then(|| ([h[0].clone(), b0 + (BigInt::from(w) << 10usize), c], [g[0], g[1], b2]))
    });
    all.extend(some.take(3));
    let looked: BTreeSet<usize> = s.cons.iter().filter(|c| c.table.is_some()).flat_map(|c| c.vars.iter().copied()).collect();
    let mut res = vec![];
    for (n, e) in all {
        if (0..3).any(|i| n[i] >= two([250, 20, 250][i])) {
            continue;
        }
        let mut map: BTreeMap<B, (B, B)> = BTreeMap::new();
        for (i, words) in [25, 2, 25].iter().enumerate() {
            for k in 0..*words {
                let v = elem::<B>(&(&n[i] >> (K * k)));
                map.insert(elem(&(&h[i] >> (K * k))), (v, v));
            }
        }
        let z: BigInt = &n[0] >> K;
        map.insert(g[0], (elem(&z), e[0]));
        for i in [1, 2] {
            let fits = int(e[i]) < BigInt::from(32);
            map.insert(g[i], (if fits { e[i] } else { g[i] }, e[i]));
            map.insert(g[i] * B::from(32), if fits { (e[i] * B::from(32), e[i] * B::from(32)) } else { (g[i] * B::from(32), g[i] * B::from(32)) });
        }
        res.push((0..s.honest.len()).map(|v| s.honest[v].map(|x| map.get(&x).map(|y| if looked.contains(&v) { y.0 } else { y.1 }).unwrap_or(x))).collect());
    }
    res
}
/// As a gadget.
pub fn chip_case(c: &J) -> Out {
    let name = c["op"].as_str().unwrap();
    let op = OPS.iter().position(|o| *o == name).expect("operation") as u64;
    let q = start(DOMAIN);
    let p = BigInt::from_bytes_le(Sign::Plus, &modulus::<B>());
    let (x, params, given, wants): (Vec<B>, Vec<u64>, usize, Vec<Vec<B>>);
    let mut other: Vec<Vec<B>> = vec![];
    match name {
        "hash" | "commit" | "short" => {
            let ps = c["pieces"].as_array().unwrap();
            // a piece may have more words than are announced
            let ns: Vec<u64> = c["sizes"].as_array().unwrap().iter().map(|n| n.as_u64().unwrap()).collect();
            let vs: Vec<BigInt> = ps.iter().map(words).collect();
            x = vs.iter().map(|v| elem::<B>(v)).collect();
            let r = scalar(&c["r"]);
            let mut ws = x.clone();
            let mut point = sum(q, &c["terms"]);
            if name != "hash" {
                point += pallas::Point::generator() * r;
            }
            ws.extend(&coords(point.to_affine())[..if name == "short" { 1 } else { 2 }]);
            if name == "hash" {
                for (v, n) in vs.iter().zip(&ns) {
                    ws.extend((1..*n as usize).map(|i| elem::<B>(&(v >> (K * i)))));
                }
            }
            let mut ps = vec![op, x.len() as u64];
            ps.extend(&ns);
            if name != "hash" {
                ps.extend(limbs(r));
            }
            for flip in [1u64, 1 << 9, 1 << 10] {
                other.push(vs.iter().map(|v| elem::<B>(&(v ^ BigInt::from(flip)))).collect());
            }
            params = ps;
            given = x.len();
            wants = vec![ws];
        }
        "layer" => {
            let (a, b) = (bits(&c["left"]), bits(&c["right"]));
            x = vec![elem::<B>(&a), elem::<B>(&b)];
            params = vec![op, c["l"].as_u64().unwrap()];
            given = 2;
            let of = |a: &BigInt, b: &BigInt| {
                let m = BigInt::from(c["l"].as_u64().unwrap()) + (a << K) + (b << (K + 255));
                let n = 52u64;
                let h = (0..n).fold(q * pow2(n), |s, i| {
                    let w: BigInt = (&m >> (K * i as usize)) % 1024;
                    s + generator(w.iter_u64_digits().next().unwrap_or(0) as usize) * pow2(n - 1 - i)
                });
                let mut v = x.clone();
                v.push(coords(h.to_affine())[0]);
                v
            };
            let want = {
                let mut v = x.clone();
                v.push(coords(sum(q, &c["terms"]).to_affine())[0]);
                v
            };
            if want != of(&a, &b) {
                return Out::Bad("the harness and the specification disagree".into());
            }
            let mut ws = vec![want];
            // encodings need not be canonical
            for (i, j) in [(0, 1), (1, 0), (1, 1)] {
                let (a, b) = (&a + &p * i, &b + &p * j);
                if a < BigInt::from(1) << 255 && b < BigInt::from(1) << 255 {
                    ws.push(of(&a, &b));
                }
            }
            wants = ws;
            for (i, j) in [(1, 0), (0, 1), (1 << 4, 1 << 5), (1 << 5, 1 << 4)] {
                other.push(vec![elem::<B>(&(&a ^ BigInt::from(i))), elem::<B>(&(&b ^ BigInt::from(j)))]);
            }
            for e in [239usize, 240, 249, 250] {
                let f = BigInt::from(1) << e;
                other.push(vec![elem::<B>(&(&a ^ &f)), elem::<B>(&(&b ^ &f))]);
            }
        }
        _ => {
            let vs: Vec<BigInt> = c["nodes"].as_array().unwrap().iter().map(bits).collect();
            x = vs.iter().map(|v| elem::<B>(v)).collect();
            params = vec![op, c["pos"].as_u64().unwrap()];
            given = 1;
            // layers: which side the node is on
            let mut node = vs[0].clone();
            for (i, side) in c["sides"].as_array().unwrap().iter().enumerate() {
                let (a, b) = if side == "left" { (&node, &vs[i + 1]) } else { (&vs[i + 1], &node) };
                let m = BigInt::from(i) + (a << K) + (b << (K + 255));
                let h = (0..52u64).fold(q, |s, i| {
                    let w: BigInt = (&m >> (K * i as usize)) % 1024;
                    s + s + generator(w.iter_u64_digits().next().unwrap_or(0) as usize)
                });
                node = BigInt::from_bytes_le(Sign::Plus, &coords(h.to_affine())[0].to_repr());
            }
            wants = vec![vec![x[0], elem::<B>(&node)]];
        }
    }
    let shown = wants[0].len();
    let fits = c["ok"] == true;
    let mut found = false;
    for v1 in [false, true] {
        let s = match table(v1, &x, &params, shown) {
            Ok(s) => s,
            Err(_) if !fits => continue,
            Err(e) => return Out::Bad(format!("synthesis: {}", e)),
        };
        match s.honest() {
            Ok(g) if fits && g == wants[0] => {}
            Err(_) if !fits => {}
            g => return Out::Bad(format!("{}: the witness gives {:?} instead of {:?}", name, g, if fits { Some(&wants[0]) } else { None })),
        }
        // another input with the same result
        if fits && (c["forge"] == true || name.starts_with("root")) && !v1 {
            let fixed = if name == "hash" { given + 2 } else { shown };
            for i in 0..given {
                for d in [B::one(), B::one() + B::one(), B::from(1u64 << 40), -B::one()] {
                    let mut f = wants[0].clone();
                    f[i] += d;
                    if Attack::run(&s, fixed, &f[..fixed], vec![], &s.honest, 200).is_some() {
                        return Out::Bad(format!("{}: {:?} can be proved", name, f));
                    }
                }
            }
        }
        if name.starts_with("root") {
            continue;
        }
        if fits && name != "commit" && name != "short" {
            let m = s.movable(given);
            if !m.is_empty() {
                return Out::Bad(format!("{}: the constraints leave visible values {:?} free", name, m));
            }
        }
        if c["forge"] == true && !(v1 && name == "layer") {
            let mut all = vec![(x.clone(), params.clone())];
            all.extend(other.iter().map(|o| (o.clone(), params.clone())));
            if name == "layer" {
                all.extend([1u64, 512].map(|f| (x.clone(), vec![op, params[1] ^ f])));
            }
            for (a, ps) in &all {
                let like = match table(v1, a, ps, shown) {
                    Ok(l) if l.honest.len() == s.honest.len() && l.vis == s.vis => l,
                    _ => continue,
                };
                if let Some(got) = Attack::run(&s, given, &x, vec![], &like.honest, 200) {
                    if !fits || !wants.contains(&got) {
                        return Out::Bad(format!("{}: {:?} can be proved instead of {:?}", name, got, wants[0]));
                    }
                    found = true;
                }
            }
            if name == "layer" {
                for h in encodings(&s, params[1], &bits(&c["left"]), &bits(&c["right"]), &p) {
                    if let Some(got) = Attack::run(&s, given, &x, vec![], &h, 200) {
                        if !wants.contains(&got) {
                            return Out::Bad(format!("{}: {:?} can be proved instead of {:?}", name, got, wants[0]));
                        }
                    }
                }
            }
        }
    }
    Out::Ok(if !fits { "refuses" } else if found { "only the right one" } else { "witness" })
}

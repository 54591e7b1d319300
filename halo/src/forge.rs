//! Binding of spec/Protocol.tla: proofs forged with the trapdoor of the parameters, following the message order and the
//! identity the specification gives, and recorded transcripts of the real prover and verifier.
use crate::par::{panic_text, Out};
use crate::plonk::*;
use group::{Curve, Group, GroupEncoding};
use halo2_proofs::arithmetic::{CurveAffine, Field, FieldExt};
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{CommitmentScheme, ParamsProver, Prover, Verifier};
use halo2_proofs::poly::kzg::commitment::KZGCommitmentScheme;
use halo2_proofs::poly::VerificationStrategy;
use halo2_proofs::transcript::*;
use halo2curves::bn256::{Bn256, Fr, G1Affine, G1};
use rand::SeedableRng;
use rand_xorshift::XorShiftRng;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use halo2curves::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

fn degree<F: Field>(e: &Expression<F>) -> usize {
    match e {
        Expression::Constant(_) | Expression::Challenge(_) => 0,
        Expression::Negated(a) | Expression::Scaled(a, _) => degree(a),
        Expression::Sum(a, b) => degree(a).max(degree(b)),
        Expression::Product(a, b) => degree(a) + degree(b),
        _ => 1,
    }
}
fn polys<F: Field>(cs: &ConstraintSystem<F>) -> Vec<Expression<F>> {
    cs.gates.iter().flat_map(|g| g.polynomials().to_vec()).collect()
}
fn kind(c: &Column<Any>) -> &'static str {
    match c.column_type() {
        Any::Advice(_) => "a",
        Any::Fixed => "f",
        Any::Instance => "i",
    }
}
/// The constraint system of a verifying key, as data for the specification.
pub fn dump<F: FieldExt>(cs: &ConstraintSystem<F>, k: usize, mindeg: usize, inst: &[Vec<Vec<F>>]) -> J {
    let ph = |s: String| s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().unwrap();
    json!({
        "k": k, "fix": cs.num_fixed_columns, "ins": cs.num_instance_columns,
        "adv": cs.advice_column_phase.iter().map(|p| ph(format!("{:?}", p))).collect::<Vec<_>>(),
        "chal": cs.challenge_phase.iter().map(|p| ph(format!("{:?}", p))).collect::<Vec<_>>(),
        "advq": cs.advice_queries.iter().map(|(c, r)| json!([c.index(), r.0])).collect::<Vec<_>>(),
        "fixq": cs.fixed_queries.iter().map(|(c, r)| json!([c.index(), r.0])).collect::<Vec<_>>(),
        "insq": cs.instance_queries.iter().map(|(c, r)| json!([c.index(), r.0])).collect::<Vec<_>>(),
        "perm": cs.permutation.get_columns().iter().map(|c| json!([kind(c), c.index()])).collect::<Vec<_>>(),
        "gates": polys(cs).iter().map(degree).collect::<Vec<_>>(),
        "lookups": cs.lookups.iter().map(|l| json!({"in": l.input_expressions.iter().map(degree).collect::<Vec<_>>(), "tab": l.table_expressions.iter().map(degree).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "mindeg": mindeg, "instlen": inst.iter().map(|w| w.iter().map(|c| c.len()).collect::<Vec<_>>()).collect::<Vec<_>>(),
    })
}

/// Everything that stays the same over the forgeries of one body.
pub struct Target {
    pub params: halo2_proofs::poly::kzg::commitment::ParamsKZG<Bn256>,
    pub vk: VerifyingKey<G1Affine>,
    pub inst: Vec<Vec<Vec<Fr>>>,
    pub scheme: String,
    pub k: u32,
    pub proto: J,
    repr: Fr,
}
const TRAPDOOR: u64 = 42;

impl Target {
    pub fn new(d: &Arc<Doc>, case: &J, scheme: &str, proto: J) -> Target {
        set_doc(d);
        let k = u(&d.shape["k"]) as u32;
        let params = halo2_proofs::poly::kzg::commitment::ParamsKZG::<Bn256>::unsafe_setup_with_s(k, Fr::from(TRAPDOOR));
        let case = Arc::new(case.clone());
        let vk = keygen_vk(&params, &SpecCircuit::<Fr, SimpleFloorPlanner>::new(&case, None)).expect("keygen");
        let inst = (0..witnesses(&case)).map(|w| instances(&case, w)).collect();
        Self::with(params, vk, inst, k, scheme, proto)
    }
    pub fn with(params: halo2_proofs::poly::kzg::commitment::ParamsKZG<Bn256>, vk: VerifyingKey<G1Affine>, inst: Vec<Vec<Vec<Fr>>>, k: u32, scheme: &str, proto: J) -> Target {
        let mut r = Rec::new(Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]));
        vk.hash_into(&mut r).unwrap();
        let repr = r.scalars[&0];
        Target { params, vk, inst, scheme: scheme.into(), k, proto, repr }
    }
}

/// The Blake2b transcript, written down independently.
#[derive(Clone)]
struct Tr(blake2b_simd::State);
impl Tr {
    fn new() -> Tr {
        Tr(blake2b_simd::Params::new().hash_length(64).personal(b"Halo2-Transcript").to_state())
    }
    fn scalar(&mut self, s: &Fr) {
        use ff::PrimeField;
        self.0.update(&[2]);
        self.0.update(s.to_repr().as_ref());
    }
    fn point(&mut self, p: &G1Affine) {
        use ff::PrimeField;
        self.0.update(&[1]);
        let c = p.coordinates().unwrap();
        self.0.update(c.x().to_repr().as_ref());
        self.0.update(c.y().to_repr().as_ref());
    }
    fn chal(&mut self) -> Fr {
        self.0.update(&[0]);
        let b: [u8; 64] = self.0.clone().finalize().as_bytes().try_into().unwrap();
        // little-endian 512-bit number modulo the group order, by Horner's rule
        b.iter().rev().fold(Fr::zero(), |acc, x| acc * Fr::from(256) + Fr::from(*x as u64))
    }
}

fn omega<F: FieldExt>(k: u32) -> F {
    let mut w = F::root_of_unity();
    for _ in k..F::S {
        w = w.square();
    }
    w
}
fn powi<F: FieldExt>(b: F, e: i64) -> F {
    let p = b.pow_vartime(&[e.unsigned_abs()]);
    if e < 0 {
        p.invert().unwrap()
    } else {
        p
    }
}

/// Values of everything the identity of the specification mentions.
struct Env<'a, F: FieldExt> {
    k: u32,
    proto: &'a J,
    inst: &'a [Vec<Vec<F>>],
    cs: &'a ConstraintSystem<F>,
    gates: Vec<Expression<F>>,
    evals: HashMap<String, F>,
    chals: HashMap<String, F>,
    x: F,
    om: F,
}
impl<'a, F: FieldExt> Env<'a, F> {
    fn new(k: u32, proto: &'a J, inst: &'a [Vec<Vec<F>>], cs: &'a ConstraintSystem<F>) -> Self {
        Env { k, proto, inst, cs, gates: polys(cs), evals: HashMap::new(), chals: HashMap::new(), x: F::zero(), om: omega(k) }
    }
    fn lag(&self, i: i64, at: F) -> F {
        let n = 1u64 << self.k;
        let wi = powi(self.om, i);
        wi * (at.pow_vartime(&[n]) - F::one()) * (F::from(n) * (at - wi)).invert().unwrap()
    }
    fn at(&self, rot: i64) -> F {
        self.x * powi(self.om, rot)
    }
    fn pos(&self, rot: i64) -> i64 {
        rot.rem_euclid(1 << self.k)
    }
    fn ev(&self, poly: &J, rot: i64) -> F {
        if let Some(v) = self.evals.get(&json!(["ev", poly, rot]).to_string()) {
            return *v;
        }
        if poly[0] == "inst" {
            let col = &self.inst[u(&poly[1])][u(&poly[2])];
            let p = self.at(rot);
            return col.iter().enumerate().map(|(i, v)| *v * self.lag(i as i64, p)).fold(F::zero(), |a, b| a + b);
        }
        panic!("no evaluation {} {}", poly, rot)
    }
    fn poly(&self, w: usize, e: &Expression<F>) -> F {
        match e {
            Expression::Constant(c) => *c,
            Expression::Selector(_) => panic!("selector"),
            Expression::Fixed(q) => self.ev(&json!(["fix", q.column_index()]), q.rotation().0 as i64),
            Expression::Advice(q) => self.ev(&json!(["adv", w, q.column_index()]), q.rotation().0 as i64),
            Expression::Instance(q) => self.ev(&json!(["inst", w, q.column_index()]), q.rotation().0 as i64),
            Expression::Challenge(c) => self.chals[&json!(["ch", c.index()]).to_string()],
            Expression::Negated(a) => -self.poly(w, a),
            Expression::Sum(a, b) => self.poly(w, a) + self.poly(w, b),
            Expression::Product(a, b) => self.poly(w, a) * self.poly(w, b),
            Expression::Scaled(a, s) => self.poly(w, a) * s,
        }
    }
    fn value(&self, e: &J) -> F {
        let b = i(&self.proto["blinding"]);
        match e[0].as_str().unwrap() {
            "*" => self.value(&e[1]) * self.value(&e[2]),
            "+" => self.value(&e[1]) + self.value(&e[2]),
            "-" => self.value(&e[1]) - self.value(&e[2]),
            "one" => F::one(),
            "zero" => F::zero(),
            "ev" => self.ev(&e[1], i(&e[2])),
            "chal" => self.chals[&e[1].to_string()],
            "delta" => powi(F::DELTA, i(&e[1])),
            "l0" => self.lag(0, self.x),
            "llast" => self.lag(-(b + 1), self.x),
            "lblind" => (1..=b).map(|j| self.lag(-j, self.x)).fold(F::zero(), |a, c| a + c),
            "gate" => self.poly(u(&e[1]), &self.gates[u(&e[2])]),
            "in" => self.poly(u(&e[1]), &self.cs.lookups[u(&e[2])].input_expressions[u(&e[3])]),
            "tab" => self.poly(u(&e[1]), &self.cs.lookups[u(&e[2])].table_expressions[u(&e[3])]),
            z => panic!("value {}", z),
        }
    }
    /// Sum of the constraints with powers of y; None if the one to be left out is zero anyway.
    fn folded(&self, without: Option<usize>) -> Option<F> {
        let y = self.chals["[\"y\"]"];
        let mut acc = F::zero();
        for (j, e) in arr(&self.proto["constraints"]).iter().enumerate() {
            let v = self.value(e);
            if without == Some(j) {
                if v == F::zero() {
                    return None;
                }
                acc *= y;
            } else {
                acc = acc * y + v;
            }
        }
        Some(acc)
    }
}

struct Forge<'a> {
    t: &'a Target,
    e: Env<'a, Fr>,
    points: HashMap<String, G1>,
}
impl<'a> Forge<'a> {
    fn commitment(&self, p: &J) -> G1 {
        match p[0].as_str().unwrap() {
            "fix" => self.t.vk.fixed_commitments()[u(&p[1])].into(),
            "sig" => self.t.vk.permutation().commitments()[u(&p[1])].into(),
            "H" => {
                let xn = self.e.x.pow_vartime(&[1u64 << self.t.k]);
                let d = u(&self.t.proto["degree"]) - 1;
                (0..d).rev().fold(G1::identity(), |acc, j| acc * xn + self.points[&json!(["h", j]).to_string()])
            }
            _ => self.points[&p.to_string()],
        }
    }
}

/// Some forgeries are no forgeries: the dropped constraint happens to vanish.
pub enum Forged {
    Proof(Vec<u8>),
    Vacuous,
}

/// The statement a deviation is about.
fn statement(t: &Target, cheat: &J) -> Vec<Vec<Vec<Fr>>> {
    let mut inst = t.inst.clone();
    if cheat["kind"] == "public" {
        let col = &mut inst[u(&cheat["i"])][u(&cheat["j"])];
        col.resize(u(&cheat["rows"]), Fr::zero());
        *col.last_mut().unwrap() = Fr::from(5);
    }
    inst
}

fn forge(t: &Target, inst: &[Vec<Vec<Fr>>], cheat: &J, seed: u64) -> Forged {
    use ff::PrimeField;
    let mut rng = XorShiftRng::seed_from_u64(seed);
    let kind = cheat["kind"].as_str().unwrap();
    let ci = cheat["i"].as_u64().map(|x| x as usize).unwrap_or(usize::MAX);
    let mut f = Forge { t, e: Env::new(t.k, &t.proto, inst, t.vk.cs()), points: HashMap::new() };
    let mut tr = Tr::new();
    let mut proof: Vec<Vec<u8>> = vec![];
    let mut at_msg: HashMap<usize, usize> = HashMap::new();
    let s = Fr::from(TRAPDOOR);
    let g = G1::generator();
    let mut script = arr(&t.proto["script"]).clone();
    if kind == "public" {
        script.retain(|m| m["id"][0] != "pub");
        let mut pubs = vec![];
        for (w, cols) in inst.iter().enumerate() {
            for (c, v) in cols.iter().enumerate() {
                pubs.extend((0..v.len()).map(|r| json!({"k": "common_scalar", "id": ["pub", w, c, r]})));
            }
        }
        script.splice(1..1, pubs);
    }
    let script = &script;
    let mut claims: Vec<(J, i64, Fr)> = vec![];
    let (mut h1, mut outer) = (G1::identity(), G1::identity());
    for (n, m) in script.iter().enumerate() {
        let id = &m["id"];
        let late = kind == "reveal" && ci == n;
        match m["k"].as_str().unwrap() {
            "common_scalar" => {
                let v = if id[0] == "vk" { t.repr } else { inst[u(&id[1])][u(&id[2])][u(&id[3])] };
                tr.scalar(&if late { v + Fr::one() } else { v });
            }
            "common_point" => panic!("not for this scheme"),
            "chal" => {
                let c = tr.chal();
                f.e.chals.insert(id.to_string(), c);
                if id[0] == "x" {
                    f.e.x = c;
                }
            }
            "scalar" => {
                // the same polynomial at the same point has the same value, whatever the rotation is called
                let twin = f.e.evals.iter().find(|(k2, _)| {
                    let j2: J = serde_json::from_str(k2).unwrap();
                    j2[1] == id[1] && f.e.pos(i(&j2[2])) == f.e.pos(i(&id[2]))
                });
                let v = match twin {
                    Some((_, v)) if kind != "split" => *v,
                    _ => Fr::random(&mut rng),
                };
                f.e.evals.insert(id.to_string(), v);
                tr.scalar(&if late { Fr::random(&mut rng) } else { v });
                at_msg.insert(n, proof.len());
                proof.push(v.to_repr().as_ref().to_vec());
            }
            "point" => {
                let mut p = if id[0] == "W" {
                    if claims.is_empty() {
                        // the identity, then what is claimed of every opened polynomial
                        let acc = match f.e.folded(if kind == "drop" { Some(ci) } else { None }) {
                            Some(a) => a,
                            None => return Forged::Vacuous,
                        };
                        let xn = f.e.x.pow_vartime(&[1u64 << t.k]);
                        let hx = acc * (xn - Fr::one()).invert().unwrap();
                        for (j, q) in arr(&t.proto["queries"]).iter().enumerate() {
                            let mut v = if q[0][0] == "H" { hx } else { f.e.ev(&q[0], i(&q[1])) };
                            if kind == "lie" && ci == j {
                                v += Fr::one();
                            }
                            claims.push((q[0].clone(), f.e.pos(i(&q[1])), v));
                        }
                        if kind == "split" {
                            claims[ci].2 = claims[u(&cheat["j"])].2;
                        }
                    }
                    let claim = |p: &J, r: i64| claims.iter().find(|c| &c.0 == p && c.1 == r).unwrap().2;
                    let groups = arr(&t.proto["groups"]);
                    if t.scheme == "gwc" {
                        let v = f.e.chals["[\"open\",\"v\"]"];
                        let gr = &groups[u(&id[1])];
                        let rot = i(&gr["points"][0]);
                        let mut acc = G1::identity();
                        for p in arr(&gr["polys"]).iter().rev() {
                            acc = acc * v + f.commitment(p) - g * claim(p, rot);
                        }
                        acc * (s - f.e.at(rot)).invert().unwrap()
                    } else if id[1] == 0 {
                        h1 = g * Fr::random(&mut rng);
                        h1
                    } else {
                        let (y, v, uu) = (f.e.chals["[\"open\",\"y\"]"], f.e.chals["[\"open\",\"v\"]"], f.e.chals["[\"open\",\"u\"]"]);
                        let mut all: Vec<i64> = groups.iter().flat_map(|g| arr(&g["points"]).iter().map(i)).collect();
                        all.sort();
                        all.dedup();
                        let van = |ps: &[i64]| ps.iter().map(|r| uu - f.e.at(*r)).fold(Fr::one(), |a, b| a * b);
                        let pts = |g: &J| arr(&g["points"]).iter().map(i).collect::<Vec<i64>>();
                        let diff = |g: &J| van(&all.iter().cloned().filter(|r| !pts(g).contains(r)).collect::<Vec<_>>());
                        let d0 = diff(&groups[0]).invert().unwrap();
                        let mut pv = Fr::one();
                        for gr in groups {
                            let ps = pts(gr);
                            let mut inner = G1::identity();
                            let mut py = Fr::one();
                            for p in arr(&gr["polys"]) {
                                // the claimed values, interpolated, at u
                                let mut r = Fr::zero();
                                for a in &ps {
                                    let mut l = claim(p, *a);
                                    for b in &ps {
                                        if a != b {
                                            l *= (uu - f.e.at(*b)) * (f.e.at(*a) - f.e.at(*b)).invert().unwrap();
                                        }
                                    }
                                    r += l;
                                }
                                inner += (f.commitment(p) - g * r) * py;
                                py *= y;
                            }
                            outer += inner * (pv * diff(gr) * d0);
                            pv *= v;
                        }
                        let z0 = van(&pts(&groups[0]));
                        (outer - h1 * z0) * (s - uu).invert().unwrap()
                    }
                } else {
                    g * Fr::random(&mut rng)
                };
                if kind == "wrongopen" && id[0] == "W" && u(&id[1]) == ci {
                    p += g;
                }
                f.points.insert(id.to_string(), p);
                let a = p.to_affine();
                tr.point(&if late { (p + g).to_affine() } else { a });
                at_msg.insert(n, proof.len());
                proof.push(a.to_bytes().as_ref().to_vec());
            }
            z => panic!("message {}", z),
        }
    }
    if kind == "cancel" {
        let (uu, rot) = (f.e.chals["[\"open\",\"u\"]"], |n: usize| i(&t.proto["groups"][n]["points"][0]));
        let at = |n: usize| script.iter().position(|m| m["id"] == json!(["W", n])).unwrap();
        let (z0, z1) = (f.e.at(rot(ci)), f.e.at(rot(ci + 1)));
        let d0 = f.points[&json!(["W", ci]).to_string()] + g * ((s - z1) * uu);
        let d1 = f.points[&json!(["W", ci + 1]).to_string()] - g * (s - z0);
        proof[at_msg[&at(ci)]] = d0.to_affine().to_bytes().as_ref().to_vec();
        proof[at_msg[&at(ci + 1)]] = d1.to_affine().to_bytes().as_ref().to_vec();
    }
    if kind == "swap" {
        proof.swap(at_msg[&ci], at_msg[&u(&cheat["j"])]);
    }
    let mut bytes = proof.concat();
    if kind == "cut" {
        bytes.truncate(bytes.len() - ci);
    }
    Forged::Proof(bytes)
}

fn verify_kzg(t: &Target, proof: &[u8], inst: &[Vec<Vec<Fr>>], single: bool) -> Result<(), String> {
    let i1: Vec<Vec<&[Fr]>> = inst.iter().map(|x| x.iter().map(|y| &y[..]).collect()).collect();
    let i2: Vec<&[&[Fr]]> = i1.iter().map(|x| &x[..]).collect();
    fn go<'p, V: Verifier<'p, KZGCommitmentScheme<Bn256>, MSMAccumulator = halo2_proofs::poly::kzg::msm::DualMSM<'p, Bn256>, Guard = halo2_proofs::poly::kzg::strategy::GuardKZG<'p, Bn256>>>(
        t: &'p Target, proof: &[u8], i2: &[&[&[Fr]]], single: bool,
    ) -> Result<(), String> {
        use halo2_proofs::poly::kzg::strategy::*;
        let vp = t.params.verifier_params();
        let mut r = Blake2bRead::<_, G1Affine, Challenge255<_>>::init(proof);
        if single {
            verify_proof::<KZGCommitmentScheme<Bn256>, V, _, _, _>(vp, &t.vk, SingleStrategy::new(vp), i2, &mut r).map_err(|e| format!("{:?}", e))
        } else {
            let st = verify_proof::<KZGCommitmentScheme<Bn256>, V, _, _, _>(vp, &t.vk, <AccumulatorStrategy<_> as VerificationStrategy<_, V>>::new(vp), i2, &mut r).map_err(|e| format!("{:?}", e))?;
            if VerificationStrategy::<_, V>::finalize(st) {
                Ok(())
            } else {
                Err("finalize".into())
            }
        }
    }
    use halo2_proofs::poly::kzg::multiopen::{VerifierGWC, VerifierSHPLONK};
    if t.scheme == "gwc" {
        go::<VerifierGWC<'_, Bn256>>(t, proof, &i2, single)
    } else {
        go::<VerifierSHPLONK<'_, Bn256>>(t, proof, &i2, single)
    }
}

pub fn forge_case(t: &Target, case: &J) -> Out {
    let want = case["accept"].as_bool().unwrap();
    let stated = statement(t, &case["cheat"]);
    for seed in [1u64, 2] {
        let proof = match forge(t, &stated, &case["cheat"], seed) {
            Forged::Vacuous => return Out::Skip("vacuous"),
            Forged::Proof(p) => p,
        };
        for single in [true, false] {
            let r = catch_unwind(AssertUnwindSafe(|| verify_kzg(t, &proof, &stated, single))).unwrap_or_else(|e| Err(format!("panic {}", panic_text(e))));
            if r.is_ok() != want {
                return Out::Bad(format!("{} single={}: a proof {} gives {:?}", t.scheme, single,
                    if want { "that follows the protocol and satisfies the identity".to_string() } else { format!("with the deviation {}", case["cheat"]) }, r));
            }
        }
        if want && case["cheat"]["kind"] == "none" {
            // the same proof for other public values
            for w in 0..t.inst.len() {
                for c in 0..t.inst[w].len() {
                    let mut variants: Vec<Vec<Fr>> = vec![];
                    for j in 0..t.inst[w][c].len() {
                        let mut v = t.inst[w][c].clone();
                        v[j] += Fr::one();
                        variants.push(v);
                    }
                    let mut v = t.inst[w][c].clone();
                    v.push(Fr::zero());
                    variants.push(v.clone());
                    for v in variants {
                        let mut inst = t.inst.clone();
                        inst[w][c] = v;
                        let r = catch_unwind(AssertUnwindSafe(|| verify_kzg(t, &proof, &inst, true))).unwrap_or_else(|e| Err(panic_text(e)));
                        if r.is_ok() {
                            return Out::Bad(format!("{}: a proof is accepted for other public values {:?}", t.scheme, inst));
                        }
                    }
                }
            }
        }
    }
    Out::Ok(if want { "accepted" } else { "rejected" })
}

// ---- recorded transcripts ----------------------------------------------------------------------
pub struct Rec<T, S> {
    pub inner: T,
    pub log: Vec<&'static str>,
    /// scalars sent and drawn, by message number
    pub scalars: HashMap<usize, S>,
    /// values to send instead
    pub instead: HashMap<usize, S>,
}
impl<T, S> Rec<T, S> {
    pub fn new(inner: T) -> Self {
        Rec { inner, log: vec![], scalars: HashMap::new(), instead: HashMap::new() }
    }
}
impl<C: CurveAffine, E: EncodedChallenge<C>, T: Transcript<C, E>> Transcript<C, E> for Rec<T, C::Scalar> {
    fn squeeze_challenge(&mut self) -> E {
        let c = self.inner.squeeze_challenge();
        self.scalars.insert(self.log.len(), c.get_scalar());
        self.log.push("chal");
        c
    }
    fn common_point(&mut self, p: C) -> io::Result<()> {
        self.log.push("common_point");
        self.inner.common_point(p)
    }
    fn common_scalar(&mut self, s: C::Scalar) -> io::Result<()> {
        self.scalars.insert(self.log.len(), s);
        self.log.push("common_scalar");
        self.inner.common_scalar(s)
    }
}
impl<C: CurveAffine, E: EncodedChallenge<C>, T: TranscriptWrite<C, E>> TranscriptWrite<C, E> for Rec<T, C::Scalar> {
    fn write_point(&mut self, p: C) -> io::Result<()> {
        self.log.push("point");
        self.inner.write_point(p)
    }
    fn write_scalar(&mut self, s: C::Scalar) -> io::Result<()> {
        let s = self.instead.get(&self.log.len()).copied().unwrap_or(s);
        self.scalars.insert(self.log.len(), s);
        self.log.push("scalar");
        self.inner.write_scalar(s)
    }
}
impl<C: CurveAffine, E: EncodedChallenge<C>, T: TranscriptRead<C, E>> TranscriptRead<C, E> for Rec<T, C::Scalar> {
    fn read_point(&mut self) -> io::Result<C> {
        self.log.push("point");
        self.inner.read_point()
    }
    fn read_scalar(&mut self) -> io::Result<C::Scalar> {
        self.log.push("scalar");
        self.inner.read_scalar()
    }
}

fn diff(what: &str, got: &[&str], want: &[String]) -> Result<(), String> {
    for n in 0..got.len().max(want.len()) {
        let (a, b) = (got.get(n).copied().unwrap_or("nothing"), want.get(n).map(|s| &s[..]).unwrap_or("nothing"));
        if a != b {
            return Err(format!("{}: message {} is {}, the protocol has {}", what, n, a, b));
        }
    }
    Ok(())
}

/// Prover and verifier messages of an honest run, against the specification's sequence; then every byte of the proof changed.
fn trace<'p, S, P, V, St>(params: &'p S::ParamsProver, vparams: &'p S::ParamsVerifier, case: &Arc<J>, k: u32, proto: &J, fuzz: bool) -> Result<usize, String>
where
    S: CommitmentScheme,
    S::Scalar: FieldExt,
    P: Prover<'p, S>,
    V: Verifier<'p, S>,
    St: VerificationStrategy<'p, S, V, Output = St>,
{
    let e = |x: Error| format!("{:?}", x);
    let empty = SpecCircuit::<S::Scalar, SimpleFloorPlanner>::new(case, None);
    let vk = keygen_vk(params, &empty).map_err(e)?;
    let pk = keygen_pk(params, vk, &empty).map_err(e)?;
    let n = witnesses(case);
    let circuits: Vec<_> = (0..n).map(|w| SpecCircuit::<S::Scalar, SimpleFloorPlanner>::new(case, Some(w))).collect();
    let inst: Vec<Vec<Vec<S::Scalar>>> = (0..n).map(|w| instances(case, w)).collect();
    let i1: Vec<Vec<&[S::Scalar]>> = inst.iter().map(|x| x.iter().map(|y| &y[..]).collect()).collect();
    let i2: Vec<&[&[S::Scalar]]> = i1.iter().map(|x| &x[..]).collect();
    let mut t = Rec::new(Blake2bWrite::<_, S::Curve, Challenge255<_>>::init(vec![]));
    create_proof::<S, P, _, _, _, _>(params, &pk, &circuits, &i2, XorShiftRng::seed_from_u64(7), &mut t).map_err(e)?;
    let want: Vec<String> = arr(&proto["script"]).iter().map(|m| m["k"].as_str().unwrap().to_string()).collect();
    let want = &want[..];
    // the prover need not draw challenges it does not use after its last message
    let last = want.iter().rposition(|k| k != "chal").map(|x| x + 1).unwrap_or(0);
    let plast = t.log.iter().rposition(|k| *k != "chal").map(|x| x + 1).unwrap_or(0);
    diff("prover", &t.log[..plast], &want[..last])?;
    let sent = t.scalars;
    let proof = t.inner.finalize();
    let mut r = Rec::new(Blake2bRead::<_, S::Curve, Challenge255<_>>::init(&proof[..]));
    let st = verify_proof::<S, V, _, _, _>(vparams, pk.get_vk(), St::new(vparams), &i2, &mut r).map_err(e)?;
    if !st.finalize() {
        return Err("honest proof rejected".into());
    }
    diff("verifier", &r.log, want)?;
    let mut m = 0;
    // statements with more values than the table has rows for: no proof of them is made or accepted
    let usable = u(&proto["usable"]);
    for (w, c) in (0..n).flat_map(|w| (0..inst[w].len()).map(move |c| (w, c))) {
        for rows in [usable, usable + 1, 1 << k, (1 << k) + 2] {
            let mut long = inst.clone();
            long[w][c].resize(rows, S::Scalar::zero());
            if rows > 1 << k {
                *long[w][c].last_mut().unwrap() = S::Scalar::from(9);
            }
            let l1: Vec<Vec<&[S::Scalar]>> = long.iter().map(|x| x.iter().map(|y| &y[..]).collect()).collect();
            let l2: Vec<&[&[S::Scalar]]> = l1.iter().map(|x| &x[..]).collect();
            m += 1;
            // zeros that fit are what the rest of the column holds anyway; only a committed column does not tell them apart
            let got = matches!(verdict::<S, V, St>(vparams, pk.get_vk(), &l2, &proof), Ok(true));
            if got != (rows <= usable && V::QUERY_INSTANCE) {
                return Err(format!("{} public values, {} fit: accepted is {}", rows, usable, got));
            }
            if rows > usable {
                let mut t = Blake2bWrite::<_, S::Curve, Challenge255<_>>::init(vec![]);
                if create_proof::<S, P, _, _, _, _>(params, &pk, &circuits, &l2, XorShiftRng::seed_from_u64(7), &mut t).is_ok() {
                    return Err(format!("{} public values, {} fit: a proof is made", rows, usable));
                }
            }
        }
    }
    if fuzz {
        // one changed bit in every message of the proof
        let size = 32;
        for j in 0..proof.len() / size {
            for (byte, bit) in [(0usize, 1u8), (31, 0x40), (31, 0x80)] {
                let mut p2 = proof.clone();
                p2[j * size + byte] ^= bit;
                let ok = catch_unwind(AssertUnwindSafe(|| {
                    let mut r = Blake2bRead::<_, S::Curve, Challenge255<_>>::init(&p2[..]);
                    match verify_proof::<S, V, _, _, _>(vparams, pk.get_vk(), St::new(vparams), &i2, &mut r) {
                        Ok(st) => st.finalize(),
                        Err(_) => false,
                    }
                }))
                .unwrap_or(false);
                m += 1;
                if ok {
                    return Err(format!("accepted with bit {:#x} of byte {} of proof message {} changed", bit, byte, j));
                }
            }
        }
    }
    // Two values claimed twice each, one of each pair falsified so that the identity still adds up.
    let script = arr(&proto["script"]);
    let queries = arr(&proto["queries"]);
    let splits = arr(&proto["splits"]);
    let msg = |q: &J| script.iter().position(|m| m["k"] == "scalar" && m["id"] == json!(["ev", q[0], q[1]])).unwrap();
    let mut env = Env::<S::Scalar>::new(k, proto, &inst, pk.get_vk().cs());
    for (n, m) in script.iter().enumerate() {
        match (m["k"].as_str().unwrap(), sent.get(&n)) {
            ("chal", Some(v)) => {
                env.chals.insert(m["id"].to_string(), *v);
                if m["id"][0] == "x" {
                    env.x = *v;
                }
            }
            ("scalar", Some(v)) => {
                env.evals.insert(m["id"].to_string(), *v);
            }
            _ => {}
        }
    }
    for a in splits {
        for b in splits {
            let (qa, qb) = (&queries[u(&a["i"])], &queries[u(&b["i"])]);
            if u(&a["i"]).max(u(&a["j"])) >= u(&b["i"]).min(u(&b["j"])) {
                continue;
            }
            let id = |q: &J| json!(["ev", q[0], q[1]]).to_string();
            let (va, vb) = (env.evals[&id(qa)], env.evals[&id(qb)]);
            let f0 = env.folded(None).unwrap();
            env.evals.insert(id(qa), va + S::Scalar::one());
            let f1 = env.folded(None).unwrap();
            env.evals.insert(id(qb), vb + S::Scalar::one());
            let f2 = env.folded(None).unwrap();
            env.evals.insert(id(qa), va);
            env.evals.insert(id(qb), vb);
            if f1 == f0 || f2 == f1 {
                continue;
            }
            let tb = (f0 - f1) * (f2 - f1).invert().unwrap();
            let mut t = Rec::new(Blake2bWrite::<_, S::Curve, Challenge255<_>>::init(vec![]));
            t.instead.insert(msg(qa), va + S::Scalar::one());
            t.instead.insert(msg(qb), vb + tb);
            create_proof::<S, P, _, _, _, _>(params, &pk, &circuits, &i2, XorShiftRng::seed_from_u64(7), &mut t).map_err(e)?;
            let p2 = t.inner.finalize();
            m += 1;
            if matches!(verdict::<S, V, St>(vparams, pk.get_vk(), &i2, &p2), Ok(true)) {
                return Err(format!("two values claimed for {} at one point differ, and for {}; accepted", qa, qb));
            }
        }
    }
    Ok(m)
}

fn verdict<'p, S, V, St>(vparams: &'p S::ParamsVerifier, vk: &VerifyingKey<S::Curve>, i2: &[&[&[S::Scalar]]], proof: &[u8]) -> Result<bool, Error>
where
    S: CommitmentScheme,
    S::Scalar: FieldExt,
    V: Verifier<'p, S>,
    St: VerificationStrategy<'p, S, V, Output = St>,
{
    let mut r = Blake2bRead::<_, S::Curve, Challenge255<_>>::init(proof);
    Ok(verify_proof::<S, V, _, _, _>(vparams, vk, St::new(vparams), i2, &mut r)?.finalize())
}

pub fn trace_case(d: &Arc<Doc>, p: &Params, name: &str, proto: &J, case: &J) -> Out {
    use halo2_proofs::poly::ipa::{commitment::IPACommitmentScheme, multiopen::{ProverIPA, VerifierIPA}, strategy::AccumulatorStrategy as IA};
    use halo2_proofs::poly::kzg::{multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK}, strategy::AccumulatorStrategy as KA};
    set_doc(d);
    let k = u(&d.shape["k"]) as u32;
    let case = Arc::new(case.clone());
    let r = catch_unwind(AssertUnwindSafe(|| match name {
        "shplonk" => trace::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, VerifierSHPLONK<'_, Bn256>, KA<Bn256>>(&p.kzg, p.kzg.verifier_params(), &case, k, proto, witnesses(&case) == 1),
        "gwc" => trace::<KZGCommitmentScheme<Bn256>, ProverGWC<'_, Bn256>, VerifierGWC<'_, Bn256>, KA<Bn256>>(&p.kzg, p.kzg.verifier_params(), &case, k, proto, witnesses(&case) == 1),
        _ => trace::<IPACommitmentScheme<halo2curves::pasta::EqAffine>, ProverIPA<'_, _>, VerifierIPA<'_, _>, IA<_>>(&p.ipa, p.ipa.verifier_params(), &case, k, proto, witnesses(&case) == 1),
    }))
    .unwrap_or_else(|e| Err(format!("panic {}", panic_text(e))));
    match r {
        Ok(_) => Out::Ok("traced"),
        Err(e) => Out::Bad(format!("{}: {}", name, e)),
    }
}

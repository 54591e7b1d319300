//! Binding of spec/Batch.tla: batches of valid and spoilt proofs given to the real accumulating strategies. The adversary
//! rehearses a batch, reads the accumulator (its Debug form) and foresees the factor if it can.
use crate::par::Out;
use crate::plonk::*;
use ff::Field;
use group::{Curve, GroupEncoding};
use halo2_proofs::arithmetic::{CurveAffine, FieldExt};
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{CommitmentScheme, ParamsProver, Prover, Verifier, MSM};
use halo2_proofs::poly::ipa::{commitment::IPACommitmentScheme, multiopen::{ProverIPA, VerifierIPA}, strategy::GuardIPA};
use halo2_proofs::poly::kzg::{commitment::KZGCommitmentScheme, multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK}};
use halo2_proofs::poly::VerificationStrategy;
use halo2_proofs::transcript::*;
use halo2curves::bn256::Bn256;
use halo2curves::pasta::EqAffine;
use rand::SeedableRng;
use rand_xorshift::XorShiftRng;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::sync::Arc;

type KS<'a> = halo2_proofs::poly::kzg::strategy::AccumulatorStrategy<'a, Bn256>;
type K1<'a> = halo2_proofs::poly::kzg::strategy::SingleStrategy<'a, Bn256>;
type IS<'a> = halo2_proofs::poly::ipa::strategy::AccumulatorStrategy<'a, EqAffine>;
type I1<'a> = halo2_proofs::poly::ipa::strategy::SingleStrategy<'a, EqAffine>;

pub struct Setup {
    doc: Arc<Doc>,
    params: Params,
    bodies: Vec<(Arc<J>, Arc<J>)>,
}

/// x * y = z with z public: statement `b` says 3 * b = 3b.
pub fn setup() -> Setup {
    let doc = Arc::new(Doc {
        shape: json!({"k": 4, "adv": [0, 0, 0], "fix": 1, "ins": 1, "sel": [], "tables": [], "chal": [], "eq": [["a", 2], ["i", 0]],
            "gates": [[["*", ["f", 0, 0], ["+", ["*", ["a", 0, 0], ["a", 1, 0]], ["-", ["a", 2, 0]]]]]], "lookups": []}),
        menu: json!([{"h": 1, "sel": [], "fix": [[0, 0, 1]], "cells": [{"col": 0, "off": 0, "dom": "V"}, {"col": 1, "off": 0, "dom": "V"}, {"col": 2, "off": 0, "dom": "V"}]}]),
    });
    let bodies = (0..3)
        .map(|b| {
            let c = json!({"inst": [[[3 * b]]], "regions": [{"t": 1, "v": [[[3, 0], [b, 0], [3 * b, 0]]]}], "links": [{"kind": "pub", "a": [1, 3], "col": 0, "row": 0}], "sat": [true]});
            (Arc::new(c.clone()), Arc::new(c))
        })
        .collect();
    Setup { params: Params::new(4), doc, bodies }
}

/// All hexadecimal numbers of a Debug text, with the words before them.
fn numbers(s: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut word = String::new();
    let mut it = s.char_indices().peekable();
    while let Some((k, c)) = it.next() {
        if c == '0' && s[k..].starts_with("0x") {
            let end = s[k + 2..].find(|c: char| !c.is_ascii_hexdigit()).map(|e| k + 2 + e).unwrap_or(s.len());
            out.push((word.trim().to_string(), s[k + 2..end].to_string()));
            while matches!(it.peek(), Some((p, _)) if *p < end) {
                it.next();
            }
        } else if c.is_alphabetic() || c == '_' {
            if !word.ends_with(|c: char| c.is_alphabetic() || c == '_') {
                word.clear();
            }
            word.push(c);
        } else if !word.is_empty() {
            word.push(' ');
        }
    }
    out
}
fn parse<F: FieldExt>(h: &str) -> F {
    h.chars().fold(F::zero(), |a, c| a * F::from(16) + F::from(c.to_digit(16).unwrap() as u64))
}
/// Factors by which numbers of the accumulator may have been multiplied between two looks at it, most frequent first.
fn ratios<F: FieldExt>(before: &str, after: &str) -> Vec<F> {
    // the parameters inside the Debug text do not change
    let a: Vec<F> = numbers(before).iter().map(|x| parse(&x.1)).collect();
    let b: Vec<F> = numbers(after).iter().map(|x| parse(&x.1)).collect();
    let mut tally: BTreeMap<Vec<u8>, (usize, F)> = BTreeMap::new();
    for d in 0..3usize {
        // numbers of the same place, or after the same number (keys of a map)
        for (k, x) in a.iter().enumerate() {
            let y = if d == 0 {
                b.get(k).copied()
            } else if d == 1 {
                k.checked_sub(1).and_then(|k| b.iter().position(|z| *z == a[k])).and_then(|p| b.get(p + 1)).copied()
            } else {
                a.get(k + 1).and_then(|n| b.iter().position(|z| z == n)).and_then(|p| p.checked_sub(1)).and_then(|p| b.get(p)).copied()
            };
            if let (Some(y), false) = (y, bool::from(x.is_zero())) {
                let r = y * x.invert().unwrap();
                if r != F::one() && r != F::zero() {
                    let e = tally.entry(r.to_repr().as_ref().to_vec()).or_insert((0, r));
                    e.0 += 1;
                }
            }
        }
    }
    let mut v: Vec<_> = tally.into_values().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.0));
    let mut out: Vec<F> = v.into_iter().take(3).map(|x| x.1).collect();
    out.extend([F::one(), F::from(42), -F::one()]);
    out
}

struct Run<'p, S: CommitmentScheme> {
    vparams: &'p S::ParamsVerifier,
    vk: VerifyingKey<S::Curve>,
    proofs: Vec<(Vec<u8>, Vec<S::Scalar>)>,
}
impl<'p, S: CommitmentScheme> Run<'p, S>
where
    S::Scalar: FieldExt,
{
    fn new<P: Prover<'p, S>>(s: &Setup, params: &'p S::ParamsProver, vparams: &'p S::ParamsVerifier) -> Self {
        set_doc(&s.doc);
        let empty = SpecCircuit::<S::Scalar, SimpleFloorPlanner>::new(&s.bodies[0].0, None);
        let vk = keygen_vk(params, &empty).expect("keygen");
        let pk = keygen_pk(params, vk.clone(), &empty).expect("keygen");
        let proofs = s
            .bodies
            .iter()
            .map(|(b, _)| {
                let c = SpecCircuit::<S::Scalar, SimpleFloorPlanner>::new(b, Some(0));
                let inst: Vec<Vec<S::Scalar>> = instances(b, 0);
                let mut t = Blake2bWrite::<_, S::Curve, Challenge255<_>>::init(vec![]);
                create_proof::<S, P, _, _, _, _>(params, &pk, &[c], &[&[&inst[0][..]]], XorShiftRng::seed_from_u64(7), &mut t).expect("proof");
                (t.finalize(), inst[0].clone())
            })
            .collect();
        Run { vparams, vk, proofs }
    }
    fn step<V, St>(&self, st: St, proof: &[u8], base: usize) -> Result<St::Output, Error>
    where
        V: Verifier<'p, S>,
        St: VerificationStrategy<'p, S, V>,
    {
        let mut r = Blake2bRead::<_, S::Curve, Challenge255<_>>::init(proof);
        verify_proof::<S, V, _, _, _>(self.vparams, &self.vk, st, &[&[&self.proofs[base].1[..]]], &mut r)
    }
    /// Some(accepted) or None if a proof is refused on its own.
    fn batch<V, St>(&self, proofs: &[(Vec<u8>, usize)]) -> bool
    where
        V: Verifier<'p, S>,
        St: VerificationStrategy<'p, S, V, Output = St>,
    {
        let mut st = St::new(self.vparams);
        for (p, b) in proofs {
            match self.step::<V, St>(st, p, *b) {
                Ok(s) => st = s,
                Err(_) => return false,
            }
        }
        st.finalize()
    }
    fn look<V, St>(&self, proofs: &[(Vec<u8>, usize)]) -> String
    where
        V: Verifier<'p, S>,
        St: VerificationStrategy<'p, S, V, Output = St> + std::fmt::Debug,
    {
        let mut st = St::new(self.vparams);
        for (p, b) in proofs {
            st = self.step::<V, St>(st, p, *b).expect("rehearsal");
        }
        let s = format!("{:?}", st);
        // leave the parameters out: only what changes matters
        s
    }
    /// Spoils the last message of a proof: adds `d` times a fixed point or scalar.
    fn spoil(&self, base: usize, d: S::Scalar, ipa: bool) -> Vec<u8> {
        use ff::PrimeField;
        let mut p = self.proofs[base].0.clone();
        if ipa {
            let n = p.len() - 32;
            let mut r = <S::Scalar as PrimeField>::Repr::default();
            r.as_mut().copy_from_slice(&p[n..]);
            let v = S::Scalar::from_repr(r).unwrap() + d;
            p[n..].copy_from_slice(v.to_repr().as_ref());
        } else {
            let mut r = <S::Curve as GroupEncoding>::Repr::default();
            let len = r.as_ref().len();
            let n = p.len() - len;
            r.as_mut().copy_from_slice(&p[n..]);
            let w = S::Curve::from_bytes(&r).unwrap();
            let g = <S::Curve as group::prime::PrimeCurveAffine>::generator();
            let v = (w.to_curve2() + g * d).to_affine();
            p[n..].copy_from_slice(v.to_bytes().as_ref());
        }
        p
    }
    fn case<V, St, S1>(&self, c: &J, ipa: bool) -> Out
    where
        V: Verifier<'p, S>,
        St: VerificationStrategy<'p, S, V, Output = St> + std::fmt::Debug,
        S1: VerificationStrategy<'p, S, V, Output = ()>,
    {
        let want = c["accept"] == true;
        let mut proofs: Vec<(Vec<u8>, usize)> = vec![];
        // error of the accumulator so far, in units of the spoiling point, under the factors seen in rehearsal
        let mut acc = S::Scalar::zero();
        let mut last_base = 0;
        let moves = arr(&c["batch"]);
        for (k, m) in moves.iter().enumerate() {
            let base = u(&m["base"]);
            let mut options = vec![S::Scalar::one()];
            if k > 0 {
                let before = self.look::<V, St>(&proofs);
                // rehearse with a valid proof in this place
                for b in 0..2 {
                    let mut r = proofs.clone();
                    r.push((self.proofs[b].0.clone(), b));
                    let v = ratios::<S::Scalar>(&before, &self.look::<V, St>(&r));
                    options = if b == 0 { v } else { let mut o = options; o.push(v[0]); o };
                }
            }
            match m["kind"].as_str().unwrap() {
                "good" => {
                    acc = acc * options[0];
                    proofs.push((self.proofs[base].0.clone(), base));
                }
                "bad" => {
                    let d = num::<S::Scalar>(i(&m["x"]));
                    acc = acc * options[0] + d;
                    last_base = base;
                    proofs.push((self.spoil(base, d, ipa), base));
                }
                _ => {
                    // the errors of one statement are multiples of each other: cancel in the same statement
                    let mut chosen = None;
                    for r in &options {
                        let p = self.spoil(last_base, -(acc * *r), ipa);
                        let mut t = proofs.clone();
                        t.push((p.clone(), last_base));
                        if chosen.is_none() || self.batch::<V, St>(&t) {
                            chosen = Some((p, acc * options[0] - acc * *r));
                        }
                    }
                    let (p, a) = chosen.unwrap();
                    acc = a;
                    proofs.push((p, last_base));
                }
            }
        }
        // each proof on its own
        for (k, (p, b)) in proofs.iter().enumerate() {
            let valid = moves[k]["kind"] == "good";
            let one = self.step::<V, S1>(S1::new(self.vparams), p, *b).is_ok();
            let alone = self.batch::<V, St>(&[(p.clone(), *b)]);
            if valid != one || valid != alone {
                // a cancelling proof whose error came out zero is valid
                if !(one && alone && *p == self.proofs[*b].0) {
                    return Out::Bad(format!("proof {} alone: single {} batch of one {}, expected {}", k + 1, one, alone, valid));
                }
            }
        }
        let got = self.batch::<V, St>(&proofs);
        if got != want && !(got && proofs.iter().all(|(p, b)| *p == self.proofs[*b].0)) {
            return Out::Bad(format!("the batch is {}, but {}", if got { "accepted" } else { "rejected" }, if want { "all its proofs are valid" } else { "not all its proofs are valid" }));
        }
        Out::Ok(if want { "accepted" } else { "rejected" })
    }
}
trait Proj: CurveAffine {
    fn to_curve2(&self) -> Self::CurveExt;
}
impl<C: CurveAffine> Proj for C {
    fn to_curve2(&self) -> C::CurveExt {
        (*self).into()
    }
}

/// The two ways of finishing an IPA check agree.
struct Both(bool, bool);
impl<'p> VerificationStrategy<'p, IPACommitmentScheme<EqAffine>, VerifierIPA<'p, EqAffine>> for Both {
    type Output = Both;
    fn new(_: &'p halo2_proofs::poly::ipa::commitment::ParamsVerifierIPA<EqAffine>) -> Self {
        Both(true, true)
    }
    fn process(
        self,
        _f: impl FnOnce(halo2_proofs::poly::ipa::msm::MSMIPA<'p, EqAffine>) -> Result<GuardIPA<'p, EqAffine>, Error>,
    ) -> Result<Both, Error> {
        unreachable!()
    }
    fn finalize(self) -> bool {
        self.0
    }
}
struct Guarded<'p>(&'p halo2_proofs::poly::ipa::commitment::ParamsVerifierIPA<EqAffine>);
impl<'p> VerificationStrategy<'p, IPACommitmentScheme<EqAffine>, VerifierIPA<'p, EqAffine>> for Guarded<'p> {
    type Output = Both;
    fn new(p: &'p halo2_proofs::poly::ipa::commitment::ParamsVerifierIPA<EqAffine>) -> Self {
        Guarded(p)
    }
    fn process(
        self,
        f: impl FnOnce(halo2_proofs::poly::ipa::msm::MSMIPA<'p, EqAffine>) -> Result<GuardIPA<'p, EqAffine>, Error>,
    ) -> Result<Both, Error> {
        let guard = f(halo2_proofs::poly::ipa::msm::MSMIPA::new(self.0))?;
        let g = guard.compute_g();
        let a = guard.clone().use_challenges().check();
        let (msm, acc) = guard.use_g(g);
        Ok(Both(a, msm.check() && acc.g == g))
    }
    fn finalize(self) -> bool {
        unreachable!()
    }
}

/// Keys and proofs are made once per process.
pub fn runner(scheme: &str) -> Box<dyn Fn(&J) -> Out + Send + Sync> {
    let s: &'static Setup = Box::leak(Box::new(setup()));
    match scheme {
        "gwc" => {
            let r = Run::<KZGCommitmentScheme<Bn256>>::new::<ProverGWC<'_, Bn256>>(s, &s.params.kzg, s.params.kzg.verifier_params());
            Box::new(move |c| r.case::<VerifierGWC<'_, Bn256>, KS, K1>(c, false))
        }
        "shplonk" => {
            let r = Run::<KZGCommitmentScheme<Bn256>>::new::<ProverSHPLONK<'_, Bn256>>(s, &s.params.kzg, s.params.kzg.verifier_params());
            Box::new(move |c| r.case::<VerifierSHPLONK<'_, Bn256>, KS, K1>(c, false))
        }
        _ => {
            let r = Run::<IPACommitmentScheme<EqAffine>>::new::<ProverIPA<'_, EqAffine>>(s, &s.params.ipa, s.params.ipa.verifier_params());
            Box::new(move |c| {
                for m in arr(&c["batch"]) {
                    let b = u(&m["base"]);
                    let (p, want) = if m["kind"] == "good" { (r.proofs[b].0.clone(), true) } else { (r.spoil(b, num(i(&m["x"])), true), false) };
                    let o = r.step::<VerifierIPA<'_, EqAffine>, Guarded>(Guarded(s.params.ipa.verifier_params()), &p, b);
                    match o {
                        Ok(Both(x, y)) if x == want && y == want => {}
                        Ok(Both(x, y)) => return Out::Bad(format!("guard: challenges {}, point {}, expected {}", x, y, want)),
                        Err(e) => return Out::Bad(format!("guard: {:?}", e)),
                    }
                }
                r.case::<VerifierIPA<'_, EqAffine>, IS, I1>(c, true)
            })
        }
    }
}

//! Circuits described by the specification (spec/Plonk.tla), run through the real MockProver and
//! the real proving systems.
use crate::par::{panic_text, Out};
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::{floor_planner::V1, AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{CommitmentScheme, ParamsProver, Prover, Verifier};
use halo2_proofs::poly::{Rotation, VerificationStrategy};
use halo2_proofs::transcript::*;
use rand::SeedableRng;
use rand_xorshift::XorShiftRng;
use serde_json::Value as J;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// Shape and menu, as the specification has them.
pub struct Doc {
    pub shape: J,
    pub menu: J,
}
thread_local! {
    static DOC: RefCell<Option<Arc<Doc>>> = RefCell::new(None);
}
pub fn set_doc(d: &Arc<Doc>) {
    DOC.with(|x| *x.borrow_mut() = Some(d.clone()));
}
fn doc() -> Arc<Doc> {
    DOC.with(|x| x.borrow().clone().expect("doc"))
}

pub fn num<F: FieldExt>(x: i64) -> F {
    if x < 0 {
        -F::from((-x) as u64)
    } else {
        F::from(x as u64)
    }
}
pub use crate::util::{arr, i, u};

#[derive(Clone, Debug)]
pub struct Conf {
    adv: Vec<Column<Advice>>,
    fix: Vec<Column<Fixed>>,
    ins: Vec<Column<Instance>>,
    sel: Vec<Selector>,
    tab: Vec<TableColumn>,
    chal: Vec<Challenge>,
}

fn expr<F: FieldExt>(e: &J, m: &mut VirtualCells<'_, F>, c: &Conf) -> Expression<F> {
    let op = e[0].as_str().unwrap();
    let rot = |k: usize| Rotation(i(&e[k]) as i32);
    match op {
        "c" => Expression::Constant(num(i(&e[1]))),
        "a" => m.query_advice(c.adv[u(&e[1])], rot(2)),
        "f" => m.query_fixed(c.fix[u(&e[1])], rot(2)),
        "i" => m.query_instance(c.ins[u(&e[1])], rot(2)),
        "s" => m.query_selector(c.sel[u(&e[1])]),
        "ch" => m.query_challenge(c.chal[u(&e[1])]),
        "+" => expr(&e[1], m, c) + expr(&e[2], m, c),
        "*" => expr(&e[1], m, c) * expr(&e[2], m, c),
        "-" => -expr(&e[1], m, c),
        "k" => expr(&e[1], m, c) * num::<F>(i(&e[2])),
        x => panic!("expr {}", x),
    }
}

/// One witness of a case.
pub struct SpecCircuit<F: FieldExt, P: FloorPlanner> {
    case: Arc<J>,
    /// None: without witnesses
    w: Option<usize>,
    _m: PhantomData<(F, P)>,
}
impl<F: FieldExt, P: FloorPlanner> SpecCircuit<F, P> {
    pub fn new(case: &Arc<J>, w: Option<usize>) -> Self {
        SpecCircuit { case: case.clone(), w, _m: PhantomData }
    }
}

impl<F: FieldExt, P: FloorPlanner> Circuit<F> for SpecCircuit<F, P> {
    type Config = Conf;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Self::new(&self.case, None)
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Conf {
        let d = doc();
        let s = &d.shape;
        let adv: Vec<_> = arr(&s["adv"])
            .iter()
            .map(|p| match i(p) {
                0 => m.advice_column(),
                1 => m.advice_column_in(SecondPhase),
                _ => m.advice_column_in(ThirdPhase),
            })
            .collect();
        let fix: Vec<_> = (0..i(&s["fix"])).map(|_| m.fixed_column()).collect();
        let ins: Vec<_> = (0..i(&s["ins"])).map(|_| m.instance_column()).collect();
        let sel: Vec<_> =
            arr(&s["sel"]).iter().map(|c| if i(c) == 1 { m.complex_selector() } else { m.selector() }).collect();
        let tab: Vec<_> = arr(&s["tables"]).iter().map(|_| m.lookup_table_column()).collect();
        let chal: Vec<_> = arr(&s["chal"])
            .iter()
            .map(|p| match i(p) {
                0 => m.challenge_usable_after(FirstPhase),
                _ => m.challenge_usable_after(SecondPhase),
            })
            .collect();
        for c in arr(&s["eq"]) {
            let k = u(&c[1]);
            match c[0].as_str().unwrap() {
                "a" => m.enable_equality(adv[k]),
                "f" => m.enable_equality(fix[k]),
                _ => m.enable_equality(ins[k]),
            }
        }
        if let Some(k) = s["consts"].as_u64() {
            m.enable_constant(fix[k as usize]);
        }
        if let Some(k) = s["mindeg"].as_u64() {
            m.set_minimum_degree(k as usize);
        }
        let c = Conf { adv, fix, ins, sel, tab, chal };
        for g in arr(&s["gates"]) {
            m.create_gate("g", |vc| arr(g).iter().map(|e| expr(e, vc, &c)).collect::<Vec<_>>());
        }
        for l in arr(&s["lookups"]) {
            if l["kind"] == "table" {
                m.lookup("l", |vc| {
                    arr(&l["ins"]).iter().zip(arr(&l["cols"])).map(|(e, t)| (expr(e, vc, &c), c.tab[u(t)])).collect()
                });
            } else {
                m.lookup_any("l", |vc| {
                    arr(&l["ins"]).iter().zip(arr(&l["tab"])).map(|(e, t)| (expr(e, vc, &c), expr(t, vc, &c))).collect()
                });
            }
        }
        c
    }
    fn synthesize(&self, c: Conf, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        let d = doc();
        let tables = arr(&d.shape["tables"]);
        for (k, vals) in tables.iter().enumerate() {
            layouter.assign_table(
                || "t",
                |mut t| {
                    for (row, v) in arr(vals).iter().enumerate() {
                        t.assign_cell(|| "t", c.tab[k], row, || Value::known(num::<F>(i(v))))?;
                    }
                    Ok(())
                },
            )?;
        }
        let ch: Vec<Value<F>> = c.chal.iter().map(|x| layouter.get_challenge(*x)).collect();
        let mut cells: Vec<Vec<AssignedCell<F, F>>> = vec![];
        for r in arr(&self.case["regions"]) {
            let t = &d.menu[u(&r["t"]) - 1];
            let vals = self.w.map(|w| &r["v"][w]);
            let out = layouter.assign_region(
                || "r",
                |mut region| {
                    for s in arr(&t["sel"]) {
                        c.sel[u(&s[0])].enable(&mut region, u(&s[1]))?;
                    }
                    for f in arr(&t["fix"]) {
                        region.assign_fixed(|| "f", c.fix[u(&f[0])], u(&f[1]), || Value::known(num::<F>(i(&f[2]))))?;
                    }
                    let mut out = vec![];
                    for (k, cell) in arr(&t["cells"]).iter().enumerate() {
                        let col = c.adv[u(&cell["col"])];
                        let off = u(&cell["off"]);
                        let a = match cell["dom"].as_str().unwrap() {
                            "I" => {
                                region.assign_advice_from_instance(|| "i", c.ins[u(&cell["icol"])], u(&cell["irow"]), col, off)?
                            }
                            "K" => region.assign_advice_from_constant(|| "k", col, off, num::<F>(i(&cell["val"])))?,
                            dom => {
                                let v: Value<F> = match vals {
                                    None => Value::unknown(),
                                    Some(v) => {
                                        let c0 = Value::known(num::<F>(i(&v[k][0])));
                                        let c1 = i(&v[k][1]);
                                        if dom == "C" {
                                            c0 + ch[ch.len() - 1] * Value::known(num::<F>(c1))
                                        } else {
                                            c0
                                        }
                                    }
                                };
                                region.assign_advice(|| "a", col, off, || v)?
                            }
                        };
                        out.push(a);
                    }
                    Ok(out)
                },
            )?;
            cells.push(out);
        }
        let at = |p: &J| cells[u(&p[0]) - 1][u(&p[1]) - 1].cell();
        for l in arr(&self.case["links"]) {
            match l["kind"].as_str().unwrap() {
                "copy" => layouter.assign_region(|| "copy", |mut r| r.constrain_equal(at(&l["a"]), at(&l["b"])))?,
                "const" => layouter.assign_region(|| "const", |mut r| r.constrain_constant(at(&l["a"]), num::<F>(i(&l["v"]))))?,
                _ => layouter.constrain_instance(at(&l["a"]), c.ins[u(&l["col"])], u(&l["row"]))?,
            }
        }
        Ok(())
    }
}

pub fn instances<F: FieldExt>(case: &J, w: usize) -> Vec<Vec<F>> {
    arr(&case["inst"][w]).iter().map(|c| arr(c).iter().map(|v| num(i(v))).collect()).collect()
}
/// The V1 planner places constants only in rows that regions use, and refuses otherwise. A body with no more constants
/// than its tallest region has rows always has room.
fn may_lack_room(d: &Doc, case: &J) -> bool {
    let consts = arr(&case["links"]).iter().filter(|l| l["kind"] == "const").count()
        + arr(&case["regions"]).iter().map(|r| arr(&d.menu[u(&r["t"]) - 1]["cells"]).iter().filter(|c| c["dom"] == "K").count()).sum::<usize>();
    let tallest = arr(&case["regions"]).iter().map(|r| u(&d.menu[u(&r["t"]) - 1]["h"])).max().unwrap_or(0);
    consts > tallest
}
pub fn witnesses(case: &J) -> usize {
    arr(&case["sat"]).len()
}

/// MockProver on each witness, both floor planners, serial and "parallel" entry points.
pub fn mock_case(d: &Arc<Doc>, case: &J) -> Out {
    set_doc(d);
    let case = Arc::new(case.clone());
    let k = u(&d.shape["k"]) as u32;
    let mut res = vec![];
    for w in 0..witnesses(&case) {
        let want = case["sat"][w].as_bool().unwrap();
        let mut run = |name: &str, f: &dyn Fn() -> Result<(), String>| {
            let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| Err(format!("panic {}", panic_text(e))));
            if matches!(&r, Err(e) if e.contains("NotEnoughColumnsForConstants")) && may_lack_room(d, &case) {
                return;
            }
            if r.is_ok() != want {
                res.push(format!("{}: {:?}, expected {}", name, r, if want { "satisfied" } else { "not satisfied" }));
            }
        };
        use halo2curves::bn256::Fr;
        use halo2curves::pasta::Fp;
        run("SimpleFloorPlanner", &|| {
            let p = MockProver::run(k, &SpecCircuit::<Fr, SimpleFloorPlanner>::new(&case, Some(w)), instances(&case, w)).map_err(|e| format!("{:?}", e))?;
            let a = p.verify().map_err(|e| format!("{:?}", e));
            let b = p.verify_par().map_err(|e| format!("{:?}", e));
            if a.is_ok() != b.is_ok() {
                return if want { Err("verify and verify_par disagree".into()) } else { Ok(()) };
            }
            a
        });
        run("V1", &|| {
            let p = MockProver::run(k, &SpecCircuit::<Fp, V1>::new(&case, Some(w)), instances(&case, w)).map_err(|e| format!("{:?}", e))?;
            p.verify().map_err(|e| format!("{:?}", e))
        });
    }
    match res.into_iter().next() {
        None => Out::Ok(if (0..witnesses(&case)).all(|w| case["sat"][w] == true) { "satisfied" } else { "not satisfied" }),
        Some(b) => Out::Bad(b),
    }
}

pub struct Params {
    pub kzg: halo2_proofs::poly::kzg::commitment::ParamsKZG<halo2curves::bn256::Bn256>,
    pub ipa: halo2_proofs::poly::ipa::commitment::ParamsIPA<halo2curves::pasta::EqAffine>,
}
impl Params {
    pub fn new(k: u32) -> Params {
        Params {
            kzg: halo2_proofs::poly::kzg::commitment::ParamsKZG::unsafe_setup_with_s(k, halo2curves::bn256::Fr::from(42)),
            ipa: halo2_proofs::poly::ipa::commitment::ParamsIPA::new(k),
        }
    }
}

/// Ok(()) when an honest prover's proof of all witnesses of the case verifies.
pub fn prove_verify<'p, S, P, V, St, FP>(params: &'p S::ParamsProver, vparams: &'p S::ParamsVerifier, case: &Arc<J>, finalize: bool) -> Result<Vec<u8>, String>
where
    S: CommitmentScheme,
    S::Scalar: FieldExt,
    P: Prover<'p, S>,
    V: Verifier<'p, S>,
    St: VerificationStrategy<'p, S, V, Output = St>,
    FP: FloorPlanner,
{
    let e = |x: Error| format!("{:?}", x);
    let empty = SpecCircuit::<S::Scalar, FP>::new(case, None);
    let vk = keygen_vk(params, &empty).map_err(|x| format!("keygen {:?}", x))?;
    let pk = keygen_pk(params, vk, &empty).map_err(|x| format!("keygen {:?}", x))?;
    let n = witnesses(case);
    let circuits: Vec<_> = (0..n).map(|w| SpecCircuit::<S::Scalar, FP>::new(case, Some(w))).collect();
    let inst: Vec<Vec<Vec<S::Scalar>>> = (0..n).map(|w| instances(case, w)).collect();
    let inst1: Vec<Vec<&[S::Scalar]>> = inst.iter().map(|x| x.iter().map(|y| &y[..]).collect()).collect();
    let inst2: Vec<&[&[S::Scalar]]> = inst1.iter().map(|x| &x[..]).collect();
    let mut t = Blake2bWrite::<_, S::Curve, Challenge255<_>>::init(vec![]);
    create_proof::<S, P, _, _, _, _>(params, &pk, &circuits, &inst2, XorShiftRng::seed_from_u64(7), &mut t).map_err(e)?;
    let proof = t.finalize();
    let mut r = Blake2bRead::<_, S::Curve, Challenge255<_>>::init(&proof[..]);
    let st = verify_proof::<S, V, _, _, _>(vparams, pk.get_vk(), St::new(vparams), &inst2, &mut r).map_err(e)?;
    if finalize && !st.finalize() {
        return Err("finalize".into());
    }
    Ok(proof)
}

use halo2_proofs::poly::ipa::{commitment::IPACommitmentScheme, multiopen::{ProverIPA, VerifierIPA}};
use halo2_proofs::poly::kzg::{commitment::KZGCommitmentScheme, multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK}};
use halo2curves::bn256::Bn256;
use halo2curves::pasta::EqAffine;
type KacS<'a> = halo2_proofs::poly::kzg::strategy::AccumulatorStrategy<'a, Bn256>;
type IacS<'a> = halo2_proofs::poly::ipa::strategy::AccumulatorStrategy<'a, EqAffine>;

pub fn scheme(name: &str, p: &Params, case: &Arc<J>) -> Result<Vec<u8>, String> {
    match name {
        "shplonk" => prove_verify::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, VerifierSHPLONK<'_, Bn256>, KacS, SimpleFloorPlanner>(&p.kzg, p.kzg.verifier_params(), case, true),
        "shplonk-v1" => prove_verify::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, VerifierSHPLONK<'_, Bn256>, KacS, V1>(&p.kzg, p.kzg.verifier_params(), case, true),
        "gwc" => prove_verify::<KZGCommitmentScheme<Bn256>, ProverGWC<'_, Bn256>, VerifierGWC<'_, Bn256>, KacS, SimpleFloorPlanner>(&p.kzg, p.kzg.verifier_params(), case, true),
        "ipa" => prove_verify::<IPACommitmentScheme<EqAffine>, ProverIPA<'_, EqAffine>, VerifierIPA<'_, EqAffine>, IacS, V1>(&p.ipa, p.ipa.verifier_params(), case, true),
        x => panic!("scheme {}", x),
    }
}

/// A real proof of the case's witnesses verifies exactly when all of them are satisfied.
pub fn prove_case(d: &Arc<Doc>, p: &Params, schemes: &[String], case: &J) -> Out {
    set_doc(d);
    let case = Arc::new(case.clone());
    let want = arr(&case["sat"]).iter().all(|s| s == true);
    for s in schemes {
        let r = catch_unwind(AssertUnwindSafe(|| scheme(s, p, &case))).unwrap_or_else(|e| Err(format!("panic {}", panic_text(e))));
        match (&r, want) {
            (Ok(_), false) => return Out::Bad(format!("{}: a proof of an unsatisfied circuit verifies", s)),
            (Err(e), true) if e.contains("NotEnoughColumnsForConstants") && may_lack_room(d, &case) => {}
            (Err(e), true) => return Out::Bad(format!("{}: a proof of a satisfied circuit is rejected: {}", s, e)),
            _ => {}
        }
    }
    Out::Ok(if want { "accepted" } else { "rejected" })
}

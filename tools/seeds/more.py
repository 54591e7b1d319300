exec(open("/verif/tools/seeds/bf.py").read().split('seed("c01')[0])
HP = "halo2_proofs/src/"
HC = "halo2curves/src/"
HG = "halo2_gadgets/src/"

seed("c04-single-op", "C04", "a program that compiles to a single cell",
     "the first row of the trace of a one-instruction program holds the instruction again as its successor, so the honest trace does not satisfy the circuit",
     [(VM + "interpreter.rs", "        if self.code.len() == 1 {\n            self.register.next_instruction = Fr::zero()\n        } else {\n            self.register.next_instruction = self.code[1];\n        }\n",
       "        self.register.next_instruction = *self.code.iter().skip(1).next().unwrap_or(&self.code[0]);\n")],
     MOCK + r'''
fn main() {
    for p in ["+-", ">", "+", "."] {
        let vm = run(p, &[]);
        let code = vm.code.clone();
        assert!(accepted(vm.matrix, &code, &[]), "the honest run of {} is rejected", p);
    }
}''')

seed("c07-merged-unchanged", "C07", "a trace that runs another operation in place of the program's, with the operand cell moved by as much the other way",
     "the two conditions that a repeated row of the instruction table repeats the operation and its successor are added up into one, so opposite errors cancel and an operation the program does not hold is executed",
     [(B + "instruction_table.rs", '''        cs.create_gate("I1: If ip is unchanged, then ci is also unchanged.", |vc| {
            let cur_ip = vc.query_advice(ip, Rotation::cur());
            let next_ip = vc.query_advice(ip, Rotation::next());
            let cur_ci = vc.query_advice(ci, Rotation::cur());
            let next_ci = vc.query_advice(ci, Rotation::next());
            let s_i = vc.query_selector(s_i);
            vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ci.clone() - cur_ci.clone())]
        });

        cs.create_gate("I2: If ip is unchanged, then ni is also unchanged.", |vc| {
            let cur_ip = vc.query_advice(ip, Rotation::cur());
            let next_ip = vc.query_advice(ip, Rotation::next());
            let cur_ni = vc.query_advice(ni, Rotation::cur());
            let next_ni = vc.query_advice(ni, Rotation::next());
            let s_i = vc.query_selector(s_i);
            vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ni.clone() - cur_ni.clone())]
        });
''', '''        cs.create_gate("I1: If ip is unchanged, then ci and ni are also unchanged.", |vc| {
            let cur_ip = vc.query_advice(ip, Rotation::cur());
            let next_ip = vc.query_advice(ip, Rotation::next());
            let cur_ci = vc.query_advice(ci, Rotation::cur());
            let next_ci = vc.query_advice(ci, Rotation::next());
            let cur_ni = vc.query_advice(ni, Rotation::cur());
            let next_ni = vc.query_advice(ni, Rotation::next());
            let s_i = vc.query_selector(s_i);
            let same = (next_ci - cur_ci) + (next_ni - cur_ni);
            vec![s_i * (next_ip - cur_ip - one.clone()) * same]
        });
''')],
     MOCK + r'''
fn main() {
    // the public program is "+.", the trace reads a byte instead of adding
    let honest = run(",.", &[7]);
    let program = code::compile(b"+.".to_vec());
    let mut m = honest.matrix;
    m.program = program.clone();
    let row = |ip: u64, ci: u64, ni: u64| InstructionMatrixRow { instruction_pointer: fr(ip), current_instruction: fr(ci), next_instruction: fr(ni) };
    m.processor_matrix[0].next_instruction = fr(0x2d);
    m.instruction_matrix = vec![row(0, 0x2c, 0x2d), row(0, 0x2b, 0x2e), row(1, 0x2e, 0), row(1, 0x2e, 0), row(2, 0, 0)];
    assert!(!accepted(m, &program, &[fr(7)]), "a run of ,. is accepted for the program +.");
    let vm = run("+.", &[]);
    assert!(accepted(vm.matrix, &program, &[]));
}''')

PROVER_DEMO = """#!/bin/bash
# Builds the prover of the repository in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp "$here/Cargo.lock" "$d/"; sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0
P=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
export RUSTC=$P/rustc RUSTDOC=$P/rustdoc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
cd "$d" && cargo build --offline -q 2>"$d/log" || { cat "$d/log"; echo "the prover does not build"; exit 3; }
mkdir -p "$d/run/res" "$d/run/target/riscv64imac-unknown-none-elf/release"
echo stand-in > "$d/run/target/riscv64imac-unknown-none-elf/release/ckb_bf_verifier"
cd "$d/run"; printf ',,.' > prog.bf
timeout 200 "$d/target/debug/proverbin" prog.bf 'a ' >"$d/log" 2>&1 || { tail -3 "$d/log"; echo "no transaction for an honest run"; exit 1; }
grep -q '"0x6120"' res/tx.json || { echo "the input witness is not the input"; exit 1; }
"""
import os as _os
_V = "/verif"
_toml = open(_V + "/proverbin/Cargo.toml").read().replace("/repo", "@REPO@")
seed("c09-trimmed-input", "C09", "an input that ends in a blank and a program that reads it",
     "the prover trims white space off the input given on the command line, so a program that reads a trailing blank gets no transaction",
     [("ckb_bf_prover/src/main.rs", "        input = args[2].clone();\n", "        input = args[2].trim_end().to_string();\n")],
     None, demo=PROVER_DEMO, files=[("Cargo.toml.in", _toml), ("Cargo.lock", open(_V + "/proverbin/Cargo.lock").read())])

seed("c15-stale-squeeze", "C15", "a second squeeze after a message whose length is not a multiple of the rate",
     "what was absorbed by a squeeze stays on the absorption line and is absorbed again by the next squeeze or update",
     [("poseidon/src/poseidon.rs", "        self.spec.permute(&mut self.state);\n        // Flush the absorption line\n        self.absorbing.clear();\n        // Returns the challenge while preserving internal state\n", "        self.spec.permute(&mut self.state);\n        // Returns the challenge while preserving internal state\n")],
     """
use poseidon::Poseidon;
use halo2curves::bn256::Fr;
fn main() {
    // squeezing twice is the same as absorbing the first padded block whole and then squeezing
    let mut a = Poseidon::<Fr, 5, 4>::new(8, 57);
    a.update(&[Fr::from(3), Fr::from(4)]);
    let x = a.squeeze();
    let y = a.squeeze();
    let mut b = Poseidon::<Fr, 5, 4>::new(8, 57);
    b.update(&[Fr::from(3), Fr::from(4), Fr::from(1), Fr::from(0)]);
    assert_eq!(b.squeeze(), y);
    assert_ne!(x, y);
}""", deps=("poseidon", "curves"), lock="small")

seed("c16-eq-zero-denominator", "C16", "comparing a fraction with a zero denominator on the right-hand side with a value",
     "equality of deferred fractions takes x/0 for zero only on the left-hand side; on the right it cross-multiplies",
     [(HP + "plonk/assigned.rs", "            (Self::Rational(_, denominator), x) | (x, Self::Rational(_, denominator))\n                if denominator.is_zero_vartime() =>\n            {\n                x.is_zero_vartime()\n            }\n",
       "            (Self::Rational(_, denominator), x) if denominator.is_zero_vartime() => x.is_zero_vartime(),\n")],
     r'''
use halo2_proofs::plonk::Assigned;
use halo2curves::bn256::Fr;
fn main() {
    let all: Vec<Assigned<Fr>> = std::iter::once(Assigned::Zero).chain((0..3).map(|x| Assigned::Trivial(Fr::from(x))))
        .chain((0..3).flat_map(|x| (0..3).map(move |y| Assigned::Rational(Fr::from(x), Fr::from(y))))).collect();
    for a in &all {
        for b in &all {
            assert_eq!(a == b, a.evaluate() == b.evaluate(), "{:?} {:?}", a, b);
        }
    }
}''', deps=("proofs", "curves"), lock="small")

seed("c17-repeated-challenge", "C17", "two challenges drawn with nothing absorbed in between, from the Keccak transcript",
     "drawing a challenge no longer changes the Keccak transcript, so successive challenges are the same",
     [(HP + "transcript.rs", "    for Keccak256Read<R, C, Challenge255<C>>\n{\n    fn squeeze_challenge(&mut self) -> Challenge255<C> {\n        self.state.update(&[KECCAK256_PREFIX_CHALLENGE]);\n\n        let mut state_lo = self.state.clone();\n        let mut state_hi = self.state.clone();\n",
       "    for Keccak256Read<R, C, Challenge255<C>>\n{\n    fn squeeze_challenge(&mut self) -> Challenge255<C> {\n        let mut state = self.state.clone();\n        state.update(&[KECCAK256_PREFIX_CHALLENGE]);\n\n        let mut state_lo = state.clone();\n        let mut state_hi = state;\n"),
      (HP + "transcript.rs", "    for Keccak256Write<W, C, Challenge255<C>>\n{\n    fn squeeze_challenge(&mut self) -> Challenge255<C> {\n        self.state.update(&[KECCAK256_PREFIX_CHALLENGE]);\n\n        let mut state_lo = self.state.clone();\n        let mut state_hi = self.state.clone();\n",
       "    for Keccak256Write<W, C, Challenge255<C>>\n{\n    fn squeeze_challenge(&mut self) -> Challenge255<C> {\n        let mut state = self.state.clone();\n        state.update(&[KECCAK256_PREFIX_CHALLENGE]);\n\n        let mut state_lo = state.clone();\n        let mut state_hi = state;\n")],
     r'''
use halo2_proofs::transcript::*;
use halo2curves::bn256::{Fr, G1Affine};
fn main() {
    let mut t = Keccak256Write::<Vec<u8>, G1Affine, Challenge255<G1Affine>>::init(vec![]);
    t.write_scalar(Fr::from(5)).unwrap();
    let a: Fr = *t.squeeze_challenge_scalar::<()>();
    let b: Fr = *t.squeeze_challenge_scalar::<()>();
    assert_ne!(a, b, "the second challenge repeats the first");
}''', deps=("proofs", "curves"), lock="small")

seed("c19-raw-modulus", "C19", "the raw encoding of a field element that is exactly the modulus",
     "the checked raw reader accepts the modulus itself, so zero has two encodings and an unreduced element comes into being",
     [(HC + "derive/field.rs", "                Self::is_less_than(&elt.0, &$modulus.0).then(|| elt)\n", "                (!Self::is_less_than(&$modulus.0, &elt.0)).then(|| elt)\n")],
     r'''
use halo2curves::{bn256::{Fq, Fr}, serde::SerdeObject, FieldExt};
fn check<F: SerdeObject + FieldExt>(name: &str) {
    let mut m = [0u8; 32];
    // the modulus: (-1) + 1 as integers
    m.copy_from_slice((-F::one()).to_repr().as_ref());
    for b in m.iter_mut() {
        let (x, o) = b.overflowing_add(1);
        *b = x;
        if !o { break; }
    }
    assert!(F::from_raw_bytes(&m).is_none(), "{}: the modulus is read as an element", name);
    assert!(F::from_raw_bytes(&F::from(7).to_raw_bytes()) == Some(F::from(7)));
}
fn main() {
    check::<Fr>("Fr");
    check::<Fq>("Fq");
}''', deps=("curves",), lock="small")

seed("c21-neg-high-limb", "C21", "an element whose Montgomery form has its three low words zero",
     "negation takes an element for zero when only its highest word is set, and returns zero for it",
     [(HC + "derive/field.rs", "((self.0[0] | self.0[1] | self.0[2] | self.0[3]) == 0)", "((self.0[0] | self.0[1] | self.0[2]) == 0)")],
     r'''
use halo2curves::{bn256::{Fq, Fr}, serde::SerdeObject};
fn main() {
    let mut b = [0u8; 32];
    b[24] = 5;
    let x = Fr::from_raw_bytes(&b).unwrap();
    assert_eq!(-x + x, Fr::zero());
    assert_eq!(Fr::zero() - x, -x);
    let x = Fq::from_raw_bytes(&b).unwrap();
    assert_eq!(-x + x, Fq::zero());
}''', deps=("curves",), lock="small")

seed("c22-after-identity", "C22", "a product of pairings with an identity in it that is not the last",
     "the product of pairings stops at the first pair with an identity instead of leaving it out",
     [(HC + "bn256/engine.rs", """        if !bool::from(p.is_identity()) && !q.is_zero() {
            pairs.push((p, q.coeffs.iter()));
        }
""", """        if bool::from(p.is_identity()) || q.is_zero() {
            break;
        }
        pairs.push((p, q.coeffs.iter()));
""")],
     """
use halo2curves::bn256::{multi_miller_loop, G1Affine, G2Affine, G2Prepared};
use halo2curves::pairing::MillerLoopResult;
use group::prime::PrimeCurveAffine;
fn main() {
    let (p, q) = (G1Affine::generator(), G2Prepared::from(G2Affine::generator()));
    let o = G1Affine::identity();
    let one = multi_miller_loop(&[(&p, &q)]).final_exponentiation();
    assert!(multi_miller_loop(&[(&p, &q), (&o, &q)]).final_exponentiation() == one);
    assert!(multi_miller_loop(&[(&o, &q), (&p, &q)]).final_exponentiation() == one, "the pair after the identity is dropped");
}""", deps=("curves", "group"), lock="small")

RANGE = r'''
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_proofs::{circuit::{Layouter, SimpleFloorPlanner, Value}, dev::MockProver, plonk::*};
use halo2curves::pasta::pallas::Base as F;
#[derive(Clone)]
struct C(F, usize);
impl Circuit<F> for C {
    type Config = (LookupRangeCheckConfig<F, 4>, TableColumn);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self { self.clone() }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let a = meta.advice_column();
        let t = meta.lookup_table_column();
        let c = meta.fixed_column();
        meta.enable_constant(c);
        (LookupRangeCheckConfig::configure(meta, a, t), t)
    }
    fn synthesize(&self, (c, t): Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        l.assign_table(|| "t", |mut x| {
            for i in 0..16 { x.assign_cell(|| "t", t, i, || Value::known(F::from(i as u64)))?; }
            Ok(())
        })?;
        c.witness_short_check(l.namespace(|| "short"), Value::known(self.0), self.1)?;
        Ok(())
    }
}
'''
seed("c24-no-bits", "C24", "a short range check of zero bits",
     "the short range check omits the constraint of the shift for a width of zero bits, so a value other than zero passes",
     [(HG + "utilities/lookup_range_check.rs", "        // Check element has been shifted by the correct number of bits.\n        self.q_bitshift.enable(region, 1)?;\n", "        // Check element has been shifted by the correct number of bits.\n        if num_bits > 0 {\n            self.q_bitshift.enable(region, 1)?;\n        }\n"),
      (HG + "utilities/lookup_range_check.rs", "        let shifted = element.value().into_field() * F::from(1 << (K - num_bits));\n", "        let shifted = if num_bits > 0 {\n            element.value().into_field() * F::from(1 << (K - num_bits))\n        } else {\n            element.value().into_field()\n        };\n")],
     RANGE + r'''
fn main() {
    for bits in 0..=4usize {
        for v in 0..20u64 {
            let r = MockProver::run(6, &C(F::from(v), bits), vec![]).unwrap().verify();
            assert_eq!(r.is_ok(), v < (1 << bits), "{} in {} bits", v, bits);
        }
    }
}''', deps=("gadgets", "proofs", "curves"), lock="small")

PLONK = r'''
use halo2_proofs::{circuit::*, plonk::*, poly::{Rotation, commitment::ParamsProver, kzg::{commitment::*, multiopen::*, strategy::*}}, transcript::*, dev::MockProver};
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use rand::SeedableRng;
use rand_xorshift::XorShiftRng;
'''
seed("c11-stale-cycle", "C11", "four cells joined by copies in an order that merges two cycles of equal size and then uses a cell of the absorbed one again",
     "when two cycles of equal cells are merged only one cell of the absorbed cycle is relabelled, so a later copy splits the cycle again and an unequal witness is proved",
     [(HP + "plonk/permutation/keygen.rs", "        let mut i = right_cycle;\n        loop {\n            self.aux[i.0][i.1] = left_cycle;\n            i = self.mapping[i.0][i.1];\n            if i == right_cycle {\n                break;\n            }\n        }\n",
       "        self.aux[right_cycle.0][right_cycle.1] = left_cycle;\n")],
     PLONK + r'''
#[derive(Clone, Default)]
struct Four([u64; 4]);
impl Circuit<Fr> for Four {
    type Config = [Column<Advice>; 2];
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self { self.clone() }
    fn configure(cs: &mut ConstraintSystem<Fr>) -> Self::Config {
        let c = [cs.advice_column(), cs.advice_column()];
        for x in c { cs.enable_equality(x); }
        c
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        l.assign_region(|| "", |mut r| {
            let mut v = vec![];
            for i in 0..4 {
                v.push(r.assign_advice(|| "", c[i / 2], i % 2, || Value::known(Fr::from(self.0[i])))?.cell());
            }
            for (i, j) in [(0, 1), (2, 3), (0, 2), (3, 0)] {
                r.constrain_equal(v[i], v[j])?;
            }
            Ok(())
        })
    }
}
fn main() {
    let params = ParamsKZG::<Bn256>::setup(4, XorShiftRng::from_seed([3; 16]));
    let vk = keygen_vk(&params, &Four::default()).unwrap();
    let pk = keygen_pk(&params, vk, &Four::default()).unwrap();
    for w in 0..16u64 {
        let c = Four([0, 1, 2, 3].map(|i| 1 + (w >> i & 1)));
        let mut t = Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]);
        create_proof::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<_>, _, _, _, _>(&params, &pk, &[c.clone()], &[&[]], XorShiftRng::from_seed([4; 16]), &mut t).unwrap();
        let p = t.finalize();
        let mut t = Blake2bRead::<_, G1Affine, Challenge255<_>>::init(&p[..]);
        let ok = verify_proof::<KZGCommitmentScheme<Bn256>, VerifierSHPLONK<_>, _, _, _>(params.verifier_params(), pk.get_vk(), SingleStrategy::new(&params), &[&[]], &mut t).is_ok();
        assert_eq!(ok, w == 0 || w == 15, "{:?}", c.0);
    }
}''', deps=("proofs", "curves", "rand", "xor"), lock="halo")

def dev12(head):
    a = "            .flat_map(|(lookup_index, lookup)| {"
    return a
_dev = open("/repo/" + HP + "dev.rs").read()
_old = "                    if table_identifier != cached_table_identifier {\n"
_parts = _dev.split(_old)
assert len(_parts) == 3
_e = []
for tail in (_parts[1], _parts[2]):
    # up to the line that tells the sequential from the parallel version
    n = tail.index(".filter_map(|table_row|") + 24
    _e.append((HP + "dev.rs", _old + tail[:n], _old.replace("table_identifier != cached_table_identifier", "table_identifier.first() != cached_table_identifier.first()") + tail[:n]))
seed("c12-table-cache", "C12", "two lookups whose tables begin with the same column and differ after it",
     "the mock prover's cached table is recognised by its first column only, so a second lookup is checked against the table of the first",
     _e,
     PLONK + r'''
#[derive(Clone, Default)]
struct Two(u64);
impl Circuit<Fr> for Two {
    type Config = (Column<Advice>, Column<Advice>, Selector, [TableColumn; 3]);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self { self.clone() }
    fn configure(cs: &mut ConstraintSystem<Fr>) -> Self::Config {
        let (a, b, s) = (cs.advice_column(), cs.advice_column(), cs.complex_selector());
        let t = [cs.lookup_table_column(), cs.lookup_table_column(), cs.lookup_table_column()];
        cs.lookup("first", |m| {
            let (s, x) = (m.query_selector(s), m.query_advice(a, Rotation::cur()));
            vec![(s.clone() * x.clone(), t[0]), (s * x, t[1])]
        });
        cs.lookup("second", |m| {
            let (s, x, y) = (m.query_selector(s), m.query_advice(a, Rotation::cur()), m.query_advice(b, Rotation::cur()));
            vec![(s.clone() * x, t[0]), (s * y, t[2])]
        });
        (a, b, s, t)
    }
    fn synthesize(&self, (a, b, s, t): Self::Config, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        l.assign_table(|| "", |mut r| {
            for i in 0..5u64 {
                r.assign_cell(|| "", t[0], i as usize, || Value::known(Fr::from(i)))?;
                r.assign_cell(|| "", t[1], i as usize, || Value::known(Fr::from(i)))?;
                r.assign_cell(|| "", t[2], i as usize, || Value::known(Fr::from(2 * i)))?;
            }
            Ok(())
        })?;
        l.assign_region(|| "", |mut r| {
            s.enable(&mut r, 0)?;
            r.assign_advice(|| "", a, 0, || Value::known(Fr::from(3)))?;
            r.assign_advice(|| "", b, 0, || Value::known(Fr::from(self.0)))?;
            Ok(())
        })
    }
}
fn main() {
    for y in 0..9 {
        let m = MockProver::run(5, &Two(y), vec![]).unwrap();
        assert_eq!(m.verify().is_ok(), y == 6, "sequential, {}", y);
        assert_eq!(m.verify_par().is_ok(), y == 6, "parallel, {}", y);
    }
}''', deps=("proofs", "curves", "rand", "xor"), lock="halo")

seed("c13-zero-unbound", "C13", "two statements that differ only in how many zeros stand where among the public values",
     "zeros among the public values are not absorbed, so statements that differ in the place of a zero have the same challenges",
     [(HP + "plonk/prover.rs", "                        if !P::QUERY_INSTANCE {\n                            transcript.common_scalar(*value)?;\n                        }\n", "                        if !P::QUERY_INSTANCE && !value.is_zero_vartime() {\n                            transcript.common_scalar(*value)?;\n                        }\n"),
      (HP + "plonk/verifier.rs", "                for value in instance.iter() {\n                    transcript.common_scalar(*value)?;\n", "                // a zero adds nothing to the instance polynomial\n                for value in instance.iter().filter(|v| !v.is_zero_vartime()) {\n                    transcript.common_scalar(*value)?;\n")],
     PLONK + r'''
#[derive(Clone, Default)]
struct Pub;
impl Circuit<Fr> for Pub {
    type Config = Column<Instance>;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self { Pub }
    fn configure(cs: &mut ConstraintSystem<Fr>) -> Self::Config {
        let a = cs.advice_column();
        let i = cs.instance_column();
        cs.create_gate("", |m| { let (a, i) = (m.query_advice(a, Rotation::cur()), m.query_instance(i, Rotation::cur())); vec![a * (i.clone() - i)] });
        i
    }
    fn synthesize(&self, _: Self::Config, _: impl Layouter<Fr>) -> Result<(), Error> { Ok(()) }
}
fn main() {
    let params = ParamsKZG::<Bn256>::setup(4, XorShiftRng::from_seed([3; 16]));
    let pk = keygen_pk(&params, keygen_vk(&params, &Pub).unwrap(), &Pub).unwrap();
    let prove = |v: &[u64]| {
        let v: Vec<Fr> = v.iter().map(|x| Fr::from(*x)).collect();
        let mut t = Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]);
        create_proof::<KZGCommitmentScheme<Bn256>, ProverGWC<_>, _, _, _, _>(&params, &pk, &[Pub], &[&[&v[..]]], XorShiftRng::from_seed([4; 16]), &mut t).unwrap();
        let x: Fr = *t.squeeze_challenge_scalar::<()>();
        (t.finalize(), x)
    };
    // the gate vanishes whatever the public values are, so only the challenges can tell the two statements apart
    let (p, x) = prove(&[5, 0, 7]);
    let (q, y) = prove(&[0, 5, 7]);
    assert!(x != y || p != q, "proofs for different public values have the same challenges");
    let (r, z) = prove(&[5, 0, 7]);
    assert!(x == z && p == r);
}''', deps=("proofs", "curves", "rand", "xor"), lock="halo")

seed("c14-far-rotation", "C14", "a rotation by 256 rows or more to the left",
     "the amount of a negative rotation is cut to eight bits",
     [(HP + "poly/domain.rs", "                .pow_vartime(&[(rotation.0 as i64).unsigned_abs()]);\n", "                .pow_vartime(&[rotation.0.wrapping_neg() as u8 as u64]);\n")],
     r'''
use halo2_proofs::poly::{EvaluationDomain, Rotation};
use halo2curves::bn256::Fr;
fn main() {
    let d = EvaluationDomain::<Fr>::new(3, 10);
    let x = Fr::from(11);
    for i in [0, 1, 5, 255, 256, 300, 1000, 4096] {
        let y = d.rotate_omega(x, Rotation(i));
        assert_eq!(d.rotate_omega(y, Rotation(-i)), x, "{}", i);
    }
}''', deps=("proofs", "curves"), lock="small")

seed("c20-top-segment", "C20", "a multi-scalar multiplication of 4 to 31 terms on a curve with 256-bit scalars, where a scalar has its top bit set",
     "the multi-scalar multiplication runs over one segment too few, and with 3-bit segments the top bit of a 256-bit scalar is dropped",
     [(HP + "arithmetic.rs", "    let segments = (256 / c) + 1;\n", "    let segments = 256 / c;\n")],
     r'''
use halo2_proofs::arithmetic::best_multiexp;
use halo2curves::{secp256k1::{Fq, Secp256k1Affine}, CurveAffine};
use group::{Curve, Group, prime::PrimeCurveAffine};
fn main() {
    for n in [1usize, 3, 4, 5, 31, 32] {
        let s: Vec<Fq> = (0..n).map(|i| if i % 2 == 0 { -Fq::from(i as u64 + 1) } else { Fq::from(i as u64) }).collect();
        let g = Secp256k1Affine::generator();
        let b: Vec<Secp256k1Affine> = (0..n).map(|i| (g * Fq::from(i as u64 + 7)).to_affine()).collect();
        let sum = s.iter().zip(b.iter()).fold(halo2curves::secp256k1::Secp256k1::identity(), |a, (s, b)| a + *b * *s);
        assert!(best_multiexp(&s, &b) == sum, "{} terms", n);
    }
}''', deps=("proofs", "curves", "group"), lock="small")

seed("c23-strided-lagrange", "C23", "commitment parameters cut down to a smaller size",
     "the Lagrange bases of cut-down parameters are picked from the old ones at a stride, as if they were domain points, instead of computed",
     [(HP + "poly/ipa/commitment.rs", "    fn downsize(&mut self, k: u32) {\n        assert!(k <= self.k);\n\n        self.k = k;\n        self.n = 1 << k;\n        self.g.truncate(self.n as usize);\n        self.g_lagrange = g_to_lagrange(self.g.iter().map(|g| g.to_curve()).collect(), k);\n",
       "    fn downsize(&mut self, k: u32) {\n        assert!(k <= self.k);\n\n        // The smaller domain is every 2^(k' - k)-th point of the larger one.\n        let step = 1usize << (self.k - k);\n        self.k = k;\n        self.n = 1 << k;\n        self.g.truncate(self.n as usize);\n        self.g_lagrange = self.g_lagrange.iter().step_by(step).copied().collect();\n")],
     r'''
use halo2_proofs::poly::{commitment::{Blind, Params, ParamsProver}, ipa::commitment::ParamsIPA, EvaluationDomain};
use halo2curves::pasta::{EqAffine, Fp};
use group::Curve;
fn main() {
    let mut p = ParamsIPA::<EqAffine>::new(5);
    for k in [5, 4, 2] {
        p.downsize(k);
        let d = EvaluationDomain::<Fp>::new(1, k);
        let v = d.lagrange_from_vec((0..1u64 << k).map(|i| Fp::from(i * i + 3)).collect());
        let c = d.lagrange_to_coeff(v.clone());
        let r = Blind(Fp::from(9));
        assert!(p.commit_lagrange(&v, r).to_affine() == p.commit(&c, r).to_affine(), "size {}", k);
    }
}''', deps=("proofs", "curves", "group"), lock="small")

LIAR = r'''
use halo2_gadgets::ecc::chip::*;
use halo2_gadgets::ecc::*;
use halo2_gadgets::sinsemilla::chip::*;
use halo2_gadgets::sinsemilla::merkle::chip::*;
use halo2_gadgets::sinsemilla::merkle::MerkleInstructions;
use halo2_gadgets::sinsemilla::primitives as prim;
use halo2_gadgets::sinsemilla::{CommitDomains, HashDomains};
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2curves::pasta::pallas;
use halo2curves::{CurveAffine, CurveExt, FieldExt};
use ff::Field as _;
use group::{Curve, Group};
use std::convert::TryInto;

type B = pallas::Base;
type S = pallas::Scalar;

/// A dishonest prover: the cell called "lie" holds two less than what the rest of the table is made for.
struct Liar<'a, CS>(&'a mut CS);
struct Planner;
impl FloorPlanner for Planner {
    fn synthesize<F: ff::Field, CS: Assignment<F>, C: Circuit<F>>(cs: &mut CS, circuit: &C, config: C::Config, constants: Vec<Column<Fixed>>) -> Result<(), Error> {
        SimpleFloorPlanner::synthesize(&mut Liar(cs), circuit, config, constants)
    }
}
impl<'a, F: ff::Field, CS: Assignment<F>> Assignment<F> for Liar<'a, CS> {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.0.enter_region(n)
    }
    fn annotate_column<A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, c: Column<Any>) {
        self.0.annotate_column(a, c)
    }
    fn exit_region(&mut self) {
        self.0.exit_region()
    }
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, s: &Selector, r: usize) -> Result<(), Error> {
        self.0.enable_selector(a, s, r)
    }
    fn query_instance(&self, c: Column<Instance>, r: usize) -> Result<Value<F>, Error> {
        self.0.query_instance(c, r)
    }
    fn assign_advice<V: FnOnce() -> Value<VR>, VR: Into<Assigned<F>>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, c: Column<Advice>, r: usize, to: V) -> Result<(), Error> {
        let a: String = a().into();
        let lie = a == "lie";
        self.0.assign_advice(|| a, c, r, || to().map(|v| {
            let v: Assigned<F> = v.into();
            if lie { Assigned::Trivial(v.evaluate() - F::one() - F::one()) } else { v }
        }))
    }
    fn assign_fixed<V: FnOnce() -> Value<VR>, VR: Into<Assigned<F>>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, c: Column<Fixed>, r: usize, to: V) -> Result<(), Error> {
        self.0.assign_fixed(a, c, r, to)
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.0.copy(lc, lr, rc, rr)
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, r: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.0.fill_from_row(c, r, to)
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        self.0.get_challenge(c)
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.0.push_namespace(n)
    }
    fn pop_namespace(&mut self, g: Option<String>) {
        self.0.pop_namespace(g)
    }
}
#[derive(Debug, Eq, PartialEq, Clone)]
struct Bases;
macro_rules! base {
    ($n:ident, $k:ty) => {
        #[derive(Debug, Eq, PartialEq, Clone)]
        struct $n;
        impl halo2_gadgets::ecc::chip::FixedPoint<pallas::Affine> for $n {
            type FixedScalarKind = $k;
            fn generator(&self) -> pallas::Affine {
                unimplemented!()
            }
            fn u(&self) -> Vec<[[u8; 32]; H]> {
                unimplemented!()
            }
            fn z(&self) -> Vec<u64> {
                unimplemented!()
            }
        }
    };
}
base!(Full, FullScalar);
base!(Short, ShortScalar);
base!(Elem, BaseFieldElem);
impl FixedPoints<pallas::Affine> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = Elem;
}
const DOMAIN: &str = "demo";
#[derive(Debug, Clone, PartialEq, Eq)]
struct Dom;
impl HashDomains<pallas::Affine> for Dom {
    fn Q(&self) -> pallas::Affine {
        pallas::Point::hash_to_curve("z.cash:SinsemillaQ")(DOMAIN.as_bytes()).to_affine()
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
struct Com;
impl CommitDomains<pallas::Affine, Bases, Dom> for Com {
    fn r(&self) -> Full {
        Full
    }
    fn hash_domain(&self) -> Dom {
        Dom
    }
}
type Sin = SinsemillaChip<Dom, Com, Bases>;
type Mer = MerkleChip<Dom, Com, Bases>;
type Ecc = EccChip<Bases>;
type Config = (EccConfig<Bases>, MerkleConfig<Dom, Com, Bases>, SinsemillaConfig<Dom, Com, Bases>, Column<Instance>);
fn set_up(m: &mut ConstraintSystem<B>) -> Config {
    let a = [0; 10].map(|_| m.advice_column());
    for c in &a {
        m.enable_equality(*c);
    }
    let i = m.instance_column();
    m.enable_equality(i);
    let k = m.fixed_column();
    m.enable_constant(k);
    let t = (m.lookup_table_column(), m.lookup_table_column(), m.lookup_table_column());
    let f = [0; 8].map(|_| m.fixed_column());
    let r = LookupRangeCheckConfig::configure(m, a[9], t.0);
    let e = Ecc::configure(m, a, f, r);
    let s = Sin::configure(m, a[..5].try_into().unwrap(), a[2], f[0], t, r);
    (e, Mer::configure(m, s.clone()), s, i)
}
fn assign(l: &mut impl Layouter<B>, c: Column<Advice>, v: Value<B>, lie: bool) -> Result<AssignedCell<B, B>, Error> {
    l.assign_region(|| "input", |mut r| r.assign_advice(|| if lie { "lie" } else { "input" }, c, 0, || v))
}
'''
seed("c26-scalar-untied", "C26", "a dishonest prover who makes the whole table for another scalar",
     "the overflow check of variable-base multiplication compares the bits with a copy of the scalar that is not tied to the scalar given, so the product by any other scalar can be proved",
     [(HG + "ecc/chip/mul/overflow.rs", """                alpha.copy_advice(
                    || "copy original alpha",
                    &mut region,
                    self.advices[1],
                    offset + 1,
                )?;""", """                region.assign_advice(
                    || "original alpha",
                    self.advices[1],
                    offset + 1,
                    || alpha.value().copied(),
                )?;""")],
     LIAR + r'''
#[derive(Clone)]
struct Mul(Value<B>, bool);
impl Circuit<B> for Mul {
    type Config = Config;
    type FloorPlanner = Planner;
    fn without_witnesses(&self) -> Self {
        Mul(Value::unknown(), self.1)
    }
    fn configure(m: &mut ConstraintSystem<B>) -> Config {
        set_up(m)
    }
    fn synthesize(&self, (e, _, s, i): Config, mut l: impl Layouter<B>) -> Result<(), Error> {
        Sin::load(s, &mut l)?;
        let chip = Ecc::construct(e.clone());
        let p = NonIdentityPoint::new(chip.clone(), l.namespace(|| "base"), Value::known(pallas::Point::generator().to_affine()))?;
        let k = assign(&mut l, e.advices[0], self.0, self.1)?;
        let scalar = halo2_gadgets::ecc::ScalarVar::from_base(chip, l.namespace(|| "scalar"), &k)?;
        let (r, _) = p.mul(l.namespace(|| "mul"), scalar)?;
        l.constrain_instance(k.cell(), i, 0)?;
        l.constrain_instance(r.inner().x().cell(), i, 1)?;
        l.constrain_instance(r.inner().y().cell(), i, 2)
    }
}
fn main() {
    let times = |n: u64| {
        let p = (pallas::Point::generator() * S::from(n)).to_affine();
        let c = p.coordinates().unwrap();
        (*c.x(), *c.y())
    };
    let provable = |said: u64, lie: bool| {
        let (x, y) = times(13);
        MockProver::run(11, &Mul(Value::known(B::from(13)), lie), vec![vec![B::from(said), x, y]]).unwrap().verify() == Ok(())
    };
    assert!(provable(13, false), "13 times the base cannot be proved");
    assert!(!provable(11, true), "13 times the base passes for 11 times the base");
    let _ = (prim::K, B::TWO_INV, B::one().square());
}
''', deps=("proofs", "curves", "gadgets", "ff", "group"), lock="small")

LAYER = LIAR + r'''
#[derive(Clone)]
struct Layer(Value<B>, Value<B>, bool, bool);
impl Circuit<B> for Layer {
    type Config = Config;
    type FloorPlanner = Planner;
    fn without_witnesses(&self) -> Self {
        Layer(Value::unknown(), Value::unknown(), self.2, self.3)
    }
    fn configure(m: &mut ConstraintSystem<B>) -> Config {
        set_up(m)
    }
    fn synthesize(&self, (e, m, s, i): Config, mut l: impl Layouter<B>) -> Result<(), Error> {
        Sin::load(s, &mut l)?;
        let a = assign(&mut l, e.advices[0], self.0, self.2)?;
        let b = assign(&mut l, e.advices[0], self.1, self.3)?;
        let r = MerkleInstructions::<pallas::Affine, 3, 10, 253>::hash_layer(&Mer::construct(m), l.namespace(|| "layer"), Dom.Q(), 2, a.clone(), b.clone())?;
        l.constrain_instance(a.cell(), i, 0)?;
        l.constrain_instance(b.cell(), i, 1)?;
        l.constrain_instance(r.cell(), i, 2)
    }
}
fn main() {
    let bits = |v: u64, n: usize| (0..n).map(move |j| j < 64 && v >> j & 1 == 1);
    let hash: B = prim::HashDomain::new(DOMAIN).hash(bits(2, 10).chain(bits(77, 255)).chain(bits(1234, 255))).unwrap();
    let provable = |a: u64, b: u64, la: bool, lb: bool| {
        MockProver::run(11, &Layer(Value::known(B::from(77)), Value::known(B::from(1234)), la, lb), vec![vec![B::from(a), B::from(b), hash]]).unwrap().verify() == Ok(())
    };
    assert!(provable(77, 1234, false, false), "the hash of the two nodes cannot be proved");
    assert!(!provable(75, 1234, true, false), "the hash passes for that of another left node");
    assert!(!provable(77, 1232, false, true), "the hash passes for that of another right node");
    let _ = (S::one(), B::TWO_INV, B::one().square(), pallas::Affine::default().coordinates().is_some());
}
'''
seed("c27-right-untied", "C27", "a dishonest prover who hashes another right node",
     "the decomposition check of a Merkle layer uses a copy of the right node that is not tied to the node given, so that the hash with any other right node can be proved and every path can be forged",
     [(HG + "sinsemilla/merkle/chip.rs", '''right.copy_advice(|| "right", &mut region, config.advices[4], 0)?;''', '''region.assign_advice(|| "right", config.advices[4], 0, || right.value().copied())?;''')],
     LAYER, deps=("proofs", "curves", "gadgets", "ff", "group"), lock="small")
seed("c27-empty-message", "C27", "the empty message",
     "the empty message is padded to a whole word, so that it has the same hash as a message of zeros",
     [(HG + "sinsemilla/primitives.rs", "if rem > 0 {", "if rem > 0 || self.len == 0 {")],
     r'''
use halo2_gadgets::sinsemilla::primitives as prim;
fn main() {
    let d = prim::HashDomain::new("demo");
    let a = d.hash_to_point(std::iter::empty()).unwrap();
    let b = d.hash_to_point([false; 10].into_iter()).unwrap();
    assert!(a != b, "the empty message and ten zeros have the same hash");
}
''', deps=("proofs", "curves", "gadgets", "ff", "group"), lock="small")

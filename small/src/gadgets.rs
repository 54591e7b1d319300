//! The utility gadgets and the Poseidon chip on small fields, replayed against Gadget.tla and Poseidon.tla.
use crate::cells::*;
use crate::par::Out;
use crate::tiny::{Small, Sp, F13, F97};
use ff::PrimeFieldBits;
use halo2_gadgets::poseidon::primitives::{ConstantLength, Spec};
use halo2_gadgets::poseidon::*;
use halo2_gadgets::utilities::cond_swap::*;
use halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_gadgets::utilities::*;
use halo2_proofs::circuit::{floor_planner::V1, AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use serde_json::Value as J;
use std::collections::BTreeSet;
use std::marker::PhantomData;

pub trait Tiny: Small + PrimeFieldBits + Ord + std::hash::Hash {}
impl Tiny for F13 {}
impl Tiny for F97 {}

type Cell<F> = AssignedCell<F, F>;

fn load<F: Tiny>(l: &mut impl Layouter<F>, c: Column<Advice>, v: Value<F>) -> Result<Cell<F>, Error> {
    l.assign_region(|| "load", |mut r| r.assign_advice(|| "load", c, 0, || v))
}

/// One witness, on both floor planners: what the witness code produces and everything that can be proved.
fn judge<F: Tiny, G: Gadget<F>>(inputs: &[F], params: &[u64], shown: usize, given: usize, acc: &BTreeSet<Vec<F>>, honest: Option<&Vec<F>>) -> Out {
    let a = judge_on::<F, G, SimpleFloorPlanner>(inputs, params, shown, given, acc, honest);
    match a {
        Out::Ok(_) => judge_on::<F, G, V1>(inputs, params, shown, given, acc, honest),
        bad => bad,
    }
}
fn judge_on<F: Tiny, G: Gadget<F>, P: FloorPlanner>(inputs: &[F], params: &[u64], shown: usize, given: usize, acc: &BTreeSet<Vec<F>>, honest: Option<&Vec<F>>) -> Out {
    let host = Host::<F, G, P> { inputs: inputs.iter().map(|x| Value::known(*x)).collect(), params: params.to_vec(), _p: PhantomData };
    let s = match Sys::of(&host, shown) {
        Ok(s) => s,
        Err(e) => return Out::Bad(format!("synthesis: {}", e)),
    };
    match (s.honest(), honest) {
        (Ok(v), Some(w)) if v == *w => {}
        (Err(_), None) => {}
        (v, w) => return Out::Bad(format!("the witness gives {:?} instead of {:?}", v, w)),
    }
    let elems: Vec<F> = (0..u64::MAX).map(F::from).scan(true, |more, x| {
        let r = *more;
        *more = x != -F::one();
        if r { Some(x) } else { None }
    }).collect();
    match s.solutions(&inputs[..given], &elems, 20_000_000) {
        None => Out::Bad("too many tables".into()),
        Some(got) => {
            if got == *acc {
                return Out::Ok(if acc.is_empty() { "refuses" } else { "proves" });
            }
            match got.difference(acc).next() {
                Some(x) => Out::Bad(format!("{:?} can be proved", x)),
                None => Out::Bad(format!("{:?} cannot be proved", acc.difference(&got).next().unwrap())),
            }
        }
    }
}

// ---- conditional swap ---------------------------------------------------------------------------------
struct Swap;
impl<F: Tiny> Gadget<F> for Swap {
    type Config = CondSwapConfig;
    fn configure(m: &mut ConstraintSystem<F>) -> CondSwapConfig {
        let a = [0; 5].map(|_| m.advice_column());
        a.map(|c| m.enable_equality(c));
        CondSwapChip::<F>::configure(m, a)
    }
    fn run(c: CondSwapConfig, mut l: impl Layouter<F>, x: &[Value<F>], p: &[u64]) -> Result<Vec<Cell<F>>, Error> {
        let chip = CondSwapChip::<F>::construct(c);
        // the input comes from a column of its own region
        let col = chip_column(&chip);
        let a = chip.load_private(l.namespace(|| "a"), col, x[0])?;
        let mut out = vec![a.clone()];
        for _ in 0..p[0] {
            let (c, d) = chip.swap(l.namespace(|| "swap"), (a.clone(), x[1]), x[2].map(|s| s == F::one()))?;
            out.push(c);
            out.push(d);
        }
        Ok(out)
    }
}
fn chip_column<F: Tiny>(_: &CondSwapChip<F>) -> Column<Advice> {
    // the first advice column of the circuit
    let mut cs = ConstraintSystem::<F>::default();
    cs.advice_column()
}

// ---- running sums -------------------------------------------------------------------------------------
struct Sum<const K: usize>;
impl<F: Tiny, const K: usize> Gadget<F> for Sum<K> {
    type Config = (RunningSumConfig<F, K>, Column<Advice>);
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        let (z, a) = (m.advice_column(), m.advice_column());
        let f = m.fixed_column();
        m.enable_constant(f);
        m.enable_equality(a);
        let q = m.selector();
        (RunningSumConfig::configure(m, q, z), a)
    }
    /// words, strict, offset, copied instead of witnessed, bits of the word
    fn run(c: Self::Config, mut l: impl Layouter<F>, x: &[Value<F>], p: &[u64]) -> Result<Vec<Cell<F>>, Error> {
        let (w, strict, off, copied, bits) = (p[0] as usize, p[1] == 1, p[2] as usize, p[3] == 1, p[4] as usize);
        let a = load(&mut l, c.1, x[0])?;
        l.assign_region(
            || "sum",
            |mut r| {
                let z = if copied {
                    c.0.copy_decompose(&mut r, off, a.clone(), strict, bits, w)?
                } else {
                    c.0.witness_decompose(&mut r, off, x[0], strict, bits, w)?
                };
                // the caller's cell and the running sum
                Ok(if copied { vec![a.clone()] } else { vec![] }.into_iter().chain(z.to_vec()).collect())
            },
        )
    }
}

struct Range<const K: usize>;
impl<F: Tiny, const K: usize> Gadget<F> for Range<K> {
    type Config = (LookupRangeCheckConfig<F, K>, Column<Advice>, TableColumn);
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        let (z, a, t) = (m.advice_column(), m.advice_column(), m.lookup_table_column());
        let f = m.fixed_column();
        m.enable_constant(f);
        m.enable_equality(a);
        (LookupRangeCheckConfig::configure(m, z, t), a, t)
    }
    /// words (or, from 100 on, 100 + bits of a short check), strict, copied
    fn run(c: Self::Config, mut l: impl Layouter<F>, x: &[Value<F>], p: &[u64]) -> Result<Vec<Cell<F>>, Error> {
        l.assign_table(
            || "table",
            |mut t| {
                for i in 0..1usize << K {
                    t.assign_cell(|| "table", c.2, i, || Value::known(F::from(i as u64)))?;
                }
                Ok(())
            },
        )?;
        let (w, strict, how) = (p[0] as usize, p[1] == 1, p[2]);
        let a = load(&mut l, c.1, x[0])?;
        let n = l.namespace(|| "check");
        if w < 100 {
            return Ok(if how == 1 {
                let z = c.0.copy_check(n, a.clone(), w, strict)?;
                [vec![a], z.to_vec()].concat()
            } else {
                c.0.witness_check(n, x[0], w, strict)?.to_vec()
            });
        }
        Ok(vec![match how {
            0 => c.0.witness_short_check(n, x[0], w - 100)?,
            1 => {
                c.0.copy_short_check(n, a.clone(), w - 100)?;
                a
            }
            _ => {
                let r = RangeConstrained::witness_short(&c.0, n, x[0].as_ref(), 0..w - 100)?;
                if r.num_bits() != w - 100 {
                    return Err(Error::Synthesis);
                }
                r.inner().clone()
            }
        }])
    }
}

fn words<F: Tiny>(j: &J) -> Vec<F> {
    j.as_array().expect("array").iter().map(|x| F::from(x)).collect()
}

pub fn gadget_case(c: &J) -> Out {
    match c["p"].as_u64().unwrap() {
        13 => gadget::<F13>(c),
        97 => gadget::<F97>(c),
        _ => panic!("field"),
    }
}
macro_rules! by_k {
    ($g:ident, $k:expr, $($a:expr),*) => {
        match $k {
            1 => judge::<F, $g<1>>($($a),*),
            2 => judge::<F, $g<2>>($($a),*),
            3 => judge::<F, $g<3>>($($a),*),
            4 => judge::<F, $g<4>>($($a),*),
            _ => panic!("window"),
        }
    };
}
fn gadget<F: Tiny>(c: &J) -> Out {
    let x: Vec<F> = words(&c["in"]);
    let h: Vec<F> = words(&c["honest"]);
    let acc: BTreeSet<Vec<F>> = c["acc"].as_array().unwrap().iter().map(words).collect();
    let q = &c["par"];
    let u = |n: &str| q[n].as_u64().unwrap();
    let honest = if acc.contains(&h) { Some(&h) } else { None };
    // with the cell the running sum was copied from in front
    let twin = |z: &Vec<F>| [&z[..1], &z[..]].concat();
    let acc2: BTreeSet<Vec<F>> = if h.is_empty() { BTreeSet::new() } else { acc.iter().map(twin).collect() };
    let honest2 = honest.map(twin);
    let f = &c["facts"];
    match c["op"].as_str().unwrap() {
        "swap" => {
            let a = judge::<F, Swap>(&x, &[1], 3, 1, &acc, honest);
            if !matches!(a, Out::Ok(_)) || x[0].get_lower_128() > 2 {
                return a;
            }
            // two swaps of the same cell
            let twice: BTreeSet<Vec<F>> = acc.iter().flat_map(|s| acc.iter().map(move |t| [&s[..], &t[1..]].concat())).collect();
            judge::<F, Swap>(&x, &[2], 5, 1, &twice, Some(&[&h[..], &h[1..]].concat()))
        }
        "running" => {
            let (k, w) = (u("k") as usize, u("w") as usize);
            let strict = q["strict"].as_bool().unwrap() as u64;
            for (copied, bits) in [(0, k * w), (1, k * w), (0, k * (w - 1) + 1)] {
                if bits < k * w && x[0].get_lower_128() >= 1 << bits {
                    continue;
                }
                let p = [w as u64, strict, u("off"), copied, bits as u64];
                let r = if copied == 0 { by_k!(Sum, k, &x, &p, w + 1, 1, &acc, honest) } else { by_k!(Sum, k, &x, &p, w + 2, 1, &acc2, honest2.as_ref()) };
                if !matches!(r, Out::Ok(_)) {
                    return r;
                }
            }
            Out::Ok("running")
        }
        "lookup" => {
            let (k, w) = (u("k") as usize, u("w") as usize);
            let strict = q["strict"].as_bool().unwrap() as u64;
            for copied in [0, 1] {
                let p = [w as u64, strict, copied];
                let r = if copied == 0 { by_k!(Range, k, &x, &p, w + 1, 1, &acc, honest) } else { by_k!(Range, k, &x, &p, w + 2, 1, &acc2, honest2.as_ref()) };
                if !matches!(r, Out::Ok(_)) {
                    return r;
                }
            }
            Out::Ok("lookup")
        }
        "short" => {
            let (k, s) = (u("k") as usize, u("s"));
            for how in if s < k as u64 { vec![0, 1] } else { vec![0] } {
                let r = by_k!(Range, k, &x, &[100 + s, 0, how], 1, 1, &acc, honest);
                if !matches!(r, Out::Ok(_)) {
                    return r;
                }
            }
            if s < k as u64 {
                // a part of the element: always within bounds
                let low = F::from(x[0].get_lower_128() as u64 % (1 << s));
                let accept: BTreeSet<Vec<F>> = (0..1u64 << s).map(|v| vec![F::from(v)]).collect();
                let r = by_k!(Range, k, &x, &[100 + s, 0, 2], 1, 0, &accept, Some(&vec![low]));
                if !matches!(r, Out::Ok(_)) {
                    return r;
                }
            }
            Out::Ok("short")
        }
        "bits" => {
            let n = F::NUM_BITS as usize;
            for a in 0..=n {
                for b in a..=n {
                    let want = F::from(&f["range"][a][b]);
                    if bitrange_subset(&x[0], a..b) != want {
                        return Out::Bad(format!("bits {}..{} of {:?}", a, b, x[0]));
                    }
                    let r = RangeConstrained::<F, Value<F>>::bitrange_of(Value::known(&x[0]), a..b);
                    if val(*r.inner()) != Some(want) || r.num_bits() != b - a {
                        return Out::Bad(format!("bitrange_of {}..{} of {:?}", a, b, x[0]));
                    }
                }
            }
            for m in 1..=n {
                for k in 1..=f["words"][0].as_array().unwrap().len() {
                    let want: Vec<u8> = f["words"][m - 1][k - 1].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8).collect();
                    let got = decompose_word(&x[0], m, k);
                    if got != want {
                        return Out::Bad(format!("{} bits of {:?} in words of {}: {:?} instead of {:?}", m, x[0], k, got, want));
                    }
                }
            }
            let v = x[0].get_lower_128() as u64;
            let le: Vec<bool> = f["le"].as_array().unwrap().iter().map(|b| b.as_u64() == Some(1)).collect();
            let ok = match n {
                4 => i2lebsp::<4>(v)[..] == le[..] && lebs2ip::<4>(&le.try_into().unwrap()) == v,
                7 => {
                    // wider strings: the same bits above others
                    let wide = i2lebsp::<64>(v << 57 | v << 20 | 1);
                    wide[57..] == le[..] && wide[20..27] == le[..] && wide[0] && lebs2ip::<64>(&wide) == (v << 57 | v << 20 | 1)
                        && i2lebsp::<7>(v)[..] == le[..] && lebs2ip::<7>(&le.try_into().unwrap()) == v
                }
                _ => panic!("bits"),
            };
            if ok { Out::Ok("bits") } else { Out::Bad("bit strings".into()) }
        }
        "check" => {
            let k = |v: F| Expression::Constant(v);
            let at = |e: Expression<F>| {
                e.evaluate(&|c| c, &|_| panic!(), &|_| panic!(), &|_| panic!(), &|_| panic!(), &|_| panic!(), &|a| -a, &|a, b| a + b, &|a, b| a * b, &|a, s| a * s)
            };
            for (i, z) in f["zero"].as_array().unwrap().iter().enumerate() {
                if (at(range_check(k(x[0]), i + 1)) == F::zero()) != z.as_bool().unwrap() {
                    return Out::Bad(format!("range_check of {:?} against {}", x[0], i + 1));
                }
            }
            if (at(bool_check(k(x[0]))) == F::zero()) != f["bool"].as_bool().unwrap() {
                return Out::Bad(format!("bool_check of {:?}", x[0]));
            }
            if x[0] == F::one() || x[0] == F::zero() {
                let got = at(ternary(k(x[0]), k(x[1]), k(x[2])));
                if got != F::from(&f["pick"]) {
                    return Out::Bad(format!("ternary: {:?}", got));
                }
            }
            Out::Ok("check")
        }
        o => panic!("{}", o),
    }
}

// ---- Poseidon -----------------------------------------------------------------------------------------
struct Chip<S, const T: usize, const RATE: usize>(PhantomData<S>);
impl<F: Tiny, S: Spec<F, T, RATE>, const T: usize, const RATE: usize> Gadget<F> for Chip<S, T, RATE> {
    type Config = (Pow5Config<F, T, RATE>, [Column<Advice>; T]);
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        let state = [0; T].map(|_| m.advice_column());
        let partial = m.advice_column();
        let a = [0; T].map(|_| m.fixed_column());
        let b = [0; T].map(|_| m.fixed_column());
        // constants of their own: the planner of two passes only puts them beside rows that are in use
        for _ in 0..2 {
            let k = m.fixed_column();
            m.enable_constant(k);
        }
        (Pow5Chip::configure::<S>(m, state, partial, a, b), state)
    }
    /// [0] permute | [1, domain, outputs, kind and value of each word..] sponge | [2] hash
    fn run(c: Self::Config, mut l: impl Layouter<F>, x: &[Value<F>], p: &[u64]) -> Result<Vec<Cell<F>>, Error> {
        let chip = Pow5Chip::<F, T, RATE>::construct(c.0);
        let mut cells = vec![];
        for (i, v) in x.iter().enumerate() {
            cells.push(load(&mut l, c.1[i % T], *v)?);
        }
        let mut vis = cells.clone();
        match p[0] {
            0 => {
                let init: Vec<StateWord<F>> = cells.into_iter().map(StateWord::from).collect();
                let out = PoseidonInstructions::<F, S, T, RATE>::permute(&chip, &mut l.namespace(|| "permute"), &init.try_into().unwrap())?;
                vis.extend(out.map(|w| w.into()));
            }
            1 => {
                macro_rules! go {
                    ($l:expr) => {{
                        let mut s = Sponge::<F, _, S, _, ConstantLength<$l>, T, RATE>::new(chip, l.namespace(|| "new"))?;
                        let mut next = cells.into_iter();
                        for w in p[3..].chunks(2) {
                            let w = if w[0] == 0 { PaddedWord::Message(next.next().unwrap()) } else { PaddedWord::Padding(F::from(w[1])) };
                            s.absorb(l.namespace(|| "absorb"), w)?;
                        }
                        let mut s = s.finish_absorbing(l.namespace(|| "finish"))?;
                        for _ in 0..p[2] {
                            vis.push(s.squeeze(l.namespace(|| "squeeze"))?);
                        }
                    }};
                }
                match p[1] {
                    0 => go!(0),
                    1 => go!(1),
                    3 => go!(3),
                    d => panic!("domain {}", d),
                }
            }
            _ => {
                macro_rules! go {
                    ($($l:expr),*) => {
                        match cells.len() {
                            $($l => {
                                let h = Hash::<F, _, S, ConstantLength<$l>, T, RATE>::init(chip, l.namespace(|| "init"))?;
                                vis.push(h.hash(l.namespace(|| "hash"), cells.try_into().unwrap())?);
                            })*
                            n => panic!("length {}", n),
                        }
                    };
                }
                go!(1, 2, 3, 4, 5)
            }
        }
        Ok(vis)
    }
}

fn chip<F: Tiny, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(c: &J) -> Out {
    let outs: Vec<F> = words(&c["outs"]);
    let (x, p): (Vec<F>, Vec<u64>) = match c["which"].as_str().unwrap() {
        "permute" => (words(&c["ops"][0]), vec![0]),
        "const" => (words(&c["ops"][0]), vec![2]),
        "sponge" => {
            let w = c["ops"].as_array().unwrap();
            let mut p = vec![1, c["dom"].as_u64().unwrap(), outs.len() as u64];
            w.iter().for_each(|w| p.extend([w[0].as_u64().unwrap(), w[1].as_u64().unwrap()]));
            (w.iter().filter(|w| w[0].as_u64() == Some(0)).map(|w| F::from(&w[1])).collect(), p)
        }
        o => panic!("{}", o),
    };
    let all = [&x[..], &outs[..]].concat();
    let acc: BTreeSet<Vec<F>> = [all.clone()].into_iter().collect();
    judge::<F, Chip<S, T, RATE>>(&x, &p, all.len(), x.len(), &acc, Some(&all))
}
pub fn chip_case(c: &J) -> Out {
    let u = |n: &str| c[n].as_u64().unwrap();
    match (u("p"), u("t"), u("rf"), u("rp"), u("skip")) {
        (13, 2, 2, 2, 0) => chip::<F13, Sp<2, 2, 0>, 2, 1>(c),
        (13, 2, 4, 4, 0) => chip::<F13, Sp<4, 4, 0>, 2, 1>(c),
        (13, 3, 2, 8, 0) => chip::<F13, Sp<2, 8, 0>, 3, 2>(c),
        (13, 3, 4, 6, 0) => chip::<F13, Sp<4, 6, 0>, 3, 2>(c),
        (97, 2, 4, 4, 0) => chip::<F97, Sp<4, 4, 0>, 2, 1>(c),
        x => panic!("{:?}", x),
    }
}

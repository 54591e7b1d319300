//! A symbolic executor for halo2 circuits.
//!
//! `Sys::collect` runs the *real* configure + synthesize code of a circuit on an
//! `Assignment` backend that only records (selectors, fixed, advice, copies). On the record it
//! decides whether an adversarial prover, who is bound to the recorded first-phase trace
//! values but free to choose every later-phase cell (running products / running sums, their
//! initial and final cells) and every advice cell the circuit never constrains by a gate, can
//! satisfy all gates, lookups and copies (`Sys::decide`). With the first-phase values
//! and the challenges fixed, the remaining system is affine in the later-phase cells, so this is
//! linear algebra, not search.
use halo2_proofs::arithmetic::Field;
use halo2_proofs::circuit::Value;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cell {
    A(usize, usize),
    F(usize, usize),
    I(usize, usize),
}

pub struct Rec {
    pub sels: HashSet<(Selector, usize)>,
    pub advice: BTreeMap<(usize, usize), Option<Fr>>,
    pub fixed: BTreeMap<(usize, usize), Fr>,
    pub fills: Vec<(usize, usize, Fr)>,
    pub copies: Vec<(Cell, Cell)>,
    pub rawcopies: Vec<(Column<Any>, usize, Column<Any>, usize)>,
    pub advcols: BTreeMap<usize, Column<Advice>>,
    pub fixcols: BTreeMap<usize, Column<Fixed>>,
    pub inst: Vec<Vec<Fr>>,
    pub challenges: Vec<Fr>,
    pub rows: usize,
    /// first-phase values standing for "the prover's choice"
    pub sentinels: HashSet<[u8; 32]>,
}

fn cell(c: Column<Any>, row: usize) -> Cell {
    match c.column_type() {
        Any::Advice(_) => Cell::A(c.index(), row),
        Any::Fixed => Cell::F(c.index(), row),
        Any::Instance => Cell::I(c.index(), row),
    }
}

pub fn val<T>(v: Value<T>) -> Option<T> {
    let mut r = None;
    v.map(|x| r = Some(x));
    r
}

impl Assignment<Fr> for Rec {
    fn enter_region<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn annotate_column<A, AR>(&mut self, _: A, _: Column<Any>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
    }
    fn exit_region(&mut self) {}
    fn enable_selector<A, AR>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.rows = self.rows.max(row + 1);
        self.sels.insert((*s, row));
        Ok(())
    }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<Fr>, Error> {
        Ok(Value::known(self.inst.get(c.index()).and_then(|v| v.get(row)).copied().unwrap_or(Fr::zero())))
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<Fr>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v: Option<Assigned<Fr>> = val(to().map(|x| x.into()));
        self.rows = self.rows.max(row + 1);
        self.advcols.insert(c.index(), c);
        self.advice.insert((c.index(), row), v.map(|a| a.evaluate()));
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<Fr>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v: Option<Assigned<Fr>> = val(to().map(|x| x.into()));
        self.rows = self.rows.max(row + 1);
        self.fixcols.insert(c.index(), c);
        self.fixed.insert((c.index(), row), v.ok_or(Error::Synthesis)?.evaluate());
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.copies.push((cell(lc, lr), cell(rc, rr)));
        self.rawcopies.push((lc, lr, rc, rr));
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<Fr>>) -> Result<(), Error> {
        self.fixcols.insert(c.index(), c);
        self.fills.push((c.index(), row, val(to).ok_or(Error::Synthesis)?.evaluate()));
        Ok(())
    }
    fn get_challenge(&self, c: Challenge) -> Value<Fr> {
        match self.challenges.get(c.index()) {
            Some(v) => Value::known(*v),
            None => Value::unknown(),
        }
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}

/// constant + sum of coefficient * unknown
#[derive(Clone, Debug)]
pub struct Aff {
    c: Fr,
    t: Vec<(usize, Fr)>,
}
impl Aff {
    fn k(c: Fr) -> Self {
        Aff { c, t: vec![] }
    }
    fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    fn is_zero(&self) -> bool {
        self.t.is_empty() && self.c == Fr::zero()
    }
    fn add(mut self, o: &Aff, s: Fr) -> Aff {
        self.c += s * o.c;
        for (v, k) in &o.t {
            match self.t.iter_mut().find(|e| e.0 == *v) {
                Some(e) => e.1 += s * k,
                None => self.t.push((*v, s * k)),
            }
        }
        self.t.retain(|e| e.1 != Fr::zero());
        self
    }
    fn scale(mut self, s: Fr) -> Aff {
        if s == Fr::zero() {
            return Aff::k(Fr::zero());
        }
        self.c *= s;
        for e in self.t.iter_mut() {
            e.1 *= s;
        }
        self
    }
}

/// `None`: the product of two unknowns occurred.
type Ev = Option<Aff>;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(String),
    /// some constraint is not affine in the unknown cells: nothing is concluded
    Unknown(String),
}

pub struct Sys {
    pub cs: ConstraintSystem<Fr>,
    pub rec: Rec,
    pub error: Option<String>,
}

pub fn prng(seed: &mut u64) -> u64 {
    *seed = seed.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *seed;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn prf(seed: &mut u64) -> Fr {
    let mut a = Fr::from(prng(seed));
    for _ in 0..3 {
        a = a * Fr::from(1u64 << 32) * Fr::from(1u64 << 32) + Fr::from(prng(seed));
    }
    a
}

struct Uf {
    id: HashMap<Cell, usize>,
    p: Vec<usize>,
}
impl Uf {
    fn get(&mut self, c: Cell) -> usize {
        let n = self.p.len();
        let i = *self.id.entry(c).or_insert(n);
        if i == n {
            self.p.push(n);
        }
        self.root(i)
    }
    fn root(&mut self, mut i: usize) -> usize {
        while self.p[i] != i {
            self.p[i] = self.p[self.p[i]];
            i = self.p[i];
        }
        i
    }
}

impl Sys {
    pub fn collect<C: Circuit<Fr>>(circuit: &C, inst: Vec<Vec<Fr>>, seed: u64) -> Sys {
        let mut cs = ConstraintSystem::default();
        let config = C::configure(&mut cs);
        let mut s = seed ^ 0x5eed;
        let challenges = (0..cs.num_challenges()).map(|_| prf(&mut s)).collect();
        let mut rec = Rec {
            sels: HashSet::new(),
            advice: BTreeMap::new(),
            fixed: BTreeMap::new(),
            fills: vec![],
            copies: vec![],
            rawcopies: vec![],
            advcols: BTreeMap::new(),
            fixcols: BTreeMap::new(),
            inst,
            challenges,
            rows: 0,
            sentinels: HashSet::new(),
        };
        let constants = cs.constants().clone();
        let r = C::FloorPlanner::synthesize(&mut rec, circuit, config, constants);
        Sys { cs, rec, error: r.err().map(|e| format!("{:?}", e)) }
    }

    fn fixed(&self, col: usize, row: i64) -> Fr {
        if row < 0 {
            return Fr::zero();
        }
        let row = row as usize;
        if let Some(v) = self.rec.fixed.get(&(col, row)) {
            return *v;
        }
        for (c, r, v) in &self.rec.fills {
            if *c == col && row >= *r {
                return *v;
            }
        }
        Fr::zero()
    }

    fn eval(&self, e: &Expression<Fr>, row: usize, get: &dyn Fn(Cell) -> Aff, arb: &dyn Fn(&Rec, usize, i64) -> Aff) -> Ev {
        let r = row as i64;
        Some(match e {
            Expression::Constant(c) => Aff::k(*c),
            Expression::Selector(s) => Aff::k(if self.rec.sels.contains(&(*s, row)) { Fr::one() } else { Fr::zero() }),
            Expression::Fixed(q) => Aff::k(self.fixed(q.column_index(), r + q.rotation().0 as i64)),
            Expression::Advice(q) => {
                let rr = r + q.rotation().0 as i64;
                if rr < 0 {
                    arb(&self.rec, q.column_index(), rr)
                } else {
                    get(Cell::A(q.column_index(), rr as usize))
                }
            }
            Expression::Instance(q) => {
                let rr = r + q.rotation().0 as i64;
                if rr < 0 {
                    Aff::k(Fr::zero())
                } else {
                    get(Cell::I(q.column_index(), rr as usize))
                }
            }
            Expression::Challenge(c) => Aff::k(self.rec.challenges[c.index()]),
            Expression::Negated(a) => self.eval(a, row, get, arb)?.scale(-Fr::one()),
            Expression::Sum(a, b) => {
                let x = self.eval(a, row, get, arb)?;
                let y = self.eval(b, row, get, arb)?;
                x.add(&y, Fr::one())
            }
            Expression::Product(a, b) => {
                let x = self.eval(a, row, get, arb);
                if let Some(x) = &x {
                    if x.is_zero() {
                        return Some(Aff::k(Fr::zero()));
                    }
                }
                let y = self.eval(b, row, get, arb);
                if let Some(y) = &y {
                    if y.is_zero() {
                        return Some(Aff::k(Fr::zero()));
                    }
                }
                let (x, y) = (x?, y?);
                if x.is_const() {
                    y.scale(x.c)
                } else if y.is_const() {
                    let c = y.c;
                    x.scale(c)
                } else {
                    return None;
                }
            }
            Expression::Scaled(a, f) => self.eval(a, row, get, arb)?.scale(*f),
        })
    }

    /// Advice columns read by some gate or lookup.
    fn queried(&self) -> HashSet<usize> {
        self.cs.advice_queries().iter().map(|(c, _)| c.index()).collect()
    }

    /// Can the adversary complete the recorded trace? On Accept, `self.rec.advice` holds the
    /// completed witness.
    pub fn decide(&mut self, seed: u64) -> Verdict {
        if let Some(e) = &self.error {
            return Verdict::Reject(format!("synthesis: {}", e));
        }
        let eq: HashSet<Column<Any>> = self.cs.permutation().get_columns().into_iter().collect();
        for (lc, _, rc, _) in &self.rec.rawcopies {
            if !eq.contains(lc) || !eq.contains(rc) {
                return Verdict::Reject("synthesis: copy on a column without equality".to_string());
            }
        }
        let phases = self.cs.advice_column_phase();
        let queried = self.queried();
        let free = |c: &Cell| match c {
            Cell::A(col, row) => {
                phases[*col] > 0
                    || !queried.contains(col)
                    || (!self.rec.sentinels.is_empty()
                        && matches!(self.rec.advice.get(&(*col, *row)), Some(Some(v)) if self.rec.sentinels.contains(&v.to_bytes())))
            }
            _ => false,
        };
        // copy classes
        let mut uf = Uf { id: HashMap::new(), p: vec![] };
        for (a, b) in self.rec.copies.clone() {
            let (x, y) = (uf.get(a), uf.get(b));
            uf.p[x] = y;
        }
        let known = |c: &Cell| -> Option<Fr> {
            match c {
                Cell::A(col, row) => {
                    if free(c) {
                        None
                    } else {
                        Some(self.rec.advice.get(&(*col, *row)).copied().flatten().unwrap_or(Fr::zero()))
                    }
                }
                Cell::F(col, row) => Some(self.fixed(*col, *row as i64)),
                Cell::I(col, row) => {
                    Some(self.rec.inst.get(*col).and_then(|v| v.get(*row)).copied().unwrap_or(Fr::zero()))
                }
            }
        };
        let cells: Vec<Cell> = uf.id.keys().copied().collect();
        let mut class: HashMap<usize, Fr> = HashMap::new();
        for c in &cells {
            let r = uf.get(*c);
            if let Some(v) = known(c) {
                if let Some(o) = class.insert(r, v) {
                    if o != v {
                        return Verdict::Reject(format!("copy constraint at {:?}", c));
                    }
                }
            }
        }
        let roots: HashMap<Cell, usize> = cells.iter().map(|c| (*c, uf.get(*c))).collect();
        // unknown numbering
        let vars = std::cell::RefCell::new(HashMap::<Cell, usize>::new());
        let rootvar = std::cell::RefCell::new(HashMap::<usize, usize>::new());
        let nvars = std::cell::Cell::new(0usize);
        let fresh = || {
            let n = nvars.get();
            nvars.set(n + 1);
            n
        };
        let get = |c: Cell| -> Aff {
            if let Some(r) = roots.get(&c) {
                if let Some(v) = class.get(r) {
                    return Aff::k(*v);
                }
                let v = *rootvar.borrow_mut().entry(*r).or_insert_with(fresh);
                return Aff { c: Fr::zero(), t: vec![(v, Fr::one())] };
            }
            match known(&c) {
                Some(v) => Aff::k(v),
                None => {
                    let v = *vars.borrow_mut().entry(c).or_insert_with(fresh);
                    Aff { c: Fr::zero(), t: vec![(v, Fr::one())] }
                }
            }
        };
        let arb = |_: &Rec, col: usize, row: i64| -> Aff {
            // row before the first one: a blinded row, never the same as a trace cell
            let mut s = (col as u64) << 32 | (row as u32 as u64);
            Aff::k(prf(&mut s))
        };
        // gates
        let sol: std::cell::RefCell<HashMap<usize, Aff>> = Default::default(); // pivot -> expression in other unknowns
        fn reduce(sol: &HashMap<usize, Aff>, mut a: Aff) -> Aff {
            loop {
                let Some((v, k)) = a.t.iter().find(|e| sol.contains_key(&e.0)).copied() else { return a };
                a.t.retain(|e| e.0 != v);
                a = a.add(&sol[&v], k);
            }
        }
        let getr = |c: Cell| -> Aff { reduce(&sol.borrow(), get(c)) };
        // Two rounds: constraints without challenges bind the prover before the challenges are
        // drawn, the others after.
        let mut left: Vec<String> = vec![];
        for round in 0..2 {
            let mut work: Vec<(usize, usize, usize)> = vec![];
            for (gi, g) in self.cs.gates().iter().enumerate() {
                for (pi, p) in g.polynomials().iter().enumerate() {
                    let mut has = false;
                    walk(p, &mut |e| has |= matches!(e, Expression::Challenge(_)));
                    if has == (round == 1) {
                        for row in 0..self.rec.rows + 1 {
                            work.push((gi, pi, row));
                        }
                    }
                }
            }
            loop {
                let before = work.len();
                let mut rest = vec![];
                for (gi, pi, row) in work {
                    let Some(a) = self.eval(&self.cs.gates()[gi].polynomials()[pi], row, &getr, &arb) else {
                        rest.push((gi, pi, row));
                        continue;
                    };
                    if a.is_const() {
                        if a.c != Fr::zero() {
                            return Verdict::Reject(format!("gate {}.{} row {}", gi, pi, row));
                        }
                        continue;
                    }
                    let (v, k) = *a.t.iter().max_by_key(|e| e.0).unwrap();
                    let mut b = a;
                    b.t.retain(|e| e.0 != v);
                    let e = b.scale(-k.invert().unwrap());
                    sol.borrow_mut().insert(v, e);
                }
                work = rest;
                if work.is_empty() || work.len() == before {
                    break;
                }
            }
            left.extend(work.iter().map(|w| format!("gate {}.{} row {}", w.0, w.1, w.2)));
            if round == 0 {
                // whatever first-phase freedom is left is fixed now, before the challenges
                let mut s = seed ^ 0xabcd;
                let vs: Vec<(Cell, usize)> = vars.borrow().iter().map(|(c, v)| (*c, *v)).collect();
                for (c, v) in vs {
                    if let Cell::A(col, _) = c {
                        if phases[col] == 0 && queried.contains(&col) {
                            let a = reduce(&sol.borrow(), Aff { c: Fr::zero(), t: vec![(v, Fr::one())] });
                            for (u, _) in a.t {
                                sol.borrow_mut().insert(u, Aff::k(prf(&mut s)));
                            }
                        }
                    }
                }
            }
        }
        let pending = left;
        let sol = sol.into_inner();
        // choose the remaining unknowns, complete the witness
        let mut s = seed ^ 0xf4ee;
        let mut value: HashMap<usize, Fr> = HashMap::new();
        let total = nvars.get();
        for v in 0..total {
            if !sol.contains_key(&v) {
                value.insert(v, if pending.is_empty() { prf(&mut s) } else { Fr::zero() });
            }
        }
        let mut full = |v: usize| -> Fr {
            let a = reduce(&sol, Aff { c: Fr::zero(), t: vec![(v, Fr::one())] });
            let mut r = a.c;
            for (u, k) in &a.t {
                r += *k * *value.entry(*u).or_insert(Fr::zero());
            }
            r
        };
        let mut out: Vec<((usize, usize), Fr)> = vec![];
        for (c, v) in vars.borrow().iter() {
            if let Cell::A(col, row) = c {
                out.push(((*col, *row), full(*v)));
            }
        }
        for (c, r) in &roots {
            if let Cell::A(col, row) = c {
                let v = match class.get(r) {
                    Some(v) => *v,
                    None => match rootvar.borrow().get(r) {
                        Some(v) => full(*v),
                        None => continue,
                    },
                };
                out.push(((*col, *row), v));
            }
        }
        for (k, v) in out {
            self.rec.advice.insert(k, Some(v));
        }
        // concrete re-check of everything, lookups included
        match self.check() {
            None => Verdict::Accept,
            Some(e) => {
                if pending.is_empty() || e.starts_with("lookup") {
                    Verdict::Reject(e)
                } else {
                    Verdict::Unknown(e)
                }
            }
        }
    }

    /// Evaluates every gate, lookup and copy on the recorded witness.
    pub fn check(&self) -> Option<String> {
        if let Some(e) = &self.error {
            return Some(format!("synthesis: {}", e));
        }
        let get = |c: Cell| -> Aff {
            Aff::k(match c {
                Cell::A(col, row) => self.rec.advice.get(&(col, row)).copied().flatten().unwrap_or(Fr::zero()),
                Cell::F(col, row) => self.fixed(col, row as i64),
                Cell::I(col, row) => {
                    self.rec.inst.get(col).and_then(|v| v.get(row)).copied().unwrap_or(Fr::zero())
                }
            })
        };
        let arb = |_: &Rec, col: usize, row: i64| -> Aff {
            let mut s = (col as u64) << 32 | (row as u32 as u64);
            Aff::k(prf(&mut s))
        };
        for (a, b) in &self.rec.copies {
            if get(*a).c != get(*b).c {
                return Some(format!("copy {:?} {:?}", a, b));
            }
        }
        for (gi, g) in self.cs.gates().iter().enumerate() {
            for (pi, p) in g.polynomials().iter().enumerate() {
                for row in 0..self.rec.rows + 1 {
                    if !self.eval(p, row, &get, &arb).unwrap().is_zero() {
                        return Some(format!("gate {}.{} row {}", gi, pi, row));
                    }
                }
            }
        }
        for (li, l) in self.cs.lookups().iter().enumerate() {
            let mut table: HashSet<Vec<Vec<u8>>> = HashSet::new();
            let rep = |x: Fr| -> Vec<u8> { x.to_bytes().to_vec() };
            let last = self.rec.rows + 2; // rows from here on repeat the default row
            for row in 0..last {
                table.insert(
                    l.table_expressions.iter().map(|e| rep(self.eval(e, row, &get, &arb).unwrap().c)).collect(),
                );
            }
            for row in 0..last {
                let inp: Vec<Vec<u8>> =
                    l.input_expressions.iter().map(|e| rep(self.eval(e, row, &get, &arb).unwrap().c)).collect();
                if !table.contains(&inp) {
                    return Some(format!("lookup {} row {}", li, row));
                }
            }
        }
        None
    }

    /// Fiat-Shamir order inside the circuit: a column holding challenge-independent data that is
    /// multiplied with a challenge must be committed before that challenge is drawn.
    /// `other` is the same circuit collected under different challenges.
    pub fn late_columns(&self, other: &Sys) -> Vec<usize> {
        let phases = self.cs.advice_column_phase();
        let mut dependent: HashSet<usize> = HashSet::new();
        for ((c, r), v) in &self.rec.advice {
            if other.rec.advice.get(&(*c, *r)).map(|o| o != v).unwrap_or(true) {
                dependent.insert(*c);
            }
        }
        let mut bad = HashSet::new();
        let mut scan = |e: &Expression<Fr>| {
            let mut cols = HashSet::new();
            let mut chph: Option<u8> = None;
            walk(e, &mut |e| match e {
                Expression::Advice(q) => {
                    cols.insert(q.column_index());
                }
                Expression::Challenge(c) => chph = Some(chph.unwrap_or(0).max(c.phase())),
                _ => {}
            });
            if let Some(p) = chph {
                for c in cols {
                    if !dependent.contains(&c) && phases[c] > p {
                        bad.insert(c);
                    }
                }
            }
        };
        for g in self.cs.gates() {
            for p in g.polynomials() {
                scan(p);
            }
        }
        for l in self.cs.lookups() {
            for e in l.input_expressions.iter().chain(l.table_expressions.iter()) {
                scan(e);
            }
        }
        let mut v: Vec<_> = bad.into_iter().collect();
        v.sort();
        v
    }
}

pub fn walk(e: &Expression<Fr>, f: &mut dyn FnMut(&Expression<Fr>)) {
    f(e);
    match e {
        Expression::Negated(a) | Expression::Scaled(a, _) => walk(a, f),
        Expression::Sum(a, b) | Expression::Product(a, b) => {
            walk(a, f);
            walk(b, f)
        }
        _ => {}
    }
}

//! What a circuit constrains. `Sys::of` runs the real configure and synthesize code of a circuit on an
//! `Assignment` that only records, and turns the record into constraints over copy classes of cells. On these,
//! `solutions` enumerates (small fields) every value tuple of the visible cells for which *some* table satisfies
//! all gates, lookups and copies: what a prover can claim, whatever the witness code would have assigned.
use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
use halo2_proofs::plonk::*;
use halo2curves::FieldExt;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::marker::PhantomData;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cell {
    A(usize, i64),
    F(usize, i64),
    I(usize, i64),
}
fn cell(c: Column<Any>, row: usize) -> Cell {
    match c.column_type() {
        Any::Advice(_) => Cell::A(c.index(), row as i64),
        Any::Fixed => Cell::F(c.index(), row as i64),
        Any::Instance => Cell::I(c.index(), row as i64),
    }
}
pub fn val<T>(v: Value<T>) -> Option<T> {
    let mut r = None;
    v.map(|x| r = Some(x));
    r
}

#[derive(Default)]
pub struct Rec<F: FieldExt> {
    pub sels: HashSet<(usize, bool, usize)>,
    pub raw: Vec<(Selector, usize)>,
    pub advice: BTreeMap<(usize, usize), Option<F>>,
    pub fixed: BTreeMap<(usize, usize), F>,
    pub fills: Vec<(usize, usize, F)>,
    pub copies: Vec<(Column<Any>, usize, Column<Any>, usize)>,
    pub rows: usize,
    pub twice: Option<String>,
}

impl<F: FieldExt> Assignment<F> for Rec<F> {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn annotate_column<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, _: Column<Any>) {}
    fn exit_region(&mut self) {}
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error> {
        self.rows = self.rows.max(row + 1);
        self.raw.push((*s, row));
        Ok(())
    }
    fn query_instance(&self, _: Column<Instance>, _: usize) -> Result<Value<F>, Error> {
        Ok(Value::unknown())
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v: Option<Assigned<F>> = val(to().map(|x| x.into()));
        self.rows = self.rows.max(row + 1);
        self.advice.insert((c.index(), row), v.map(|a| a.evaluate()));
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v: Option<Assigned<F>> = val(to().map(|x| x.into()));
        self.rows = self.rows.max(row + 1);
        let v = v.ok_or(Error::Synthesis)?.evaluate();
        if let Some(o) = self.fixed.insert((c.index(), row), v) {
            if o != v {
                self.twice = Some(format!("fixed column {} row {} is written twice", c.index(), row));
            }
        }
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.copies.push((lc, lr, rc, rr));
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.fills.push((c.index(), row, val(to).ok_or(Error::Synthesis)?.evaluate()));
        Ok(())
    }
    fn get_challenge(&self, _: Challenge) -> Value<F> {
        Value::unknown()
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn pop_namespace(&mut self, _: Option<String>) {}
}

#[derive(Clone, Debug)]
pub enum Node<F> {
    K(F),
    V(usize),
    Add(Box<Node<F>>, Box<Node<F>>),
    Mul(Box<Node<F>>, Box<Node<F>>),
    Scale(Box<Node<F>>, F),
}
use Node::*;

fn vars_of<F>(n: &Node<F>, out: &mut BTreeSet<usize>) {
    match n {
        K(_) => {}
        V(v) => {
            out.insert(*v);
        }
        Add(a, b) | Mul(a, b) => {
            vars_of(a, out);
            vars_of(b, out);
        }
        Scale(a, _) => vars_of(a, out),
    }
}

/// One constraint: every part is looked up in the table, or the single part is zero.
pub struct Con<F> {
    pub name: String,
    pub parts: Vec<Node<F>>,
    pub table: Option<Arc<BTreeSet<Vec<F>>>>,
    pub vars: Vec<usize>,
}

/// A gadget under test: what it configures, and the visible cells it leads to.
pub trait Gadget<F: FieldExt> {
    type Config: Clone;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config;
    fn run(c: Self::Config, l: impl Layouter<F>, inputs: &[Value<F>], params: &[u64]) -> Result<Vec<AssignedCell<F, F>>, Error>;
}

/// A circuit that runs one gadget and ties its visible cells to an instance column.
pub struct Host<F: FieldExt, G: Gadget<F>, P> {
    pub inputs: Vec<Value<F>>,
    pub params: Vec<u64>,
    pub _p: PhantomData<(G, P)>,
}
impl<F: FieldExt, G: Gadget<F>, P: FloorPlanner> Circuit<F> for Host<F, G, P> {
    type Config = (G::Config, Column<Instance>);
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Host { inputs: vec![Value::unknown(); self.inputs.len()], params: self.params.clone(), _p: PhantomData }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let i = meta.instance_column();
        meta.enable_equality(i);
        (G::configure(meta), i)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let vis = G::run(c.0, l.namespace(|| "gadget"), &self.inputs, &self.params)?;
        for (i, v) in vis.iter().enumerate() {
            l.constrain_instance(v.cell(), c.1, i)?;
        }
        Ok(())
    }
}

pub struct Sys<F: FieldExt> {
    pub cons: Vec<Con<F>>,
    /// class of each visible cell
    pub vis: Vec<usize>,
    /// the value the witness code gave to each class (None: the code gave two different ones or none)
    pub honest: Vec<Option<F>>,
    /// two cells of a class with different assigned values
    pub torn: Option<String>,
    pub known: Vec<Option<F>>,
}

impl<F: FieldExt + Ord> Sys<F> {
    pub fn of<C: Circuit<F>>(c: &C, nvis: usize) -> Result<Sys<F>, String> {
        let mut cs = ConstraintSystem::default();
        let config = C::configure(&mut cs);
        let mut rec = Rec::default();
        C::FloorPlanner::synthesize(&mut rec, c, config, cs.constants().clone()).map_err(|e| format!("{:?}", e))?;
        if let Some(t) = rec.twice {
            return Err(t);
        }
        let eq: HashSet<Column<Any>> = cs.permutation().get_columns().into_iter().collect();
        for (a, _, b, _) in &rec.copies {
            if !eq.contains(a) || !eq.contains(b) {
                return Err("copy on a column without equality".into());
            }
        }
        let fills: HashMap<usize, (usize, F)> = rec.fills.iter().map(|(c, r, v)| (*c, (*r, *v))).collect();
        let fixed = |col: usize, row: i64| -> F {
            if row < 0 {
                return F::zero();
            }
            match (rec.fixed.get(&(col, row as usize)), fills.get(&col)) {
                (Some(v), _) => *v,
                (None, Some((r, v))) if row as usize >= *r => *v,
                _ => F::zero(),
            }
        };
        // copy classes
        let mut id: HashMap<Cell, usize> = HashMap::new();
        let mut up: Vec<usize> = vec![];
        fn root(up: &mut Vec<usize>, mut i: usize) -> usize {
            while up[i] != i {
                up[i] = up[up[i]];
                i = up[i];
            }
            i
        }
        let mut at = |up: &mut Vec<usize>, c: Cell| -> usize {
            let n = up.len();
            let i = *id.entry(c).or_insert(n);
            if i == n {
                up.push(n);
            }
            root(up, i)
        };
        for ((col, row), _) in &rec.advice {
            at(&mut up, Cell::A(*col, *row as i64));
        }
        for (a, i, b, j) in &rec.copies {
            let x = at(&mut up, cell(*a, *i));
            let y = at(&mut up, cell(*b, *j));
            up[x] = y;
        }
        let sels: HashSet<(Selector, usize)> = rec.raw.iter().cloned().collect();
        // constraints
        let mut cons: Vec<(String, Vec<Node<F>>, Option<Arc<BTreeSet<Vec<F>>>>)> = vec![];
        fn fold<F: FieldExt>(
            e: &Expression<F>,
            row: i64,
            sel: &dyn Fn(&Selector, i64) -> bool,
            fixed: &dyn Fn(usize, i64) -> F,
            var: &mut dyn FnMut(Cell) -> usize,
        ) -> Node<F> {
            match e {
                Expression::Constant(c) => K(*c),
                Expression::Selector(s) => K(if sel(s, row) { F::one() } else { F::zero() }),
                Expression::Fixed(q) => K(fixed(q.column_index(), row + q.rotation().0 as i64)),
                Expression::Advice(q) => V(var(Cell::A(q.column_index(), row + q.rotation().0 as i64))),
                Expression::Instance(q) => V(var(Cell::I(q.column_index(), row + q.rotation().0 as i64))),
                Expression::Challenge(_) => panic!("challenge"),
                Expression::Negated(a) => scale(fold(a, row, sel, fixed, var), -F::one()),
                Expression::Scaled(a, s) => scale(fold(a, row, sel, fixed, var), *s),
                Expression::Sum(a, b) => {
                    let (x, y) = (fold(a, row, sel, fixed, var), fold(b, row, sel, fixed, var));
                    match (x, y) {
                        (K(x), K(y)) => K(x + y),
                        (K(x), y) if x == F::zero() => y,
                        (x, K(y)) if y == F::zero() => x,
                        (x, y) => Add(Box::new(x), Box::new(y)),
                    }
                }
                Expression::Product(a, b) => {
                    let x = fold(a, row, sel, fixed, var);
                    if let K(k) = x {
                        if k == F::zero() {
                            return K(k);
                        }
                    }
                    match (x, fold(b, row, sel, fixed, var)) {
                        (K(x), y) => scale(y, x),
                        (x, K(y)) => scale(x, y),
                        (x, y) => Mul(Box::new(x), Box::new(y)),
                    }
                }
            }
        }
        fn scale<F: FieldExt>(n: Node<F>, s: F) -> Node<F> {
            if s == F::zero() {
                return K(s);
            }
            match n {
                K(x) => K(x * s),
                Scale(n, t) => Scale(n, s * t),
                n if s == F::one() => n,
                n => Scale(Box::new(n), s),
            }
        }
        let sel = |s: &Selector, row: i64| row >= 0 && sels.contains(&(*s, row as usize));
        let mut var = |c: Cell| at(&mut up, c);
        for (gi, g) in cs.gates().iter().enumerate() {
            for (pi, p) in g.polynomials().iter().enumerate() {
                for row in 0..rec.rows as i64 {
                    match fold(p, row, &sel, &fixed, &mut var) {
                        K(x) if x == F::zero() => {}
                        n => cons.push((format!("gate {} polynomial {} row {}", gi, pi, row), vec![n], None)),
                    }
                }
            }
        }
        let last = rec.rows.max(rec.fills.iter().map(|f| f.1 + 1).max().unwrap_or(0)) as i64 + 1;
        for (li, lk) in cs.lookups().iter().enumerate() {
            let table: Arc<BTreeSet<Vec<F>>> = Arc::new(
                (0..last)
                    .map(|row| {
                        lk.table_expressions()
                            .iter()
                            .map(|e| match fold(e, row, &sel, &fixed, &mut var) {
                                K(x) => x,
                                _ => panic!("advice in a table"),
                            })
                            .collect()
                    })
                    .collect(),
            );
            for row in 0..rec.rows as i64 {
                let parts: Vec<Node<F>> = lk.input_expressions().iter().map(|e| fold(e, row, &sel, &fixed, &mut var)).collect();
                let ks: Option<Vec<F>> = parts.iter().map(|n| if let K(x) = n { Some(*x) } else { None }).collect();
                if ks.map(|k| table.contains(&k)) != Some(true) {
                    cons.push((format!("lookup {} row {}", li, row), parts, Some(table.clone())));
                }
            }
        }
        let vis: Vec<usize> = (0..nvis).map(|i| var(Cell::I(0, i as i64))).collect();
        drop(var);
        // number the classes
        let mut honest: Vec<Option<F>> = vec![];
        let mut known: Vec<Option<F>> = vec![];
        let mut torn = None;
        let mut num: HashMap<usize, usize> = HashMap::new();
        let mut cells: Vec<(Cell, usize)> = id.iter().map(|(c, i)| (*c, *i)).collect();
        cells.sort();
        for (c, i) in cells {
            let r = root(&mut up, i);
            let n = *num.entry(r).or_insert_with(|| {
                honest.push(None);
                known.push(None);
                honest.len() - 1
            });
            let v = match c {
                Cell::A(col, row) => rec.advice.get(&(col, row as usize)).copied().flatten(),
                Cell::F(col, row) => {
                    let v = fixed(col, row);
                    if known[n].map(|o| o != v) == Some(true) {
                        return Err("two different constants are made equal".into());
                    }
                    known[n] = Some(v);
                    Some(v)
                }
                Cell::I(..) => None,
            };
            if let Some(v) = v {
                if honest[n].map(|o| o != v) == Some(true) {
                    torn = Some(format!("copy at {:?}", c));
                }
                honest[n] = Some(v);
            }
        }
        let ren = |i: usize, up: &mut Vec<usize>| num[&root(up, i)];
        fn rename<F: Clone>(n: &mut Node<F>, f: &mut dyn FnMut(usize) -> usize) {
            match n {
                K(_) => {}
                V(v) => *v = f(*v),
                Add(a, b) | Mul(a, b) => {
                    rename(a, f);
                    rename(b, f);
                }
                Scale(a, _) => rename(a, f),
            }
        }
        let cons = cons
            .into_iter()
            .map(|(name, mut parts, table)| {
                let mut vs = BTreeSet::new();
                for p in parts.iter_mut() {
                    rename(p, &mut |i| ren(i, &mut up));
                    vars_of(p, &mut vs);
                }
                Con { name, parts, table, vars: vs.into_iter().collect() }
            })
            .collect();
        let vis = vis.iter().map(|i| ren(*i, &mut up)).collect();
        Ok(Sys { cons, vis, honest, torn, known })
    }

    pub fn eval(n: &Node<F>, a: &[Option<F>]) -> F {
        match n {
            K(x) => *x,
            V(v) => a[*v].unwrap_or(F::zero()),
            Add(x, y) => Self::eval(x, a) + Self::eval(y, a),
            Mul(x, y) => {
                let p = Self::eval(x, a);
                if p == F::zero() {
                    p
                } else {
                    p * Self::eval(y, a)
                }
            }
            Scale(x, s) => Self::eval(x, a) * *s,
        }
    }
    pub fn holds(c: &Con<F>, a: &[Option<F>]) -> bool {
        match &c.table {
            None => Self::eval(&c.parts[0], a) == F::zero(),
            Some(t) => t.contains(&c.parts.iter().map(|p| Self::eval(p, a)).collect::<Vec<F>>()),
        }
    }
    /// The values the witness code gave to the visible cells; an error if its table breaks a constraint.
    pub fn honest(&self) -> Result<Vec<F>, String> {
        if let Some(t) = &self.torn {
            return Err(t.clone());
        }
        let mut a = self.honest.clone();
        for (x, k) in a.iter_mut().zip(&self.known) {
            if k.is_some() {
                *x = *k;
            }
        }
        match self.cons.iter().find(|c| !Self::holds(c, &a)) {
            Some(c) => Err(c.name.clone()),
            None => Ok(self.vis.iter().map(|v| a[*v].unwrap_or(F::zero())).collect()),
        }
    }

    /// Every tuple of visible values, the first ones given, that some table can carry.
    pub fn solutions(&self, first: &[F], elems: &[F], limit: usize) -> Option<BTreeSet<Vec<F>>> {
        let mut a = self.known.clone();
        let mut out = BTreeSet::new();
        for (v, x) in self.vis.iter().zip(first) {
            if a[*v].map(|o| o != *x) == Some(true) {
                return Some(out);
            }
            a[*v] = Some(*x);
        }
        for c in &self.cons {
            if c.vars.iter().all(|v| a[*v].is_some()) && !Self::holds(c, &a) {
                return Some(out);
            }
        }
        let mut by: Vec<Vec<usize>> = vec![vec![]; a.len()];
        for (i, c) in self.cons.iter().enumerate() {
            for v in &c.vars {
                by[*v].push(i);
            }
        }
        let mut left: Vec<usize> = self.cons.iter().map(|c| c.vars.iter().filter(|v| a[**v].is_none()).count()).collect();
        let mut budget = limit;
        if self.go(&mut a, &mut left, &by, elems, &mut out, &mut budget) {
            Some(out)
        } else {
            None
        }
    }
    fn go(&self, a: &mut Vec<Option<F>>, left: &mut Vec<usize>, by: &[Vec<usize>], elems: &[F], out: &mut BTreeSet<Vec<F>>, budget: &mut usize) -> bool {
        let least = left.iter().copied().filter(|n| *n > 0).min().unwrap_or(0);
        let open = |i: usize| self.cons[i].vars.iter().copied().filter(|v| a[*v].is_none());
        let next = if least < 2 {
            left.iter().position(|n| *n == least && *n > 0)
        } else {
            // the unknowns of a constraint that the most constraints pin down
            let near = |i: usize| {
                let own: Vec<usize> = open(i).collect();
                let mut js: Vec<usize> = own.iter().flat_map(|v| by[*v].iter().copied()).filter(|j| left[*j] > 0 && open(*j).all(|v| own.contains(&v))).collect();
                js.sort_unstable();
                js.dedup();
                js.len() as i64 - own.len() as i64
            };
            (0..left.len()).filter(|i| left[*i] > 0).max_by_key(|i| (near(*i), -(left[*i] as i64)))
        };
        let v = match next {
            Some(i) => *self.cons[i].vars.iter().find(|v| a[**v].is_none()).unwrap(),
            None => match self.vis.iter().find(|v| a[**v].is_none()) {
                Some(v) => *v,
                None => {
                    out.insert(self.vis.iter().map(|v| a[*v].unwrap()).collect());
                    return true;
                }
            },
        };
        for i in &by[v] {
            left[*i] -= 1;
        }
        let mut fine = true;
        for x in elems {
            if *budget == 0 {
                fine = false;
                break;
            }
            *budget -= 1;
            a[v] = Some(*x);
            if by[v].iter().all(|i| left[*i] > 0 || Self::holds(&self.cons[*i], a)) && !self.go(a, left, by, elems, out, budget) {
                fine = false;
                break;
            }
        }
        a[v] = None;
        for i in &by[v] {
            left[*i] += 1;
        }
        fine
    }
}

/// Linear rows, solved: which of the wanted unknowns are forced to zero.
fn loose<F: FieldExt>(mut rows: Vec<BTreeMap<usize, F>>, n: usize, want: &[usize]) -> Vec<usize> {
    let mut gone = vec![false; n];
    // single unknowns first
    let mut by: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, r) in rows.iter().enumerate() {
        for v in r.keys() {
            by[*v].push(i);
        }
    }
    let mut todo: Vec<usize> = (0..rows.len()).filter(|i| rows[*i].len() == 1).collect();
    while let Some(i) = todo.pop() {
        let v = match rows[i].keys().next() {
            Some(v) if rows[i].len() == 1 => *v,
            _ => continue,
        };
        gone[v] = true;
        for j in by[v].clone() {
            rows[j].remove(&v);
            if rows[j].len() == 1 {
                todo.push(j);
            }
        }
    }
    if want.iter().all(|v| gone[*v]) {
        return vec![];
    }
    // what is left, by elimination
    let mut rest: Vec<BTreeMap<usize, F>> = rows.into_iter().filter(|r| !r.is_empty()).collect();
    let mut done: Vec<(usize, BTreeMap<usize, F>)> = vec![];
    while let Some(i) = (0..rest.len()).min_by_key(|i| rest[*i].len()) {
        let mut r = rest.swap_remove(i);
        let p = match r.keys().find(|v| !want.contains(v)).or(r.keys().next()) {
            Some(p) => *p,
            None => continue,
        };
        let inv = r[&p].invert().unwrap();
        r.values_mut().for_each(|x| *x *= inv);
        let clear = |q: &mut BTreeMap<usize, F>| {
            if let Some(k) = q.get(&p).copied() {
                for (v, x) in &r {
                    let y = q.entry(*v).or_insert(F::zero());
                    *y -= k * x;
                    if *y == F::zero() {
                        q.remove(v);
                    }
                }
            }
        };
        rest.iter_mut().for_each(|q| clear(q));
        done.iter_mut().for_each(|(_, q)| clear(q));
        rest.retain(|q| !q.is_empty());
        done.push((p, r));
    }
    let forced: HashSet<usize> = done.iter().filter(|(_, r)| r.len() == 1).map(|(p, _)| *p).collect();
    want.iter().copied().filter(|v| !gone[*v] && !forced.contains(v)).collect()
}

impl<F: FieldExt + Ord> Sys<F> {
    fn grad(n: &Node<F>, a: &[Option<F>]) -> (F, BTreeMap<usize, F>) {
        match n {
            K(x) => (*x, BTreeMap::new()),
            V(v) => (a[*v].unwrap_or(F::zero()), BTreeMap::from([(*v, F::one())])),
            Add(x, y) => {
                let ((p, mut g), (q, h)) = (Self::grad(x, a), Self::grad(y, a));
                for (v, k) in h {
                    *g.entry(v).or_insert(F::zero()) += k;
                }
                (p + q, g)
            }
            Mul(x, y) => {
                let ((p, g), (q, h)) = (Self::grad(x, a), Self::grad(y, a));
                let mut r = BTreeMap::new();
                for (v, k) in g {
                    *r.entry(v).or_insert(F::zero()) += k * q;
                }
                for (v, k) in h {
                    *r.entry(v).or_insert(F::zero()) += k * p;
                }
                (p * q, r)
            }
            Scale(x, s) => {
                let (p, mut g) = Self::grad(x, a);
                g.values_mut().for_each(|k| *k *= s);
                (p * s, g)
            }
        }
    }
    /// The visible cells, apart from the first `given`, that could move a little while everything the constraints say
    /// at the assigned table goes on holding (to first order). Cells looked up in a table cannot move.
    pub fn movable(&self, given: usize) -> Vec<usize> {
        let mut a = self.honest.clone();
        for (x, k) in a.iter_mut().zip(&self.known) {
            if k.is_some() {
                *x = *k;
            }
        }
        let mut fixed: Vec<bool> = self.known.iter().map(|k| k.is_some()).collect();
        for v in &self.vis[..given] {
            fixed[*v] = true;
        }
        let mut rows = vec![];
        for c in &self.cons {
            for p in &c.parts {
                let (_, mut g) = Self::grad(p, &a);
                g.retain(|v, k| !fixed[*v] && *k != F::zero());
                if !g.is_empty() {
                    rows.push(g);
                }
            }
        }
        let want: Vec<usize> = self.vis[given..].iter().copied().filter(|v| !fixed[*v]).collect();
        let l = loose(rows, a.len(), &want);
        (given..self.vis.len()).filter(|i| l.contains(&self.vis[*i])).collect()
    }
    /// The same system over another field, if its constants have a meaning there.
    pub fn translate<E: FieldExt + Ord>(&self, f: &dyn Fn(F) -> Option<E>) -> Option<Sys<E>> {
        fn node<F: FieldExt, E: FieldExt>(n: &Node<F>, f: &dyn Fn(F) -> Option<E>) -> Option<Node<E>> {
            Some(match n {
                K(x) => K(f(*x)?),
                V(v) => V(*v),
                Add(x, y) => Add(Box::new(node(x, f)?), Box::new(node(y, f)?)),
                Mul(x, y) => Mul(Box::new(node(x, f)?), Box::new(node(y, f)?)),
                Scale(x, s) => Scale(Box::new(node(x, f)?), f(*s)?),
            })
        }
        let mut cons = vec![];
        for c in &self.cons {
            let table = match &c.table {
                None => None,
                Some(t) => Some(Arc::new(t.iter().map(|r| r.iter().map(|x| f(*x)).collect::<Option<Vec<E>>>()).collect::<Option<BTreeSet<Vec<E>>>>()?)),
            };
            cons.push(Con { name: c.name.clone(), parts: c.parts.iter().map(|n| node(n, f)).collect::<Option<Vec<_>>>()?, table, vars: c.vars.clone() });
        }
        let known = self.known.iter().map(|k| match k { None => Some(None), Some(x) => f(*x).map(Some) }).collect::<Option<Vec<_>>>()?;
        Some(Sys { cons, vis: self.vis.clone(), honest: vec![None; self.honest.len()], torn: None, known })
    }
}

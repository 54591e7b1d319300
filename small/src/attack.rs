//! A dishonest prover. Given the visible inputs, it fills the remaining cells by solving the recorded constraints one unknown
//! (or one pair of unknowns) at a time; where several values are possible it takes one of its `hints` first, and it goes back when stuck.
//! Whatever it returns satisfies every constraint, so a result other than the specified one is a forgery. It may fail to find one.
use crate::cells::*;
use halo2curves::FieldExt;
use std::collections::{BTreeMap, BTreeSet};

type Poly<F> = Vec<F>;
fn trim<F: FieldExt>(mut p: Poly<F>) -> Poly<F> {
    while p.last().map(|x| *x == F::zero()) == Some(true) {
        p.pop();
    }
    p
}
fn mulp<F: FieldExt>(a: &[F], b: &[F]) -> Poly<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    trim(r)
}
/// The node as a polynomial in its only unknown.
fn uni<F: FieldExt>(n: &Node<F>, a: &[Option<F>]) -> Poly<F> {
    match n {
        Node::K(x) => trim(vec![*x]),
        Node::V(v) => trim(match a[*v] {
            Some(x) => vec![x],
            None => vec![F::zero(), F::one()],
        }),
        Node::Add(x, y) => {
            let (mut p, q) = (uni(x, a), uni(y, a));
            if p.len() < q.len() {
                p.resize(q.len(), F::zero());
            }
            for (i, y) in q.iter().enumerate() {
                p[i] += *y;
            }
            trim(p)
        }
        Node::Mul(x, y) => mulp(&uni(x, a), &uni(y, a)),
        Node::Scale(x, s) => uni(x, a).iter().map(|c| *c * s).collect(),
    }
}
/// Roots; None if every value is one.
fn roots<F: FieldExt>(n: &Node<F>, a: &[Option<F>], guess: &[F]) -> Option<Vec<F>> {
    match n {
        Node::Mul(x, y) => {
            let (mut r, s) = (roots(x, a, guess)?, roots(y, a, guess)?);
            r.extend(s);
            return Some(r);
        }
        Node::Scale(x, _) => return roots(x, a, guess),
        _ => {}
    }
    let p = uni(n, a);
    match p.len() {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![-p[0] * p[1].invert().unwrap()]),
        3 => {
            let d = p[1].square() - F::from(4) * p[0] * p[2];
            let i = (p[2] + p[2]).invert().unwrap();
            Some(match Option::<F>::from(d.sqrt()) {
                Some(s) => vec![(s - p[1]) * i, (-s - p[1]) * i],
                None => vec![],
            })
        }
        _ => Some(guess.iter().copied().filter(|g| p.iter().rev().fold(F::zero(), |s, c| s * g + c) == F::zero()).collect()),
    }
}
type Mono = Vec<(usize, u32)>;
fn multi<F: FieldExt>(n: &Node<F>, a: &[Option<F>]) -> BTreeMap<Mono, F> {
    let mut r: BTreeMap<Mono, F> = BTreeMap::new();
    match n {
        Node::K(x) => {
            r.insert(vec![], *x);
        }
        Node::V(v) => {
            match a[*v] {
                Some(x) => r.insert(vec![], x),
                None => r.insert(vec![(*v, 1)], F::one()),
            };
        }
        Node::Add(x, y) => {
            r = multi(x, a);
            for (m, c) in multi(y, a) {
                *r.entry(m).or_insert(F::zero()) += c;
            }
        }
        Node::Mul(x, y) => {
            let (p, q) = (multi(x, a), multi(y, a));
            for (m, c) in &p {
                for (k, d) in &q {
                    let mut e: BTreeMap<usize, u32> = m.iter().copied().collect();
                    for (v, x) in k {
                        *e.entry(*v).or_insert(0) += x;
                    }
                    *r.entry(e.into_iter().collect()).or_insert(F::zero()) += *c * d;
                }
            }
        }
        Node::Scale(x, s) => {
            r = multi(x, a);
            r.values_mut().for_each(|c| *c *= s);
        }
    }
    r.retain(|_, c| *c != F::zero());
    r
}
fn only<F: FieldExt>(r: &BTreeMap<Mono, F>) -> Option<(usize, Poly<F>)> {
    let vs: BTreeSet<usize> = r.keys().flatten().map(|x| x.0).collect();
    if vs.len() != 1 {
        return None;
    }
    let mut p = vec![];
    for (m, c) in r {
        let e = m.first().map(|x| x.1 as usize).unwrap_or(0);
        if p.len() <= e {
            p.resize(e + 1, F::zero());
        }
        p[e] = *c;
    }
    Some((*vs.iter().next().unwrap(), p))
}
fn size<F: FieldExt>(x: F) -> Vec<u8> {
    let mut b = x.to_repr().as_ref().to_vec();
    b.reverse();
    b
}

/// Unknowns that are multiplied with unknowns.
fn products<F: FieldExt>(n: &Node<F>, a: &[Option<F>], inside: bool, r: &mut BTreeSet<usize>) {
    fn any<F: FieldExt>(n: &Node<F>, a: &[Option<F>]) -> bool {
        match n {
            Node::K(_) => false,
            Node::V(v) => a[*v].is_none(),
            Node::Add(x, y) | Node::Mul(x, y) => any(x, a) || any(y, a),
            Node::Scale(x, _) => any(x, a),
        }
    }
    match n {
        Node::K(_) => {}
        Node::Scale(x, _) => products(x, a, inside, r),
        Node::V(v) => {
            if inside {
                r.insert(*v);
            }
        }
        Node::Add(x, y) => {
            products(x, a, inside, r);
            products(y, a, inside, r);
        }
        Node::Mul(x, y) => {
            let inside = inside || (any(x, a) && any(y, a));
            products(x, a, inside, r);
            products(y, a, inside, r);
        }
    }
}
pub struct Attack<'a, F: FieldExt> {
    s: &'a Sys<F>,
    a: Vec<Option<F>>,
    left: Vec<usize>,
    by: Vec<Vec<usize>>,
    hints: Vec<F>,
    set: BTreeSet<F>,
    /// the table to imitate, where there is a choice
    like: &'a [Option<F>],
    fill: bool,
    hard: Option<BTreeSet<usize>>,
    queue: Vec<usize>,
    trail: Vec<usize>,
}
enum Step<F> {
    Dead,
    Choice(usize, Vec<F>),
    Done,
}
impl<'a, F: FieldExt + Ord> Attack<'a, F> {
    fn set(&mut self, v: usize, x: F) {
        self.a[v] = Some(x);
        self.trail.push(v);
        for i in &self.by[v] {
            self.left[*i] -= 1;
            self.queue.push(*i);
        }
    }
    fn undo(&mut self, n: usize) {
        while self.trail.len() > n {
            let v = self.trail.pop().unwrap();
            self.a[v] = None;
            for i in &self.by[v] {
                self.left[*i] += 1;
            }
        }
        self.queue.clear();
    }
    fn ways(&self, v: usize) -> Vec<F> {
        let mut r: Vec<F> = self.like[v].iter().chain(self.s.honest[v].iter()).copied().collect();
        r.push(F::zero());
        r.dedup();
        r
    }
    fn wanted(&self, v: usize, x: &F) -> bool {
        if self.fill {
            self.like[v] == Some(*x)
        } else {
            self.set.contains(x)
        }
    }
    fn candidates(&self, i: usize) -> Option<(usize, Vec<F>)> {
        let c = &self.s.cons[i];
        let v = *c.vars.iter().find(|v| self.a[**v].is_none())?;
        let mut xs = match &c.table {
            None => {
                let mut guess = self.hints.clone();
                guess.extend(self.s.honest[v]);
                guess.extend(self.like[v]);
                roots(&c.parts[0], &self.a, &guess)?
            }
            Some(t) => {
                let ps: Vec<Poly<F>> = c.parts.iter().map(|p| uni(p, &self.a)).collect();
                let k = ps.iter().position(|p| p.len() == 2);
                let k = match k {
                    Some(k) if ps.iter().all(|p| p.len() <= 2) => k,
                    _ => return if ps.iter().all(|p| p.len() < 2) { if Sys::holds(c, &self.a) { None } else { Some((v, vec![])) } } else { None },
                };
                let inv = ps[k][1].invert().unwrap();
                let at = |p: &Poly<F>, x: F| p.iter().rev().fold(F::zero(), |s, c| s * x + c);
                t.iter().map(|r| (r, (r[k] - ps[k][0]) * inv)).filter(|(r, x)| ps.iter().zip(r.iter()).all(|(p, y)| at(p, *x) == *y)).map(|x| x.1).collect()
            }
        };
        xs.sort();
        xs.dedup();
        // the most wanted first
        xs.sort_by_key(|x| (!self.wanted(v, x), size(*x)));
        Some((v, xs))
    }
    /// Follow everything that is forced; stop at the first choice.
    fn step(&mut self, skip: &mut BTreeSet<usize>) -> Step<F> {
        loop {
            while let Some(i) = self.queue.pop() {
                if self.left[i] == 0 {
                    if !Sys::holds(&self.s.cons[i], &self.a) {
                        return Step::Dead;
                    }
                } else if self.left[i] == 1 {
                    if let Some((v, xs)) = self.candidates(i) {
                        match xs.len() {
                            0 => return Step::Dead,
                            1 => self.set(v, xs[0]),
                            _ => {}
                        }
                    }
                }
            }
            // a choice: where the hints say what to take, then where there is little to choose from
            let mut wide: Option<((bool, usize), usize, Vec<F>)> = None;
            for i in 0..self.left.len() {
                if self.left[i] == 1 && !skip.contains(&i) {
                    if let Some((v, xs)) = self.candidates(i) {
                        if xs.len() < 2 {
                            self.queue.push(i);
                            break;
                        }
                        let key = (xs.iter().filter(|x| self.wanted(v, x)).count() != 1, xs.len());
                        if wide.as_ref().map(|w| w.0 > key) != Some(false) {
                            wide = Some((key, v, xs));
                            if key == (false, 2) {
                                break;
                            }
                        }
                    } else {
                        skip.insert(i);
                    }
                }
            }
            if !self.queue.is_empty() {
                continue;
            }
            if let Some((_, v, xs)) = wide {
                return Step::Choice(v, xs);
            }
            // equations in two or three unknowns, some of them only apparent; also from tables where only one row is left
            let mut polys: Vec<BTreeMap<Mono, F>> = vec![];
            let mut few: Option<(usize, Vec<F>)> = None;
            for i in 0..self.left.len() {
                let c = &self.s.cons[i];
                match &c.table {
                    None if self.left[i] == 2 || self.left[i] == 3 => polys.push(multi(&c.parts[0], &self.a)),
                    Some(t) if self.left[i] >= 2 && self.left[i] <= 5 && c.parts.len() > 1 => {
                        let ps: Vec<BTreeMap<Mono, F>> = c.parts.iter().map(|p| multi(p, &self.a)).collect();
                        let fixed: Vec<(usize, F)> = ps.iter().enumerate().filter(|(_, p)| p.keys().all(|m| m.is_empty())).map(|(k, p)| (k, p.values().next().copied().unwrap_or(F::zero()))).collect();
                        if fixed.is_empty() {
                            continue;
                        }
                        let rows: Vec<&Vec<F>> = t.iter().filter(|r| fixed.iter().all(|(k, x)| r[*k] == *x)).take(9).collect();
                        match rows.len() {
                            0 => return Step::Dead,
                            1 => {
                                for (k, mut p) in ps.into_iter().enumerate() {
                                    *p.entry(vec![]).or_insert(F::zero()) -= rows[0][k];
                                    p.retain(|_, c| *c != F::zero());
                                    polys.push(p);
                                }
                            }
                            n if n < 9 => {
                                for (k, p) in ps.iter().enumerate() {
                                    if let Some((v, q)) = only(p) {
                                        if q.len() == 2 && few.is_none() {
                                            let inv = q[1].invert().unwrap();
                                            few = Some((v, rows.iter().map(|r| (r[k] - q[0]) * inv).collect()));
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                    _ => {}
                }
            }
            let mut found = None;
            for p in &polys {
                if let Some((v, p)) = only(p) {
                    if p.len() == 2 {
                        found = Some((v, -p[0] * p[1].invert().unwrap()));
                        break;
                    }
                }
            }
            if let Some((v, x)) = found {
                self.set(v, x);
                continue;
            }
            // two of them on the same unknowns
            let mut two: BTreeMap<BTreeSet<usize>, Vec<usize>> = BTreeMap::new();
            for (i, p) in polys.iter().enumerate() {
                two.entry(p.keys().flatten().map(|x| x.0).collect()).or_default().push(i);
            }
            'all: for (_, is) in two.iter().filter(|x| x.1.len() > 1 && x.0.len() > 1) {
                for x in is {
                    for y in is {
                        if x == y {
                            continue;
                        }
                        if let Some((m, c)) = polys[*x].iter().find(|(m, _)| m.len() > 1) {
                            if let Some(d) = polys[*y].get(m) {
                                let mut r = polys[*x].clone();
                                let k = *c * d.invert().unwrap();
                                for (m, e) in &polys[*y] {
                                    *r.entry(m.clone()).or_insert(F::zero()) -= k * e;
                                }
                                r.retain(|_, c| *c != F::zero());
                                if let Some((v, p)) = only(&r) {
                                    if p.len() == 2 {
                                        found = Some((v, -p[0] * p[1].invert().unwrap()));
                                        break 'all;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if let Some((v, x)) = found {
                self.set(v, x);
                continue;
            }
            if let Some((v, mut xs)) = few {
                xs.sort_by_key(|x| (!self.wanted(v, x), size(*x)));
                xs.dedup();
                return Step::Choice(v, xs);
            }
            // anything unknown, first where the table to imitate is not the honest one
            if self.hard.is_none() {
                let mut r = BTreeSet::new();
                for c in &self.s.cons {
                    for p in &c.parts {
                        products(p, &self.a, false, &mut r);
                    }
                }
                self.hard = Some(r);
            }
            let hard = self.hard.as_ref().unwrap();
            let same = |v: usize| (self.like[v] == self.s.honest[v], hard.contains(&v));
            let next = (0..self.left.len())
                .filter(|i| self.left[*i] > 0)
                .filter_map(|i| self.s.cons[i].vars.iter().copied().filter(|v| self.a[*v].is_none()).min_by_key(|v| same(*v)).map(|v| (same(v), self.left[i], i, v)))
                .min()
                .map(|x| x.3);
            return match next {
                None => Step::Done,
                Some(v) => Step::Choice(v, self.ways(v)),
            };
        }
    }
    /// The visible values of a satisfying table found with these hints, if any.
    pub fn run(s: &'a Sys<F>, given: usize, first: &[F], hints: Vec<F>, like: &'a [Option<F>], budget: usize) -> Option<Vec<F>> {
        let mut by: Vec<Vec<usize>> = vec![vec![]; s.known.len()];
        for (i, c) in s.cons.iter().enumerate() {
            for v in &c.vars {
                by[*v].push(i);
            }
        }
        let left = s.cons.iter().map(|c| c.vars.len()).collect();
        let mut t = Attack { s, a: vec![None; s.known.len()], left, by, set: hints.iter().copied().collect(), fill: hints.is_empty(), hard: None, like, hints, queue: (0..s.cons.len()).collect(), trail: vec![] };
        for (v, k) in s.known.iter().enumerate() {
            if let Some(k) = k {
                t.set(v, *k);
            }
        }
        for (v, x) in s.vis[..given].iter().zip(first) {
            if t.a[*v].is_none() {
                t.set(*v, *x);
            } else if t.a[*v] != Some(*x) {
                return None;
            }
        }
        let mut stack: Vec<(usize, usize, Vec<F>)> = vec![];
        let mut skip = BTreeSet::new();
        let mut budget = budget;
        let end = std::time::Instant::now() + std::time::Duration::from_secs(15);
        loop {
            // a search that takes too long has found nothing
            if std::time::Instant::now() > end {
                return None;
            }
            match t.step(&mut skip) {
                Step::Done => {
                    if s.cons.iter().all(|c| Sys::holds(c, &t.a)) && s.vis.iter().all(|v| t.a[*v].is_some()) {
                        return Some(s.vis.iter().map(|v| t.a[*v].unwrap()).collect());
                    }
                    return None;
                }
                Step::Choice(v, mut xs) => {
                    xs.truncate(8);
                    xs.reverse();
                    let x = xs.pop().unwrap();
                    stack.push((t.trail.len(), v, xs));
                    t.set(v, x);
                }
                Step::Dead => loop {
                    skip.clear();
                    if budget == 0 {
                        return None;
                    }
                    budget -= 1;
                    let (n, v, mut xs) = stack.pop()?;
                    t.undo(n);
                    if let Some(x) = xs.pop() {
                        stack.push((n, v, xs));
                        t.set(v, x);
                        break;
                    }
                },
            }
        }
    }
}

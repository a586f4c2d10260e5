// A constraint system that records every wire and constraint, and lets a test
// change wires: `forge` fixes the wires it is given and repairs the others.
#![allow(dead_code, unused_imports)]
use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::{Field, PrimeField};
use std::collections::{HashMap, HashSet};

type Lc<F> = Vec<(usize, F)>;
pub struct Rec<F: PrimeField> {
    pub vals: Vec<F>,
    pub inputs: Vec<usize>,
    pub aux: Vec<usize>,
    pub cons: Vec<[Lc<F>; 3]>,
}
impl<F: PrimeField> Rec<F> {
    pub fn new() -> Self {
        Rec { vals: vec![F::ONE], inputs: vec![0], aux: vec![], cons: vec![] }
    }
    pub fn id(&self, v: Variable) -> usize {
        match v.get_unchecked() {
            Index::Input(i) => self.inputs[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    fn lc(&self, lc: LinearCombination<F>) -> Lc<F> {
        let mut m: Vec<(usize, F)> = vec![];
        for (v, c) in lc.iter() {
            let i = self.id(v);
            match m.iter_mut().find(|e| e.0 == i) {
                Some(e) => e.1 += *c,
                None => m.push((i, *c)),
            }
        }
        m.retain(|e| !bool::from(e.1.is_zero()));
        m
    }
    pub fn value_of(&self, lc: &LinearCombination<F>) -> F {
        ev(&self.lc(LinearCombination::zero() + lc), &self.vals)
    }
    pub fn satisfied(&self) -> bool {
        self.cons.iter().all(|c| holds(c, &self.vals))
    }
    /// Fixes `changes` and the wires `keep`, repairs the rest; the wires if it worked.
    pub fn forge(&self, changes: &[(usize, F)], keep: &[usize]) -> Option<Vec<F>> {
        let mut v = self.vals.clone();
        let mut fixed: HashSet<usize> = keep.iter().copied().collect();
        fixed.insert(0);
        for (i, x) in changes {
            v[*i] = *x;
            fixed.insert(*i);
        }
        let boolean: HashSet<usize> = self.cons.iter().filter(|c| c[2].is_empty()).filter_map(|c| {
            let w: HashSet<usize> = c[0].iter().chain(c[1].iter()).map(|e| e.0).filter(|i| *i != 0).collect();
            if w.len() != 1 { return None; }
            let w = *w.iter().next().unwrap();
            let at = |x: F| { let g = |l: &Lc<F>| l.iter().fold(F::ZERO, |a, e| a + e.1 * if e.0 == 0 { F::ONE } else { x }); g(&c[0]) * g(&c[1]) };
            if bool::from(at(F::ZERO).is_zero() & at(F::ONE).is_zero() & !at(F::ONE.double()).is_zero()) { Some(w) } else { None }
        }).collect();
        let mut uses: HashMap<usize, Vec<usize>> = HashMap::new();
        for (k, c) in self.cons.iter().enumerate() {
            for e in c.iter().flatten() { uses.entry(e.0).or_default().push(k); }
        }
        let mut todo: Vec<usize> = (0..self.cons.len()).rev().collect();
        let (mut later, mut progress) = (vec![], false);
        loop {
            let k = match todo.pop() {
                Some(k) => k,
                None if progress && !later.is_empty() => {
                    progress = false;
                    todo.append(&mut later);
                    continue;
                }
                None => break,
            };
            let c = &self.cons[k];
            if holds(c, &v) { continue; }
            let mut free: Vec<usize> = c.iter().flatten().map(|e| e.0).filter(|i| !fixed.contains(i)).collect();
            free.sort(); free.dedup(); free.reverse();
            let mut changed = vec![];
            // a bit decomposition: `sum = 0` or `sum is a bit`
            let lin = if c[2].is_empty() && sums_to_one(&c[0], &c[1]) { Some((c[0].clone(), true)) }
                else if c[0].is_empty() || c[1].is_empty() { Some((c[2].clone(), false)) }
                else if c[2].is_empty() && c[1].len() == 1 && c[1][0].0 == 0 { Some((c[0].clone(), false)) } else { None };
            if let Some((l, _)) = &lin {
                let bits: Vec<usize> = free.iter().copied().filter(|i| boolean.contains(i)).collect();
                if bits.len() > 1 || (bits.len() == 1 && free.len() == 1) {
                    for sign in [F::ONE, -F::ONE] {
                        let mut w = v.clone();
                        for b in &bits { w[*b] = F::ZERO; }
                        let rest = ev(l, &w) * sign;
                        let r = rest.to_repr();
                        let mut ok = true;
                        for b in &bits {
                            let co = l.iter().find(|e| e.0 == *b).unwrap().1 * (-sign);
                            match power(&co) {
                                Some(p) => w[*b] = if r.as_ref()[p / 8] >> (p % 8) & 1 == 1 { F::ONE } else { F::ZERO },
                                None => { ok = false; break; }
                            }
                        }
                        if ok && holds(c, &w) { changed = bits.clone(); v = w; break; }
                    }
                }
            }
            if let (true, Some((l, true))) = (changed.is_empty(), &lin) {
                if let Some(i) = free.iter().find(|i| !boolean.contains(i)) {
                    let co = l.iter().find(|e| e.0 == *i).unwrap().1;
                    v[*i] = F::ZERO;
                    v[*i] = -ev(l, &v) * co.invert().unwrap();
                    changed.push(*i);
                }
            }
            if changed.is_empty() {
                for i in &free {
                    let old = v[*i];
                    let mut f = |x: F| { v[*i] = x; ev(&c[0], &v) * ev(&c[1], &v) - ev(&c[2], &v) };
                    let (f0, f1, f2) = (f(F::ZERO), f(F::ONE), f(F::ONE.double()));
                    let slope = f1 - f0;
                    if bool::from((f2 - f1 - slope).is_zero()) && !bool::from(slope.is_zero()) {
                        let x = -f0 * slope.invert().unwrap();
                        if !boolean.contains(i) || bool::from((x * (x - F::ONE)).is_zero()) {
                            v[*i] = x;
                            changed.push(*i);
                            break;
                        }
                    }
                    v[*i] = old;
                }
            }
            if changed.is_empty() { later.push(k); continue; }
            progress = true;
            for i in changed {
                fixed.insert(i);
                for k in &uses[&i] { todo.push(*k); }
            }
        }
        if self.cons.iter().all(|c| holds(c, &v)) { Some(v) } else { None }
    }
}
fn power<F: PrimeField>(x: &F) -> Option<usize> {
    let r = x.to_repr();
    let on: Vec<usize> = (0..8 * r.as_ref().len()).filter(|i| r.as_ref()[i / 8] >> (i % 8) & 1 == 1).collect();
    if on.len() == 1 { Some(on[0]) } else { None }
}
fn sums_to_one<F: PrimeField>(a: &Lc<F>, b: &Lc<F>) -> bool {
    let mut m: HashMap<usize, F> = HashMap::new();
    for e in a.iter().chain(b.iter()) { *m.entry(e.0).or_insert(F::ZERO) += e.1; }
    m.iter().all(|(i, x)| *x == if *i == 0 { F::ONE } else { F::ZERO })
}
fn ev<F: PrimeField>(l: &Lc<F>, v: &[F]) -> F {
    l.iter().fold(F::ZERO, |a, e| a + e.1 * v[e.0])
}
fn holds<F: PrimeField>(c: &[Lc<F>; 3], v: &[F]) -> bool {
    ev(&c[0], v) * ev(&c[1], v) == ev(&c[2], v)
}
impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<G, A, AR>(&mut self, _: A, f: G) -> Result<Variable, SynthesisError>
    where G: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let x = f()?;
        self.vals.push(x);
        self.aux.push(self.vals.len() - 1);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<G, A, AR>(&mut self, _: A, f: G) -> Result<Variable, SynthesisError>
    where G: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let x = f()?;
        self.vals.push(x);
        self.inputs.push(self.vals.len() - 1);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, L3>(&mut self, _: A, a: LA, b: LB, c: L3)
    where A: FnOnce() -> AR, AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        L3: FnOnce(LinearCombination<F>) -> LinearCombination<F> {
        let c = [self.lc(a(LinearCombination::zero())), self.lc(b(LinearCombination::zero())), self.lc(c(LinearCombination::zero()))];
        self.cons.push(c);
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root { self }
}

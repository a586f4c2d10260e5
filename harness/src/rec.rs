//! A `ConstraintSystem` that records the whole rank-1 system: every wire, every constraint, and
//! (in witness mode) the assignment the code computed.  In shape mode no value closure is called.
use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;

/// linear combination over unified wire indices; wire 0 is the constant one
pub type SLc<F> = Vec<(usize, F)>;

#[derive(Clone)]
pub struct Con<F> {
    pub a: SLc<F>,
    pub b: SLc<F>,
    pub c: SLc<F>,
}

#[derive(Clone)]
pub struct Rec<F: PrimeField> {
    pub witness: bool,
    /// wire kind per unified index: true = public input (or ONE)
    pub is_input: Vec<bool>,
    pub vals: Vec<Option<F>>,
    inputs: Vec<usize>,
    aux: Vec<usize>,
    pub cons: Vec<Con<F>>,
    /// (path, number of constraints before / after) of top level namespaces
    depth: usize,
    pub top: Vec<(String, usize, usize, usize, usize)>,
    pub failed_alloc: bool,
}

impl<F: PrimeField> Rec<F> {
    pub fn make(witness: bool) -> Self {
        Rec {
            witness,
            is_input: vec![true],
            vals: vec![Some(F::ONE)],
            inputs: vec![0],
            aux: vec![],
            cons: vec![],
            depth: 0,
            top: vec![],
            failed_alloc: false,
        }
    }
    pub fn nwires(&self) -> usize {
        self.vals.len()
    }
    fn uni(&self, v: Variable) -> usize {
        match v.get_unchecked() {
            Index::Input(i) => self.inputs[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    pub fn conv(&self, lc: &LinearCombination<F>) -> SLc<F> {
        let mut v: Vec<(usize, F)> = lc
            .iter()
            .filter(|(_, c)| !bool::from(c.is_zero()))
            .map(|(v, c)| (self.uni(v), *c))
            .collect();
        v.sort_by_key(|x| x.0);
        let mut out: SLc<F> = vec![];
        for (i, c) in v {
            if let Some(l) = out.last_mut() {
                if l.0 == i {
                    l.1 += c;
                    continue;
                }
            }
            out.push((i, c));
        }
        out.retain(|x| !bool::from(x.1.is_zero()));
        out
    }
    pub fn eval(&self, lc: &SLc<F>) -> Option<F> {
        eval_with(lc, &self.vals)
    }
    /// index of the first unsatisfied (or unevaluable) constraint under the recorded assignment
    pub fn first_unsat(&self) -> Option<usize> {
        first_unsat(&self.cons, &self.vals)
    }
    pub fn satisfied(&self) -> bool {
        self.first_unsat().is_none()
    }
}
pub fn eval_with<F: PrimeField>(lc: &SLc<F>, vals: &[Option<F>]) -> Option<F> {
    let mut s = F::ZERO;
    for (i, c) in lc {
        s += vals[*i]? * c;
    }
    Some(s)
}
pub fn first_unsat<F: PrimeField>(cons: &[Con<F>], vals: &[Option<F>]) -> Option<usize> {
    for (k, c) in cons.iter().enumerate() {
        let ok = (|| Some(eval_with(&c.a, vals)? * eval_with(&c.b, vals)? == eval_with(&c.c, vals)?))();
        if ok != Some(true) {
            return Some(k);
        }
    }
    None
}

impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FF, A, AR>(&mut self, _a: A, f: FF) -> Result<Variable, SynthesisError>
    where
        FF: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { Some(f()?) } else { None };
        let u = self.vals.len();
        self.vals.push(v);
        self.is_input.push(false);
        self.aux.push(u);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FF, A, AR>(&mut self, _a: A, f: FF) -> Result<Variable, SynthesisError>
    where
        FF: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { Some(f()?) } else { None };
        let u = self.vals.len();
        self.vals.push(v);
        self.is_input.push(true);
        self.inputs.push(u);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _n: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let a = a(LinearCombination::zero());
        let b = b(LinearCombination::zero());
        let c = c(LinearCombination::zero());
        let con = Con { a: self.conv(&a), b: self.conv(&b), c: self.conv(&c) };
        self.cons.push(con);
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if self.depth == 0 {
            let name: String = n().into();
            let (w, c) = (self.vals.len(), self.cons.len());
            self.top.push((name, w, w, c, c));
        }
        self.depth += 1;
    }
    fn pop_namespace(&mut self) {
        self.depth -= 1;
        if self.depth == 0 {
            let (w, c) = (self.vals.len(), self.cons.len());
            let t = self.top.last_mut().unwrap();
            t.2 = w;
            t.4 = c;
        }
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

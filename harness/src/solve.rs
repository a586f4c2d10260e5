//! The adversarial prover ("forger"): given a recorded rank-1 system and some fixed wires, look for
//! an assignment of the remaining wires that satisfies every constraint.  Sound by construction:
//! `Sat` is only returned with a complete assignment that has been re-checked against every
//! constraint.  `Unsat` is a proof only if no incomplete branching was needed (`complete`).
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::rec::{eval_with, first_unsat, Con, SLc};
use ff::PrimeField;
use num_bigint::BigInt;
use rand::RngCore;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub enum Out<F> {
    Sat(Vec<F>),
    Unsat,
    Unknown,
}

pub struct Opts<'a, F> {
    pub max_nodes: usize,
    /// values to try first for a wire nothing determines
    pub hint: Option<&'a [Option<F>]>,
    /// enumerate all values 0..p for free wires (small fields)
    pub enumerate: Option<u64>,
}

#[derive(Clone)]
struct St<F> {
    vals: Vec<Option<F>>,
    /// wires known to be 0 or 1
    bit: Vec<bool>,
    /// wires known to be one of two other values
    dom: HashMap<usize, (F, F)>,
    active: Vec<usize>,
}
impl<F: PrimeField> St<F> {
    fn two(&self, w: usize) -> Option<(F, F)> {
        if self.bit[w] {
            Some((F::ZERO, F::ONE))
        } else {
            self.dom.get(&w).cloned()
        }
    }
    /// v is possible for w
    fn may(&self, w: usize, v: &F) -> bool {
        match self.two(w) {
            Some((a, b)) => *v == a || *v == b,
            None => true,
        }
    }
}

pub struct Solver<'a, F: PrimeField> {
    cons: Vec<Con<F>>,
    occ: Vec<Vec<usize>>,
    n0: usize,
    orig: &'a [Con<F>],
    p: BigInt,
    nodes: usize,
    max_nodes: usize,
    /// propagations left for refuting single values
    probes: usize,
    incomplete: bool,
    hint: Vec<Option<F>>,
    enumerate: Option<u64>,
}

fn rb<F: PrimeField>(f: &F) -> Vec<u8> {
    f.to_repr().as_ref().to_vec()
}
fn is0<F: PrimeField>(f: &F) -> bool {
    bool::from(f.is_zero())
}

fn split<F: PrimeField>(l: &SLc<F>, vals: &[Option<F>]) -> (F, SLc<F>) {
    let mut k = F::ZERO;
    let mut u = vec![];
    for (i, c) in l {
        match vals[*i] {
            Some(v) => k += v * c,
            None => u.push((*i, *c)),
        }
    }
    (k, u)
}
fn addl<F: PrimeField>(a: &SLc<F>, b: &SLc<F>, s: F) -> SLc<F> {
    let mut m: BTreeMap<usize, F> = BTreeMap::new();
    for (i, c) in a {
        *m.entry(*i).or_insert(F::ZERO) += *c;
    }
    for (i, c) in b {
        *m.entry(*i).or_insert(F::ZERO) += *c * s;
    }
    m.into_iter().filter(|x| !is0(&x.1)).collect()
}
fn big<F: PrimeField>(f: &F) -> num_bigint::BigUint {
    num_bigint::BigUint::from_bytes_le(f.to_repr().as_ref())
}
fn sqrt<F: PrimeField>(v: F) -> Option<F> {
    if is0(&v) {
        return Some(F::ZERO);
    }
    if F::NUM_BITS <= 20 {
        let p = (big(&(F::ZERO - F::ONE)) + 1u8).to_u64_digits()[0];
        let mut x = F::ZERO;
        for _ in 0..p {
            if x.square() == v {
                return Some(x);
            }
            x += F::ONE;
        }
        return None;
    }
    // Tonelli-Shanks, generic
    let p1 = big(&(F::ZERO - F::ONE)); // p-1
    let half: num_bigint::BigUint = &p1 >> 1;
    let pw = |b: F, e: &num_bigint::BigUint| -> F {
        let d = e.to_u64_digits();
        b.pow_vartime(&d)
    };
    if pw(v, &half) != F::ONE {
        return None;
    }
    let mut s = 0u32;
    let mut q = p1.clone();
    while !q.bit(0) {
        q >>= 1;
        s += 1;
    }
    let mut z = F::ONE + F::ONE;
    while pw(z, &half) == F::ONE {
        z += F::ONE;
    }
    let mut m = s;
    let mut c = pw(z, &q);
    let mut t = pw(v, &q);
    let mut r = pw(v, &((&q + 1u8) >> 1));
    while t != F::ONE {
        let mut i = 0;
        let mut tt = t;
        while tt != F::ONE {
            tt = tt.square();
            i += 1;
            if i == m {
                return None;
            }
        }
        let mut b = c;
        for _ in 0..(m - i - 1) {
            b = b.square();
        }
        m = i;
        c = b.square();
        t *= c;
        r *= b;
    }
    if r.square() == v {
        Some(r)
    } else {
        None
    }
}
/// roots of q2 x^2 + q1 x + q0
fn roots<F: PrimeField>(q2: F, q1: F, q0: F) -> Option<Vec<F>> {
    if is0(&q2) {
        if is0(&q1) {
            return if is0(&q0) { None } else { Some(vec![]) };
        }
        return Some(vec![-q0 * q1.invert().unwrap()]);
    }
    let four = F::from(4);
    let disc = q1.square() - four * q2 * q0;
    match sqrt(disc) {
        None => Some(vec![]),
        Some(s) => {
            let d = (q2 + q2).invert().unwrap();
            let r1 = (s - q1) * d;
            let r2 = (-s - q1) * d;
            Some(if r1 == r2 { vec![r1] } else { vec![r1, r2] })
        }
    }
}

enum Prop {
    Ok,
    Conflict,
}

impl<'a, F: PrimeField> Solver<'a, F> {
    pub fn run(cons: &'a [Con<F>], nw: usize, fixed: &[Option<F>], opts: Opts<'a, F>, rng: &mut impl RngCore) -> Out<F> {
        // the search is not trusted: where it fails, the question stays open
        match catch_unwind(AssertUnwindSafe(|| Self::start(cons, nw, fixed, opts, rng, false))) {
            Ok(Err(o)) => o,
            _ => Out::Unknown,
        }
    }
    /// what the fixed wires force (None: nothing is possible)
    pub fn forced(cons: &'a [Con<F>], nw: usize, fixed: &[Option<F>], rng: &mut impl RngCore) -> Option<Vec<Option<F>>> {
        match catch_unwind(AssertUnwindSafe(|| Self::start(cons, nw, fixed, Opts { max_nodes: 1, hint: None, enumerate: None }, rng, true))) {
            Ok(r) => r.ok(),
            Err(_) => Some(fixed.to_vec()),
        }
    }
    fn start(
        cons: &'a [Con<F>],
        nw: usize,
        fixed: &[Option<F>],
        opts: Opts<'a, F>,
        rng: &mut impl RngCore,
        root_only: bool,
    ) -> Result<Vec<Option<F>>, Out<F>> {
        let mut cs: Vec<Con<F>> = vec![];
        let mut n = nw;
        let mut hint: Vec<Option<F>> = opts.hint.map(|h| h.to_vec()).unwrap_or(vec![None; nw]);
        hint.resize(nw, None);
        // A*(1-A)=0 with A of several terms: introduce t=A, t boolean
        for c in cons {
            if c.c.is_empty() && c.a.len() > 1 {
                let s = addl(&c.a, &c.b, F::ONE); // = 1 ?
                if s.len() == 1 && s[0].0 == 0 && s[0].1 == F::ONE {
                    let t = n;
                    n += 1;
                    hint.push(c.a.iter().try_fold(F::ZERO, |s, (i, x)| {
                        Some(s + fixed[*i].or_else(|| hint[*i])? * x)
                    }));
                    let mut a = c.a.clone();
                    a.push((t, -F::ONE));
                    cs.push(Con { a, b: vec![(0, F::ONE)], c: vec![] });
                    cs.push(Con { a: vec![(t, F::ONE)], b: vec![(0, F::ONE), (t, -F::ONE)], c: vec![] });
                    continue;
                }
            }
            cs.push(c.clone());
        }
        let mut occ = vec![vec![]; n];
        for (k, c) in cs.iter().enumerate() {
            for (i, _) in c.a.iter().chain(&c.b).chain(&c.c) {
                if *i != 0 {
                    occ[*i].push(k);
                }
            }
        }
        for o in &mut occ {
            o.dedup();
        }
        let mut vals = fixed.to_vec();
        vals.resize(n, None);
        vals[0] = Some(F::ONE);
        let active = (0..cs.len()).collect();
        let mut s = Solver {
            cons: cs,
            occ,
            n0: nw,
            orig: cons,
            p: BigInt::from(big(&(F::ZERO - F::ONE)) + 1u8),
            nodes: 0,
            probes: 400,
            max_nodes: opts.max_nodes,
            incomplete: false,
            hint,
            enumerate: opts.enumerate,
        };
        let st = St { vals, bit: vec![false; n], dom: HashMap::new(), active };
        if root_only {
            let mut st = st;
            let all: Vec<usize> = st.active.clone();
            return match s.propagate(&mut st, all) {
                Prop::Conflict => Err(Out::Unsat),
                Prop::Ok => Ok(st.vals[..nw].to_vec()),
            };
        }
        Err(match s.search(st, rng) {
            Some(v) => {
                let full: Vec<Option<F>> = v[..s.n0].to_vec();
                if full.iter().any(|x| x.is_none()) || first_unsat(s.orig, &full).is_some() {
                    return Err(Out::Unknown);
                }
                Out::Sat(full.into_iter().map(|x| x.unwrap()).collect())
            }
            None => {
                if s.incomplete {
                    Out::Unknown
                } else {
                    Out::Unsat
                }
            }
        })
    }

    fn hinted(&self, w: usize) -> Option<F> {
        self.hint.get(w).cloned().flatten()
    }

    /// a completion of the state's unknown wires that satisfies its active constraints
    fn search(&mut self, mut st: St<F>, rng: &mut impl RngCore) -> Option<Vec<Option<F>>> {
        self.nodes += 1;
        if self.nodes > self.max_nodes {
            self.incomplete = true;
            return None;
        }
        let all: Vec<usize> = st.active.clone();
        if let Prop::Conflict = self.propagate(&mut st, all) {
            return None;
        }
        let slack = self.peel(&mut st);
        let mut vals = self.complete(st.clone(), rng)?;
        // the last one peeled first: the others of its constraint are known by then
        for (w, k) in slack.into_iter().rev() {
            vals[w] = None;
            let (kk, u) = self.linear(&self.cons[k], &vals)?;
            if u.len() != 1 || u[0].0 != w {
                self.incomplete = true;
                return None;
            }
            vals[w] = Some(-kk * u[0].1.invert().unwrap());
        }
        Some(vals)
    }

    /// constraints that some wire of theirs can always make true, because it occurs nowhere else:
    /// they are set aside, with that wire
    fn peel(&self, st: &mut St<F>) -> Vec<(usize, usize)> {
        let mut cnt: HashMap<usize, (usize, usize)> = HashMap::new(); // wire -> occurrences, xor of constraints
        let wires = |k: usize| -> BTreeSet<usize> {
            let c = &self.cons[k];
            c.a.iter().chain(&c.b).chain(&c.c).map(|x| x.0).filter(|i| st.vals[*i].is_none()).collect()
        };
        for &k in &st.active {
            for w in wires(k) {
                let e = cnt.entry(w).or_insert((0, 0));
                e.0 += 1;
                e.1 ^= k;
            }
        }
        let mut todo: Vec<usize> = cnt.iter().filter(|x| x.1 .0 == 1).map(|x| *x.0).collect();
        todo.sort();
        let mut gone: BTreeSet<usize> = BTreeSet::new();
        let mut out = vec![];
        while let Some(w) = todo.pop() {
            let (n, k) = cnt[&w];
            if n != 1 || gone.contains(&k) || st.two(w).is_some() {
                continue;
            }
            let c = &self.cons[k];
            let has = |l: &SLc<F>| l.iter().any(|x| x.0 == w);
            let free = match self.linear(c, &st.vals) {
                Some((_, u)) => u.iter().any(|x| x.0 == w),
                None => !has(&c.a) && !has(&c.b),
            };
            if !free {
                continue;
            }
            gone.insert(k);
            out.push((w, k));
            for o in wires(k) {
                let e = cnt.get_mut(&o).unwrap();
                e.0 -= 1;
                e.1 ^= k;
                if e.0 == 1 {
                    todo.push(o);
                }
            }
        }
        st.active.retain(|k| !gone.contains(k));
        out
    }

    /// `search` after propagation
    fn complete(&mut self, st: St<F>, rng: &mut impl RngCore) -> Option<Vec<Option<F>>> {
        // parts that share no unknown wire are completed one by one
        let comps = self.components(&st);
        if comps.len() == 1 && !self.take_hint(&st, &comps[0].0, &comps[0].1, &mut st.vals.clone()) {
            return self.branch(st, &comps[0].1, rng);
        }
        let mut vals = st.vals.clone();
        // smallest first: a part that cannot be completed ends the search early
        let mut todo = vec![];
        for (cs, ws) in comps {
            if self.take_hint(&st, &cs, &ws, &mut vals) {
                continue;
            }
            todo.push((cs, ws));
        }
        todo.sort_by_key(|x| x.0.len());
        for (cs, ws) in todo {
            let sub = St { vals: st.vals.clone(), bit: st.bit.clone(), dom: st.dom.clone(), active: cs };
            let r = self.search(sub, rng)?;
            for w in ws {
                vals[w] = r[w];
            }
        }
        // wires no constraint mentions any more
        for i in 0..vals.len() {
            if vals[i].is_none() {
                vals[i] = Some(self.hinted(i).filter(|v| st.may(i, v)).unwrap_or(F::ZERO));
            }
        }
        Some(vals)
    }

    fn components(&self, st: &St<F>) -> Vec<(Vec<usize>, Vec<usize>)> {
        let mut seen: HashMap<usize, usize> = HashMap::new(); // wire -> component root
        let mut parent: Vec<usize> = vec![];
        fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
            while p[x] != x {
                p[x] = p[p[x]];
                x = p[x];
            }
            x
        }
        let mut of: Vec<usize> = vec![];
        for &k in &st.active {
            let me = parent.len();
            parent.push(me);
            of.push(me);
            let c = &self.cons[k];
            for (i, _) in c.a.iter().chain(&c.b).chain(&c.c) {
                if st.vals[*i].is_none() {
                    match seen.get(i) {
                        Some(o) => {
                            let (a, b) = (find(&mut parent, *o), find(&mut parent, me));
                            parent[a] = b;
                        }
                        None => {
                            seen.insert(*i, me);
                        }
                    }
                }
            }
        }
        let mut m: BTreeMap<usize, (Vec<usize>, Vec<usize>)> = BTreeMap::new();
        for (j, &k) in st.active.iter().enumerate() {
            let r = find(&mut parent, of[j]);
            m.entry(r).or_default().0.push(k);
        }
        let mut ws: Vec<(usize, usize)> = seen.into_iter().collect();
        ws.sort();
        for (w, o) in ws {
            let r = find(&mut parent, o);
            m.get_mut(&r).unwrap().1.push(w);
        }
        m.into_values().collect()
    }

    /// the hint completes this part
    fn take_hint(&self, st: &St<F>, cs: &[usize], ws: &[usize], vals: &mut [Option<F>]) -> bool {
        let mut h: HashMap<usize, F> = HashMap::new();
        for w in ws {
            let v = match self.hinted(*w) {
                Some(v) => v,
                None => return false,
            };
            h.insert(*w, v);
        }
        let at = |l: &SLc<F>| {
            l.iter().fold(F::ZERO, |s, (i, c)| s + st.vals[*i].unwrap_or_else(|| h.get(i).cloned().unwrap_or(F::ZERO)) * c)
        };
        for k in cs {
            let c = &self.cons[*k];
            if at(&c.a) * at(&c.b) != at(&c.c) {
                return false;
            }
        }
        for (w, v) in h {
            vals[w] = Some(v);
        }
        true
    }
    /// unknown wires of the active constraints that the hint does not satisfy
    fn violated(&self, st: &St<F>) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let get = |i: usize| st.vals[i].or_else(|| self.hinted(i));
        let at = |l: &SLc<F>| -> Option<F> {
            let mut s = F::ZERO;
            for (i, c) in l {
                s += get(*i)? * c;
            }
            Some(s)
        };
        for &k in &st.active {
            let c = &self.cons[k];
            let bad = match (at(&c.a), at(&c.b), at(&c.c)) {
                (Some(a), Some(b), Some(c)) => a * b != c,
                _ => false,
            };
            if bad {
                out.extend(c.a.iter().chain(&c.b).chain(&c.c).map(|x| x.0).filter(|i| st.vals[*i].is_none()));
            }
        }
        out
    }
    /// one connected part: choose something to try
    fn branch(&mut self, st: St<F>, unk: &[usize], rng: &mut impl RngCore) -> Option<Vec<Option<F>>> {
        let exp = self.expansions(&st);
        // (1) bit decodings: forced ones are applied, others are tried one by one
        let mut best: Option<(Vec<usize>, Vec<Vec<F>>)> = None;
        for &k in &st.active {
            if let Some((kk, u)) = self.linear(&self.cons[k], &st.vals) {
                if u.len() < 2 && exp.is_empty() {
                    continue;
                }
                let (kk, u) = match self.expand(kk, &u, &exp, k, &st) {
                    Some(x) => x,
                    None => continue,
                };
                if u.is_empty() {
                    continue;
                }
                if let Some((ws, c)) = self.decode(kk, &u) {
                    if c.is_empty() {
                        return None;
                    }
                    if best.as_ref().map(|b| b.1.len() > c.len()).unwrap_or(true) {
                        best = Some((ws, c));
                    }
                    if best.as_ref().unwrap().1.len() == 1 {
                        break;
                    }
                }
            }
        }
        if let Some((ws, mut cands)) = best {
            if let Some(h) = ws.iter().map(|w| self.hinted(*w)).collect::<Option<Vec<F>>>() {
                cands.sort_by_key(|c| *c != h);
            }
            for c in cands {
                let mut s2 = st.clone();
                for (w, v) in ws.iter().zip(c) {
                    s2.vals[*w] = Some(v);
                }
                if let Some(r) = self.search(s2, rng) {
                    return Some(r);
                }
                if self.nodes > self.max_nodes {
                    return None;
                }
            }
            return None;
        }
        let unk0 = unk;
        // look where the hint fails first
        let near: BTreeSet<usize> = self.violated(&st);
        // ... provided there is something there that can be enumerated
        let handle = |w: &usize| st.two(*w).is_some() || exp.contains_key(w);
        let far = !near.iter().any(handle) && unk.iter().any(handle);
        let unk: Vec<usize> = if near.is_empty() || far { unk.to_vec() } else { near.into_iter().collect() };
        let act: BTreeSet<usize> = st.active.iter().cloned().collect();
        let occ = |w: usize| self.occ[w].iter().filter(|k| act.contains(k)).count();
        // (2) two-valued wires that steer products come first: selectors, comparison results
        let mut digit: BTreeSet<usize> = BTreeSet::new();
        for (_, u) in exp.values() {
            if u.len() > 2 {
                digit.extend(u.iter().map(|x| x.0));
            }
        }
        let steer = unk.iter().cloned().filter(|w| st.two(*w).is_some() && !digit.contains(w)).max_by_key(|w| occ(*w));
        // (3) words made of bits
        let word = unk.iter().cloned().filter(|w| exp.contains_key(w)).max_by_key(|w| occ(*w));
        let any2 = unk.iter().cloned().filter(|w| st.two(*w).is_some()).max_by_key(|w| occ(*w));
        let small = self.enumerate.is_some();
        if steer.is_none() && self.probes > 0 {
            // before guessing: values of two-valued wires that are refuted by propagation alone
            let mut ws: Vec<usize> = unk0.iter().cloned().filter(|w| st.two(*w).is_some() && !digit.contains(w)).collect();
            ws.sort_by_key(|w| (std::cmp::Reverse(occ(*w)), *w));
            let mut s2 = st.clone();
            let mut any = false;
            for w in ws.into_iter().take(48) {
                if s2.vals[w].is_some() || self.probes == 0 {
                    continue;
                }
                let (a, b) = s2.two(w).unwrap();
                let mut ok = [true, true];
                for (j, v) in [a, b].into_iter().enumerate() {
                    self.probes = self.probes.saturating_sub(1);
                    let mut s3 = s2.clone();
                    s3.vals[w] = Some(v);
                    let q: Vec<usize> = self.occ[w].iter().cloned().filter(|k| act.contains(k)).collect();
                    if let Prop::Conflict = self.propagate(&mut s3, q) {
                        ok[j] = false;
                    }
                }
                match ok {
                    [false, false] => return None,
                    [true, true] => {}
                    [t, _] => {
                        any = true;
                        s2.vals[w] = Some(if t { a } else { b });
                        let q: Vec<usize> = self.occ[w].iter().cloned().filter(|k| act.contains(k)).collect();
                        if let Prop::Conflict = self.propagate(&mut s2, q) {
                            return None;
                        }
                    }
                }
            }
            if any {
                return self.search(s2, rng);
            }
        }
        let (w, cands) = if let Some(w) = steer.or(if small { any2 } else { None }) {
            let (a, b) = st.two(w).unwrap();
            (w, if self.hinted(w) == Some(b) { vec![b, a] } else { vec![a, b] })
        } else if let Some(w) = word.filter(|w| self.hinted(*w).is_some() && !small) {
            self.incomplete = true;
            let (kk, u) = &exp[&w];
            let mut c: Vec<F> = vec![];
            let mut put = |x: F| {
                if !c.contains(&x) {
                    c.push(x)
                }
            };
            if let Some(h) = self.hinted(w) {
                put(h);
            }
            put(*kk);
            put(u.iter().fold(*kk, |s, x| s + x.1));
            put(u.iter().fold(*kk, |s, x| if rng.next_u32() & 1 == 1 { s + x.1 } else { s }));
            (w, c)
        } else if let Some(w) = any2 {
            let (a, b) = st.two(w).unwrap();
            (w, if self.hinted(w) == Some(b) { vec![b, a] } else { vec![a, b] })
        } else {
            // (4) a wire nothing determines
            let w = unk.iter().cloned().max_by_key(|w| occ(*w))?;
            if let Some(p) = self.enumerate {
                (w, (0..p).map(F::from).collect())
            } else {
                self.incomplete = true;
                let mut c = vec![];
                if let Some(h) = self.hinted(w) {
                    c.push(h);
                }
                c.push(F::ZERO);
                c.push(F::ONE);
                c.push(F::from(rng.next_u64()));
                (w, c)
            }
        };
        for v in cands {
            let mut s2 = st.clone();
            s2.vals[w] = Some(v);
            if let Some(r) = self.search(s2, rng) {
                return Some(r);
            }
            if self.nodes > self.max_nodes {
                return None;
            }
        }
        None
    }

    /// w = k + sum of bits, from constraints where all other unknown wires are bits
    fn expansions(&self, st: &St<F>) -> HashMap<usize, (F, SLc<F>)> {
        let mut m: HashMap<usize, (F, SLc<F>)> = HashMap::new();
        for &k in &st.active {
            if let Some((kk, u)) = self.linear(&self.cons[k], &st.vals) {
                if u.len() < 2 {
                    continue;
                }
                let mut nb = u.iter().filter(|x| !st.bit[x.0]);
                if let (Some((w, c)), None) = (nb.next(), nb.next()) {
                    if let Some((_, o)) = m.get(w) {
                        if o.len() <= u.len() - 1 {
                            continue;
                        }
                    }
                    let s = -c.invert().unwrap();
                    let e: SLc<F> = u.iter().filter(|x| x.0 != *w).map(|x| (x.0, x.1 * s)).collect();
                    m.insert(*w, (kk * s, e));
                }
            }
        }
        m
    }
    /// the linear form over bits only, if its words are made of bits
    fn expand(&self, kk: F, u: &SLc<F>, exp: &HashMap<usize, (F, SLc<F>)>, _k: usize, st: &St<F>) -> Option<(F, SLc<F>)> {
        if u.iter().all(|x| st.bit[x.0]) {
            return Some((kk, u.clone()));
        }
        let mut k = kk;
        let mut m: BTreeMap<usize, F> = BTreeMap::new();
        let mut n = 0;
        for (w, c) in u {
            if st.bit[*w] {
                *m.entry(*w).or_insert(F::ZERO) += *c;
                continue;
            }
            let (ek, e) = exp.get(w)?;
            n += e.len();
            if n > 600 {
                return None;
            }
            k += *ek * c;
            for (i, x) in e {
                *m.entry(*i).or_insert(F::ZERO) += *x * c;
            }
        }
        Some((k, m.into_iter().filter(|x| !is0(&x.1)).collect()))
    }

    /// returns the linear form k + u = 0 if the constraint is linear under `vals`
    fn linear(&self, c: &Con<F>, vals: &[Option<F>]) -> Option<(F, SLc<F>)> {
        let (ka, ua) = split(&c.a, vals);
        let (kb, ub) = split(&c.b, vals);
        let (kc, uc) = split(&c.c, vals);
        if ua.is_empty() {
            let z: SLc<F> = uc.iter().map(|(i, x)| (*i, -*x)).collect();
            Some((ka * kb - kc, addl(&z, &ub, ka)))
        } else if ub.is_empty() {
            let z: SLc<F> = uc.iter().map(|(i, x)| (*i, -*x)).collect();
            Some((ka * kb - kc, addl(&z, &ua, kb)))
        } else {
            None
        }
    }

    fn propagate(&self, st: &mut St<F>, mut queue: Vec<usize>) -> Prop {
        loop {
            let mut inq = vec![false; self.cons.len()];
            for k in &queue {
                inq[*k] = true;
            }
            let mut touched = true;
            while touched {
                touched = false;
                let q = std::mem::take(&mut queue);
                for k in &q {
                    inq[*k] = false;
                }
                for k in q {
                    let mut newly: Vec<usize> = vec![];
                    match self.step(k, st, &mut newly) {
                        Prop::Conflict => return Prop::Conflict,
                        Prop::Ok => {}
                    }
                    for w in newly {
                        for &o in &self.occ[w] {
                            if !inq[o] {
                                inq[o] = true;
                                queue.push(o);
                            }
                        }
                        touched = true;
                    }
                }
                if !queue.is_empty() {
                    touched = true;
                }
            }
            // drop satisfied constraints
            let vals = &st.vals;
            let cons = &self.cons;
            st.active.retain(|k| {
                let c = &cons[*k];
                c.a.iter().chain(&c.b).chain(&c.c).any(|(i, _)| vals[*i].is_none())
            });
            // Gaussian elimination over the remaining linear constraints
            match self.gauss(st) {
                None => return Prop::Conflict,
                Some(newly) => {
                    if newly.is_empty() {
                        return Prop::Ok;
                    }
                    let mut s = BTreeSet::new();
                    for w in newly {
                        s.extend(self.occ[w].iter().cloned());
                    }
                    queue = s.into_iter().collect();
                }
            }
        }
    }

    fn step(&self, k: usize, st: &mut St<F>, newly: &mut Vec<usize>) -> Prop {
        let c = &self.cons[k];
        if let Some((kk, u)) = self.linear(c, &st.vals) {
            match u.len() {
                0 => {
                    if is0(&kk) {
                        Prop::Ok
                    } else {
                        Prop::Conflict
                    }
                }
                1 => {
                    let v = -kk * u[0].1.invert().unwrap();
                    if !st.may(u[0].0, &v) {
                        return Prop::Conflict;
                    }
                    st.vals[u[0].0] = Some(v);
                    newly.push(u[0].0);
                    Prop::Ok
                }
                _ => {
                    // a wire that is an affine image of a two-valued one is two-valued
                    if u.len() == 2 {
                        for (x, y) in [(u[0], u[1]), (u[1], u[0])] {
                            if let (Some((a, b)), None) = (st.two(x.0), st.two(y.0)) {
                                let s = -y.1.invert().unwrap();
                                self.restrict(st, y.0, (kk + x.1 * a) * s, (kk + x.1 * b) * s);
                                newly.push(y.0);
                            }
                        }
                    }
                    if u.len() <= 4 && u.iter().all(|(i, _)| st.two(*i).is_some()) {
                        return self.combos(k, st, &u.iter().map(|x| x.0).collect::<Vec<_>>(), newly);
                    }
                    if u.iter().all(|(i, _)| st.bit[*i]) {
                        if let Some((ws, cands)) = self.decode(kk, &u) {
                            if cands.is_empty() {
                                return Prop::Conflict;
                            }
                            if cands.len() == 1 {
                                for (w, v) in ws.iter().zip(&cands[0]) {
                                    st.vals[*w] = Some(*v);
                                    newly.push(*w);
                                }
                            }
                        }
                    }
                    Prop::Ok
                }
            }
        } else {
            let (ka, ua) = split(&c.a, &st.vals);
            let (kb, ub) = split(&c.b, &st.vals);
            let (kc, uc) = split(&c.c, &st.vals);
            let mut ws: BTreeSet<usize> = BTreeSet::new();
            ws.extend(ua.iter().map(|x| x.0));
            ws.extend(ub.iter().map(|x| x.0));
            ws.extend(uc.iter().map(|x| x.0));
            if ws.len() == 1 {
                let w = *ws.iter().next().unwrap();
                let a1 = ua.first().map(|x| x.1).unwrap_or(F::ZERO);
                let b1 = ub.first().map(|x| x.1).unwrap_or(F::ZERO);
                let c1 = uc.first().map(|x| x.1).unwrap_or(F::ZERO);
                if let Some((d0, d1)) = st.two(w) {
                    let ok = |x: F| (ka + a1 * x) * (kb + b1 * x) == kc + c1 * x;
                    match (ok(d0), ok(d1)) {
                        (true, true) => {}
                        (false, false) => return Prop::Conflict,
                        (t, _) => {
                            st.vals[w] = Some(if t { d0 } else { d1 });
                            newly.push(w);
                        }
                    }
                    return Prop::Ok;
                }
                match roots(a1 * b1, ka * b1 + kb * a1 - c1, ka * kb - kc) {
                    None => {}
                    Some(r) if r.is_empty() => return Prop::Conflict,
                    Some(r) if r.len() == 1 => {
                        st.vals[w] = Some(r[0]);
                        newly.push(w);
                    }
                    Some(r) => {
                        let (x, y) = if r[0] == F::ONE { (r[1], r[0]) } else { (r[0], r[1]) };
                        if is0(&x) && y == F::ONE {
                            st.bit[w] = true;
                        } else {
                            st.dom.insert(w, (x, y));
                        }
                        // re-examine linear constraints mentioning w
                        newly.push(w);
                    }
                }
            } else if ws.len() <= 4 {
                // all but at most one two-valued: try the combinations
                let free: Vec<usize> = ws.iter().cloned().filter(|w| st.two(*w).is_none()).collect();
                if free.is_empty() {
                    return self.combos(k, st, &ws.into_iter().collect::<Vec<_>>(), newly);
                }
                let w = free[0];
                let lin = |l: &SLc<F>| !l.iter().any(|x| x.0 == w);
                if free.len() == 1 && lin(&ua) && lin(&ub) {
                    // w is a function of the others
                    let g = uc.iter().find(|x| x.0 == w).unwrap().1.invert().unwrap();
                    let o: Vec<usize> = ws.iter().cloned().filter(|x| *x != w).collect();
                    let mut seen: Vec<F> = vec![];
                    for m in 0..1usize << o.len() {
                        let v = |i: usize| -> F {
                            match o.iter().position(|x| *x == i) {
                                Some(j) => {
                                    let (a, b) = st.two(i).unwrap();
                                    if m >> j & 1 == 1 {
                                        b
                                    } else {
                                        a
                                    }
                                }
                                None => F::ZERO,
                            }
                        };
                        let at = |k: F, l: &SLc<F>| l.iter().fold(k, |s, (i, c)| s + v(*i) * c);
                        let x = (at(ka, &ua) * at(kb, &ub) - at(kc, &uc)) * g;
                        if !seen.contains(&x) {
                            seen.push(x);
                        }
                    }
                    if seen.len() == 1 {
                        st.vals[w] = Some(seen[0]);
                        newly.push(w);
                    } else if seen.len() == 2 {
                        self.restrict(st, w, seen[0], seen[1]);
                        newly.push(w);
                    }
                }
            }
            Prop::Ok
        }
    }

    /// record that w is x or y
    fn restrict(&self, st: &mut St<F>, w: usize, x: F, y: F) {
        let (x, y) = if x == F::ONE { (y, x) } else { (x, y) };
        if is0(&x) && y == F::ONE {
            st.bit[w] = true;
        } else {
            st.dom.insert(w, (x, y));
        }
    }
    /// a constraint whose unknown wires are all two-valued: keep what some combination allows
    fn combos(&self, k: usize, st: &mut St<F>, ws: &[usize], newly: &mut Vec<usize>) -> Prop {
        let c = &self.cons[k];
        let d: Vec<(F, F)> = ws.iter().map(|w| st.two(*w).unwrap()).collect();
        let mut can = vec![(false, false); ws.len()];
        for m in 0..1usize << ws.len() {
            let v = |i: usize| -> F {
                match st.vals[i] {
                    Some(v) => v,
                    None => match ws.iter().position(|x| *x == i) {
                        Some(j) if m >> j & 1 == 1 => d[j].1,
                        Some(j) => d[j].0,
                        // cancelled: the constraint does not depend on it
                        None => F::ZERO,
                    },
                }
            };
            let at = |l: &SLc<F>| l.iter().fold(F::ZERO, |s, (i, c)| s + v(*i) * c);
            if at(&c.a) * at(&c.b) == at(&c.c) {
                for j in 0..ws.len() {
                    if m >> j & 1 == 1 {
                        can[j].1 = true;
                    } else {
                        can[j].0 = true;
                    }
                }
            }
        }
        if can.iter().any(|x| !x.0 && !x.1) {
            return Prop::Conflict;
        }
        for j in 0..ws.len() {
            if can[j].0 != can[j].1 {
                st.vals[ws[j]] = Some(if can[j].0 { d[j].0 } else { d[j].1 });
                newly.push(ws[j]);
            }
        }
        Prop::Ok
    }

    /// every solution in bits of kk + sum u = 0, where the signed coefficients have distinct numbers
    /// of trailing zeros; None if there is no such order or there are too many candidates
    fn decode(&self, kk: F, u: &SLc<F>) -> Option<(Vec<usize>, Vec<Vec<F>>)> {
        if u.len() > self.p.bits() as usize + 80 {
            return None;
        }
        let half = &self.p >> 1;
        let sg = |f: &F| -> BigInt {
            let v = BigInt::from(big(f));
            if v > half {
                v - &self.p
            } else {
                v
            }
        };
        let zero = BigInt::from(0);
        for scale in 0..2 {
            // as given, or divided by the first coefficient
            let s = if scale == 0 {
                F::ONE
            } else {
                u[0].1.invert().unwrap()
            };
            let mut ts: Vec<(u64, BigInt, usize)> = u
                .iter()
                .map(|(w, c)| {
                    let x = sg(&(*c * s));
                    (x.trailing_zeros().unwrap(), x, *w)
                })
                .collect();
            ts.sort();
            if ts.windows(2).any(|p| p[0].0 == p[1].0) {
                continue;
            }
            let (mut lo, mut hi) = (zero.clone(), zero.clone());
            for t in &ts {
                if t.1 < zero {
                    lo += &t.1;
                } else {
                    hi += &t.1;
                }
            }
            // targets: -kk + m p within [lo, hi]
            let mut t = sg(&(-kk * s));
            if (&hi - &lo) / &self.p > BigInt::from(8) {
                continue;
            }
            while t >= lo {
                t -= &self.p;
            }
            t += &self.p;
            let mut cands = vec![];
            while t <= hi {
                let mut r = t.clone();
                let mut v = vec![];
                let mut ok = true;
                for (j, x, _) in &ts {
                    let one = match r.trailing_zeros() {
                        Some(z) if z < *j => {
                            ok = false;
                            break;
                        }
                        Some(z) => z == *j,
                        None => false,
                    };
                    if one {
                        r -= x;
                    }
                    v.push(if one { F::ONE } else { F::ZERO });
                }
                if ok && r == zero {
                    cands.push(v);
                }
                t += &self.p;
            }
            return Some((ts.iter().map(|t| t.2).collect(), cands));
        }
        None
    }

    fn gauss(&self, st: &mut St<F>) -> Option<Vec<usize>> {
        let mut rows: Vec<(F, BTreeMap<usize, F>)> = vec![];
        for &k in &st.active {
            if let Some((kk, u)) = self.linear(&self.cons[k], &st.vals) {
                // long bit sums are left to the decoder
                if u.len() <= 12 {
                    rows.push((kk, u.into_iter().collect()));
                }
            }
        }
        if rows.len() > 300 {
            rows.sort_by_key(|r| r.1.len());
            rows.truncate(300);
        }
        let mut piv: Vec<(usize, F, BTreeMap<usize, F>)> = vec![];
        for (mut k, mut r) in rows {
            for (p, pk, pr) in &piv {
                if let Some(c) = r.get(p).cloned() {
                    k -= *pk * c;
                    for (i, x) in pr {
                        let e = r.entry(*i).or_insert(F::ZERO);
                        *e -= *x * c;
                        if is0(e) {
                            r.remove(i);
                        }
                    }
                }
            }
            if r.is_empty() {
                if !is0(&k) {
                    return None;
                }
                continue;
            }
            let (p, c) = {
                let (p, c) = r.iter().next().unwrap();
                (*p, *c)
            };
            let ci = c.invert().unwrap();
            for x in r.values_mut() {
                *x *= ci;
            }
            k *= ci;
            // eliminate p from earlier rows
            for (_, pk, pr) in piv.iter_mut() {
                if let Some(c) = pr.get(&p).cloned() {
                    *pk -= k * c;
                    for (i, x) in &r {
                        let e = pr.entry(*i).or_insert(F::ZERO);
                        *e -= *x * c;
                        if is0(e) {
                            pr.remove(i);
                        }
                    }
                }
            }
            piv.push((p, k, r));
        }
        let mut newly = vec![];
        for (p, k, r) in piv {
            if r.len() == 1 {
                let v = -k;
                if !st.may(p, &v) {
                    return None;
                }
                if let Some(o) = st.vals[p] {
                    if o != v {
                        return None;
                    }
                } else {
                    st.vals[p] = Some(v);
                    newly.push(p);
                }
            }
        }
        Some(newly)
    }
}

#[allow(dead_code)]
pub fn check<F: PrimeField>(cons: &[Con<F>], v: &[F]) -> bool {
    let full: Vec<Option<F>> = v.iter().map(|x| Some(*x)).collect();
    let _ = eval_with::<F>;
    first_unsat(cons, &full).is_none()
}

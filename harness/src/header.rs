//! Runs `header_step::BlockHeader` (the folding step) on given headers and states, honestly and
//! adversarially, and records what happened for spec/HeaderTrace.tla.
//!
//! A case is a line  `mode field header z0 .. z15`  (hex): mode is a subset of
//!   h  honest prover        x  any accepted witness?      m  accepted with other outputs?
//!   s  circuit fingerprint against the default header without witness
use crate::ev::{fields, fingerprint, Stats};
use crate::gadgets::{from_f, modulus, to_f};
use crate::json;
use crate::rec::{eval_with, first_unsat, Con, Rec, SLc};
use crate::solve::{Opts, Out, Solver};
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::{PrimeField, PrimeFieldBits};
use nova_snark::traits::circuit::StepCircuit;
use num_bigint::{BigInt, BigUint};
use rand::rngs::StdRng;
use rand::{RngCore, SeedableRng};
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use validate_btc_header::btc_validation::header_step::BlockHeader;

#[derive(Clone)]
pub struct Case {
    pub id: usize,
    pub mode: String,
    pub field: String,
    pub hdr: [u64; 10],
    /// the headers that follow, if this is a chain
    pub more: Vec<[u64; 10]>,
    pub z: Vec<BigUint>,
}

fn header(t: &str) -> [u64; 10] {
    assert_eq!(t.len(), 160);
    let mut hdr = [0u64; 10];
    for i in 0..10 {
        hdr[i] = u64::from_str_radix(&t[16 * i..16 * i + 16], 16).unwrap();
    }
    hdr
}

/// the distinct headers, in order of appearance
pub fn headers(cases: &[Case]) -> Vec<[u64; 10]> {
    let mut v: Vec<[u64; 10]> = vec![];
    let mut seen = std::collections::HashSet::new();
    for c in cases {
        for h in std::iter::once(&c.hdr).chain(&c.more) {
            if seen.insert(*h) {
                v.push(*h);
            }
        }
    }
    v
}
pub fn header_line(cases: &[Case]) -> String {
    let l = crate::ev::header_line();
    let hs = json::list(&headers(cases), |h| {
        let by: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
        json::list(&by, |x| x.to_string())
    });
    format!("{},\"headers\":{}}}", &l[..l.len() - 1], hs)
}

pub fn parse(text: &str) -> Vec<Case> {
    let mut v = vec![];
    for (id, l) in text.lines().enumerate() {
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        assert_eq!(t.len(), 19, "bad case line {}", l);
        let mut hs: Vec<[u64; 10]> = t[2].split(',').map(header).collect();
        let hdr = hs.remove(0);
        let z = t[3..].iter().map(|x| BigUint::parse_bytes(x.as_bytes(), 16).unwrap()).collect();
        v.push(Case { id, mode: t[0].into(), field: t[1].into(), hdr, more: hs, z });
    }
    v
}

pub struct Step<F: PrimeField> {
    pub verdict: &'static str,
    pub rec: Rec<F>,
    pub zin: Vec<usize>,
    pub outs: Vec<SLc<F>>,
    pub dec: Vec<Option<F>>,
}

pub fn step<F: PrimeField + PrimeFieldBits>(hdr: &[u64; 10], z: Option<&[F]>) -> Step<F> {
    step_of(&BlockHeader::<F>::new_blocks(vec![*hdr]).pop().unwrap(), z)
}
pub fn step_of<F: PrimeField + PrimeFieldBits>(c: &BlockHeader<F>, z: Option<&[F]>) -> Step<F> {
    let mut rec = Rec::<F>::make(z.is_some());
    let mut zin = vec![];
    let mut zs = vec![];
    for i in 0..16 {
        let a = AllocatedNum::alloc(rec.namespace(|| format!("z{}", i)), || {
            z.map(|z| z[i]).ok_or(SynthesisError::AssignmentMissing)
        })
        .unwrap();
        let l = rec.conv(&(LinearCombination::zero() + a.get_variable()));
        zin.push(l[0].0);
        zs.push(a);
    }
    let mut outs = vec![];
    let mut dec = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| c.synthesize(&mut rec.namespace(|| "step"), &zs)));
    let verdict = match r {
        Ok(Ok(o)) => {
            for a in &o {
                outs.push(rec.conv(&(LinearCombination::zero() + a.get_variable())));
                dec.push(a.get_value());
            }
            "ok"
        }
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    Step { verdict, rec, zin, outs, dec }
}
pub fn arity<F: PrimeField + PrimeFieldBits>() -> usize {
    StepCircuit::<F>::arity(&BlockHeader::<F>::default())
}

/// The circuit of the step for a field, and where the header enters it.
pub struct Circ<F: PrimeField> {
    pub rec: Rec<F>,
    pub zin: Vec<usize>,
    pub outs: Vec<SLc<F>>,
    pub bits: Option<Vec<usize>>,
    pub fp: String,
    boolean: Vec<bool>,
    occ: Vec<Vec<usize>>,
    p: BigUint,
    /// what a header determines by itself
    cache: Mutex<HashMap<[u64; 10], Arc<Prop<F>>>>,
}

/// The wires that carry the header bits, found by what they hold and not by name: bit i is carried
/// by the first wire that equals it for many random headers.
fn header_wires<F: PrimeField + PrimeFieldBits>(nw: usize) -> Option<Vec<usize>> {
    let mut r = StdRng::seed_from_u64(77);
    let mut sig: Vec<u64> = vec![0; nw];
    let mut ok: Vec<bool> = vec![true; nw];
    let mut hs = vec![];
    for k in 0..48 {
        let mut h = [0u64; 10];
        for x in h.iter_mut() {
            *x = r.next_u64();
        }
        let z: Vec<F> = (0..16).map(|i| F::from(if i == 12 { 1 << 40 } else { r.next_u64() >> 34 })).collect();
        let s = step::<F>(&h, Some(&z));
        for w in 0..nw {
            match s.rec.vals.get(w).cloned().flatten() {
                Some(v) if v == F::ONE => sig[w] |= 1 << k,
                Some(v) if v == F::ZERO => {}
                _ => ok[w] = false,
            }
        }
        hs.push(h);
    }
    let mut first: HashMap<u64, usize> = HashMap::new();
    for w in 0..nw {
        if ok[w] {
            first.entry(sig[w]).or_insert(w);
        }
    }
    let mut out = vec![];
    for i in 0..640 {
        let mut s = 0u64;
        for (k, h) in hs.iter().enumerate() {
            if h[i / 64] >> (63 - i % 64) & 1 == 1 {
                s |= 1 << k;
            }
        }
        out.push(*first.get(&s)?);
    }
    Some(out)
}

pub fn circ<F: PrimeField + PrimeFieldBits>() -> Option<Circ<F>> {
    let s = step::<F>(&[0u64; 10], None);
    let s = if s.verdict == "ok" {
        s
    } else {
        // cannot be set up without a witness: take whatever an honest run built
        return None;
    };
    let nw = s.rec.nwires();
    let bits = header_wires::<F>(nw);
    let mut boolean = vec![false; nw];
    for c in &s.rec.cons {
        // x * (1 - x) = 0 in any of its shapes: the constraint mentions one wire only and holds
        // exactly for 0 and 1
        let mut w = 0;
        let mut one = true;
        for (i, _) in c.a.iter().chain(&c.b).chain(&c.c) {
            if *i != 0 {
                if w == 0 {
                    w = *i;
                } else if w != *i {
                    one = false;
                }
            }
        }
        if one && w != 0 {
            let at = |l: &SLc<F>, x: F| l.iter().fold(F::ZERO, |s, (i, c)| s + if *i == 0 { *c } else { *c * x });
            let ok = |x: F| at(&c.a, x) * at(&c.b, x) == at(&c.c, x);
            if ok(F::ZERO) && ok(F::ONE) && !ok(F::ONE.double()) {
                boolean[w] = true;
            }
        }
    }
    // a wire that is 0 or 1 whenever the other wires of a small constraint are
    let mut occ = vec![vec![]; nw];
    for (k, c) in s.rec.cons.iter().enumerate() {
        for (i, _) in c.a.iter().chain(&c.b).chain(&c.c) {
            if *i != 0 && occ[*i].last() != Some(&k) {
                occ[*i].push(k);
            }
        }
    }
    let mut todo: Vec<usize> = (0..s.rec.cons.len()).rev().collect();
    while let Some(k) = todo.pop() {
        let c = &s.rec.cons[k];
        if c.a.len() + c.b.len() + c.c.len() > 24 {
            continue;
        }
        let ws: BTreeSet<usize> = c.a.iter().chain(&c.b).chain(&c.c).map(|x| x.0).filter(|x| *x != 0).collect();
        let ws: Vec<usize> = ws.into_iter().collect();
        let open: Vec<usize> = ws.iter().cloned().filter(|w| !boolean[*w]).collect();
        if open.len() != 1 || ws.len() > 5 {
            continue;
        }
        let w = open[0];
        let others: Vec<usize> = ws.iter().cloned().filter(|x| *x != w).collect();
        // the other wires are themselves bound by constraints
        let inner: BTreeSet<usize> = others
            .iter()
            .flat_map(|o| occ[*o].iter().take(40))
            .cloned()
            .filter(|j| {
                let c = &s.rec.cons[*j];
                *j != k && c.a.iter().chain(&c.b).chain(&c.c).all(|(i, _)| *i == 0 || others.contains(i))
            })
            .collect();
        let good = (0..1u32 << others.len()).all(|m| {
            let is = |i: &usize| *i == 0 || m >> others.iter().position(|o| o == i).unwrap() & 1 == 1;
            let ev = |l: &SLc<F>| l.iter().fold(F::ZERO, |k, (i, c)| if is(i) { k + c } else { k });
            if inner.iter().any(|j| {
                let c = &s.rec.cons[*j];
                ev(&c.a) * ev(&c.b) != ev(&c.c)
            }) {
                return true;
            }
            let at = |l: &SLc<F>| {
                l.iter().fold((F::ZERO, F::ZERO), |(k, x), (i, c)| {
                    if *i == w {
                        (k, x + c)
                    } else if *i == 0 || m >> others.iter().position(|o| o == i).unwrap() & 1 == 1 {
                        (k + c, x)
                    } else {
                        (k, x)
                    }
                })
            };
            let ((ka, xa), (kb, xb), (kc, xc)) = (at(&c.a), at(&c.b), at(&c.c));
            if xa != F::ZERO && xb != F::ZERO {
                return false;
            }
            let (k, x) = (ka * kb - kc, xa * kb + xb * ka - xc);
            x != F::ZERO && (k == F::ZERO || k + x == F::ZERO)
        });
        if good {
            boolean[w] = true;
            todo.extend(occ[w].iter().cloned());
        }
    }
    let fp = format!("{:016x}/{}", fingerprint(&s.rec.cons, nw, &s.rec.is_input), s.rec.cons.len());
    Some(Circ { rec: s.rec, zin: s.zin, outs: s.outs, bits, fp, boolean, occ, p: modulus::<F>(), cache: Mutex::new(HashMap::new()) })
}

/// What the circuit determines from some fixed wires, found by evaluating constraints as soon as
/// enough of their wires are known.
#[derive(Clone)]
struct Prop<F: PrimeField> {
    vals: Vec<Option<F>>,
    alive: Vec<bool>,
    conflict: bool,
}

impl<F: PrimeField> Prop<F> {
    fn new(c: &Circ<F>) -> Self {
        let mut vals = vec![None; c.rec.nwires()];
        vals[0] = Some(F::ONE);
        Prop { vals, alive: vec![true; c.rec.cons.len()], conflict: false }
    }
    fn set(&mut self, c: &Circ<F>, ws: &[(usize, F)]) {
        let mut inq = vec![false; c.rec.cons.len()];
        let mut q = std::collections::VecDeque::new();
        let mut todo: Vec<usize> = vec![];
        for (w, v) in ws {
            match self.vals[*w] {
                Some(x) if x != *v => {
                    self.conflict = true;
                    return;
                }
                Some(_) => {}
                None => {
                    self.vals[*w] = Some(*v);
                    todo.push(*w);
                }
            }
        }
        loop {
            for w in todo.drain(..) {
                for k in &c.occ[w] {
                    if self.alive[*k] && !inq[*k] {
                        inq[*k] = true;
                        q.push_back(*k);
                    }
                }
            }
            let k = match q.pop_front() {
                Some(k) => k,
                None => return,
            };
            inq[k] = false;
            match self.eval(c, k) {
                None => {
                    self.conflict = true;
                    return;
                }
                Some((n, fin)) => {
                    if fin {
                        self.alive[k] = false;
                    }
                    for (w, v) in n {
                        if c.boolean[w] && v != F::ZERO && v != F::ONE {
                            self.conflict = true;
                            return;
                        }
                        self.vals[w] = Some(v);
                        todo.push(w);
                    }
                }
            }
        }
    }
    /// wires constraint k determines, and whether it is then used up; None: it cannot hold
    fn eval(&self, c: &Circ<F>, k: usize) -> Option<(Vec<(usize, F)>, bool)> {
        let con = &c.rec.cons[k];
        let vals = &self.vals;
        let part = |l: &SLc<F>| -> (F, SLc<F>) {
            let mut s = F::ZERO;
            let mut u = vec![];
            for (i, x) in l {
                match vals[*i] {
                    Some(v) => s += v * x,
                    None => u.push((*i, *x)),
                }
            }
            (s, u)
        };
        let (ka, ua) = part(&con.a);
        let (kb, ub) = part(&con.b);
        let (kc, uc) = part(&con.c);
        let mix = |u: &SLc<F>, s: F| -> Vec<(usize, F)> {
            let mut m: HashMap<usize, F> = HashMap::new();
            for (i, x) in u {
                *m.entry(*i).or_insert(F::ZERO) += *x * s;
            }
            for (i, x) in &uc {
                *m.entry(*i).or_insert(F::ZERO) -= *x;
            }
            m.into_iter().filter(|x| !bool::from(x.1.is_zero())).collect()
        };
        let lin = if ua.is_empty() {
            mix(&ub, ka)
        } else if ub.is_empty() {
            mix(&ua, kb)
        } else {
            return Some((vec![], false));
        };
        let k0 = ka * kb - kc;
        if lin.is_empty() {
            return if bool::from(k0.is_zero()) { Some((vec![], true)) } else { None };
        }
        if lin.len() == 1 {
            let (w, x) = lin[0];
            return Some((vec![(w, -k0 * x.invert().unwrap())], true));
        }
        if !lin.iter().all(|(w, _)| c.boolean[*w]) {
            return Some((vec![], false));
        }
        // k0 + sum c_j b_j = 0 over the integers, bits found from the lowest valuation up
        let p = &c.p;
        let half = p >> 1;
        let sg = |f: &F| -> BigInt {
            let v = from_f(f);
            if v > half {
                BigInt::from(v) - BigInt::from(p.clone())
            } else {
                BigInt::from(v)
            }
        };
        let mut ts: Vec<(u64, BigInt, usize)> =
            lin.iter().map(|(w, x)| (sg(x), *w)).map(|(x, w)| (x.trailing_zeros().unwrap(), x, w)).collect();
        ts.sort();
        if ts[0].0 == ts[1].0 {
            return Some((vec![], false));
        }
        // exact integer value of the known part and bounds on either side; the equation holds in
        // the integers if neither side can reach the modulus
        let cst = |l: &SLc<F>| l.iter().all(|x| x.0 == 0);
        let sum = |l: &SLc<F>| l.iter().fold(F::ZERO, |s, x| s + x.1);
        let terms: Option<SLc<F>> = if cst(&con.b) {
            let kb = sum(&con.b);
            Some(con.a.iter().map(|(i, x)| (*i, *x * kb)).chain(con.c.iter().map(|(i, x)| (*i, -*x))).collect())
        } else if cst(&con.a) {
            let ka = sum(&con.a);
            Some(con.b.iter().map(|(i, x)| (*i, *x * ka)).chain(con.c.iter().map(|(i, x)| (*i, -*x))).collect())
        } else {
            None
        };
        let zero = BigInt::from(0);
        let (mut r, mut pos, mut neg) = (zero.clone(), zero.clone(), zero.clone());
        let mut fits = false;
        if let Some(t) = &terms {
            let mut m: HashMap<usize, F> = HashMap::new();
            for (i, x) in t {
                *m.entry(*i).or_insert(F::ZERO) += *x;
            }
            fits = true;
            for (i, x) in m {
                if i != 0 && !c.boolean[i] {
                    fits = false;
                    break;
                }
                let x = sg(&x);
                if vals[i] == Some(F::ONE) {
                    r += &x;
                }
                if x > zero {
                    pos += x;
                } else {
                    neg -= x;
                }
            }
            let p = BigInt::from(p.clone());
            fits = fits && pos < p && neg < p;
        }
        if !fits {
            r = sg(&k0);
            let tot = lin
                .iter()
                .fold(BigInt::from(r.magnitude().clone()), |a, t| a + BigInt::from(sg(&t.1).magnitude().clone()));
            fits = tot < BigInt::from(p.clone());
        }
        if !fits {
            return Some((vec![], false));
        }
        let mut out = vec![];
        for i in 0..ts.len() {
            if i + 1 < ts.len() && ts[i].0 == ts[i + 1].0 {
                return Some((out, false));
            }
            let (j, x, w) = &ts[i];
            let bit = match r.trailing_zeros() {
                Some(t) if t < *j => return None,
                Some(t) => t == *j,
                None => false,
            };
            if bit {
                r += x;
            }
            out.push((*w, if bit { F::ONE } else { F::ZERO }));
        }
        if r != zero {
            return None;
        }
        Some((out, true))
    }
}

pub struct HSink {
    pub events: Mutex<Vec<(usize, String)>>,
    pub stats: Stats,
    pub seed: u64,
    pub outs: Vec<usize>,
}

static HEADERS: std::sync::OnceLock<Vec<[u64; 10]>> = std::sync::OnceLock::new();

fn event(fid: usize, k: &str, c: &Case, p: &BigUint, v: &str, outs: &[BigUint], dec: &[BigUint], tag: &str) -> String {
    step_event(fid, k, c, 0, &c.hdr, &c.z, p, v, outs, dec, tag)
}
fn step_event(
    fid: usize,
    k: &str,
    c: &Case,
    idx: usize,
    hdr: &[u64; 10],
    z: &[BigUint],
    p: &BigUint,
    v: &str,
    outs: &[BigUint],
    dec: &[BigUint],
    tag: &str,
) -> String {
    let hid = HEADERS.get().unwrap().iter().position(|x| x == hdr).unwrap();
    let z: Vec<BigUint> = z.iter().map(|x| x % p).collect();
    format!(
        "{{\"k\":\"{}\",\"f\":{},\"case\":{},\"idx\":{},\"h\":{},\"z\":{},\"v\":\"{}\",\"zo\":{},\"dec\":{},\"tag\":\"{}\"}}",
        k,
        fid + 1,
        c.id,
        idx,
        hid + 1,
        json::nats(&z),
        v,
        json::nats(outs),
        json::nats(dec),
        tag
    )
}

/// a system over the wires that have no value yet
struct Open<F: PrimeField> {
    cons: Vec<Con<F>>,
    wires: Vec<usize>,
    outs: Vec<SLc<F>>,
    fixed: Vec<Option<F>>,
    hint: Option<Vec<Option<F>>>,
}
impl<F: PrimeField> Open<F> {
    fn new<'a>(cons: impl Iterator<Item = &'a Con<F>>, outs: &[SLc<F>], vals: &[Option<F>], hint: Option<&[Option<F>]>) -> Self {
        let mut wires: Vec<usize> = vec![0];
        let mut back: HashMap<usize, usize> = HashMap::new();
        let mut fold = |l: &SLc<F>| -> SLc<F> {
            let mut k = F::ZERO;
            let mut o: SLc<F> = vec![];
            for (i, x) in l {
                match vals[*i] {
                    Some(v) => k += v * x,
                    None => {
                        let n = *back.entry(*i).or_insert_with(|| {
                            wires.push(*i);
                            wires.len() - 1
                        });
                        o.push((n, *x));
                    }
                }
            }
            if !bool::from(k.is_zero()) {
                o.insert(0, (0, k));
            }
            o
        };
        let cons: Vec<Con<F>> = cons.map(|c| Con { a: fold(&c.a), b: fold(&c.b), c: fold(&c.c) }).collect();
        let outs: Vec<SLc<F>> = outs.iter().map(|l| fold(l)).collect();
        let mut fixed: Vec<Option<F>> = vec![None; wires.len()];
        fixed[0] = Some(F::ONE);
        let hint = hint.map(|h| wires.iter().map(|i| h[*i]).collect());
        Open { cons, wires, outs, fixed, hint }
    }
}

struct Exec<'a> {
    c: &'a Case,
    sink: &'a HSink,
    circs: &'a Circs,
}
#[derive(Default)]
pub struct Circs {
    bn: std::sync::OnceLock<Option<Circ<crate::fields::Bn>>>,
    pallas: std::sync::OnceLock<Option<Circ<crate::fields::Pallas>>>,
    vesta: std::sync::OnceLock<Option<Circ<crate::fields::Vesta>>>,
}
pub trait Pick: PrimeField + PrimeFieldBits {
    fn pick(c: &Circs) -> &Option<Circ<Self>>;
}
impl Pick for crate::fields::Bn {
    fn pick(c: &Circs) -> &Option<Circ<Self>> {
        c.bn.get_or_init(circ)
    }
}
impl Pick for crate::fields::Pallas {
    fn pick(c: &Circs) -> &Option<Circ<Self>> {
        c.pallas.get_or_init(circ)
    }
}
impl Pick for crate::fields::Vesta {
    fn pick(c: &Circs) -> &Option<Circ<Self>> {
        c.vesta.get_or_init(circ)
    }
}

fn mutants(o: &[BigUint], z: &[BigUint], hdr: &[u64; 10], p: &BigUint) -> Vec<(Vec<BigUint>, String)> {
    let mut v = vec![];
    let mut put = |i: usize, x: BigUint, t: &str| {
        let x = x % p;
        if x != o[i] {
            let mut m = o.to_vec();
            m[i] = x;
            v.push((m, format!("{}{}", t, i)));
        }
    };
    for i in 0..o.len() {
        put(i, &o[i] + 1u8, "inc");
        put(i, &o[i] + p - 1u8, "dec");
        put(i, BigUint::from(0u8), "zero");
        if i < z.len() {
            put(i, z[i].clone(), "keep");
        }
    }
    put(0, &o[0] + (BigUint::from(1u8) << 200), "hi");
    let t = BigUint::from(hdr[8] & 0xffff_ffff);
    put(11, t.clone(), "be");
    put(13, t, "be");
    if z.len() > 15 {
        put(13, z[11].clone(), "prev");
        put(13, o[11].clone(), "cur");
        put(15, &z[15] + 1u8, "one");
        put(15, &o[15] + (BigUint::from(1u8) << 64), "hi");
        put(14, &z[14] + 1u8, "next");
    }
    v
}

impl<'a> Exec<'a> {
    /// a chain: the outputs of a step are the inputs of the next
    fn chain<F: Pick>(&self, fid: usize, p: &BigUint) {
        let c = self.c;
        let mut z = c.z.clone();
        for (i, hdr) in std::iter::once(&c.hdr).chain(&c.more).enumerate() {
            let zf: Vec<F> = z.iter().map(to_f::<F>).collect();
            let h = step::<F>(hdr, Some(&zf));
            self.sink.stats.honest.fetch_add(1, Ordering::Relaxed);
            let acc = h.verdict == "ok" && h.rec.satisfied();
            let ho: Vec<BigUint> = h.outs.iter().map(|l| h.rec.eval(l).map(|x| from_f(&x)).unwrap_or_default()).collect();
            let d: Vec<BigUint> = h.dec.iter().map(|x| x.as_ref().map(from_f).unwrap_or_else(|| p.clone())).collect();
            let v = match h.verdict {
                "ok" if acc => "acc",
                "ok" => "unsat",
                x => x,
            };
            let e = step_event(fid, "c", c, i + 1, hdr, &z, p, v, &ho, &d, "");
            self.sink.events.lock().unwrap().push((c.id, e));
            if !acc || ho.len() != 16 {
                break;
            }
            z = ho;
        }
    }
    fn go<F: Pick>(&self, id: &str) {
        let fid = fields().iter().position(|x| *x == id).unwrap();
        let st = &self.sink.stats;
        let c = self.c;
        let p = modulus::<F>();
        if c.mode.contains('c') {
            return self.chain::<F>(fid, &p);
        }
        let z: Vec<F> = c.z.iter().map(to_f::<F>).collect();
        let h = step::<F>(&c.hdr, Some(&z));
        let mut acc = false;
        let mut ho: Vec<BigUint> = vec![];
        if h.verdict == "ok" {
            acc = h.rec.satisfied();
            ho = h.outs.iter().map(|l| h.rec.eval(l).map(|x| from_f(&x)).unwrap_or_default()).collect();
        }
        let push = |e: String| self.sink.events.lock().unwrap().push((c.id, e));
        if c.mode.contains('h') {
            st.honest.fetch_add(1, Ordering::Relaxed);
            let v = match h.verdict {
                "ok" if acc => "acc",
                "ok" => "unsat",
                x => x,
            };
            let d: Vec<BigUint> = h.dec.iter().map(|x| x.as_ref().map(from_f).unwrap_or_else(|| p.clone())).collect();
            push(event(fid, "h", c, &p, v, &ho, &d, ""));
        }
        let ci = F::pick(self.circs);
        if c.mode.contains('s') {
            st.shapes.fetch_add(1, Ordering::Relaxed);
            let setup = match ci {
                Some(c) => c.fp.clone(),
                None => "none".into(),
            };
            let prove = if h.verdict == "ok" {
                format!("{:016x}/{}", fingerprint(&h.rec.cons, h.rec.nwires(), &h.rec.is_input), h.rec.cons.len())
            } else {
                h.verdict.into()
            };
            let e = event(fid, "s", c, &p, "", &[], &[], "");
            push(format!(
                "{},\"setup\":\"{}\",\"prove\":\"{}\",\"arity\":{},\"outs\":{}}}",
                &e[..e.len() - 1],
                setup,
                prove,
                arity::<F>(),
                ci.as_ref().map(|c| c.outs.len()).unwrap_or(0)
            ));
        }
        if c.mode.contains('x') || c.mode.contains('m') {
            let ci = match ci {
                Some(x) if x.bits.is_some() => x,
                _ => {
                    st.skipped.fetch_add(1, Ordering::Relaxed);
                    return;
                }
            };
            let nw = ci.rec.nwires();
            let cached = ci.cache.lock().unwrap().get(&c.hdr).cloned();
            let base = match cached {
                Some(x) => x,
                None => {
                    let mut pr = Prop::new(ci);
                    let ws: Vec<(usize, F)> = ci
                        .bits
                        .as_ref()
                        .unwrap()
                        .iter()
                        .enumerate()
                        .map(|(i, w)| (*w, F::from(c.hdr[i / 64] >> (63 - i % 64) & 1)))
                        .collect();
                    pr.set(ci, &ws);
                    let pr = Arc::new(pr);
                    ci.cache.lock().unwrap().insert(c.hdr, pr.clone());
                    pr
                }
            };
            let mut pr = (*base).clone();
            if !pr.conflict {
                let ws: Vec<(usize, F)> = ci.zin.iter().enumerate().map(|(i, w)| (*w, z[i])).collect();
                pr.set(ci, &ws);
            }
            if pr.conflict {
                st.attempts.fetch_add(1, Ordering::Relaxed);
                st.unsat.fetch_add(1, Ordering::Relaxed);
                return;
            }
            let (con, out0) = (&ci.rec.cons, &ci.outs);
            let alive: Vec<usize> = (0..con.len()).filter(|k| pr.alive[*k]).collect();
            let hv = if h.verdict == "ok" && h.rec.nwires() == nw { Some(&h.rec.vals[..]) } else { None };
            // what header and state force, then the part of the circuit that is still open
            let first = Open::new(alive.iter().map(|k| &con[*k]), out0, &pr.vals, hv);
            let mut vals = pr.vals;
            let mut rng = StdRng::seed_from_u64(self.sink.seed ^ c.id as u64);
            match Solver::forced(&first.cons, first.wires.len(), &first.fixed, &mut rng) {
                None => {
                    st.attempts.fetch_add(1, Ordering::Relaxed);
                    st.unsat.fetch_add(1, Ordering::Relaxed);
                    return;
                }
                Some(v) => {
                    for (i, x) in first.wires.iter().zip(v) {
                        vals[*i] = x;
                    }
                }
            }
            let Open { cons, wires: open, outs, fixed, hint } = Open::new(
                alive.iter().map(|k| &con[*k]).filter(|c| c.a.iter().chain(&c.b).chain(&c.c).any(|x| vals[x.0].is_none())),
                out0,
                &vals,
                hv,
            );
            let on = open.len();
            let attempt = |want: Option<&[BigUint]>, tag: &str| {
                st.attempts.fetch_add(1, Ordering::Relaxed);
                let mut cs = cons.clone();
                if let Some(o) = want {
                    for (l, v) in outs.iter().zip(o) {
                        let mut a = l.clone();
                        a.push((0, -to_f::<F>(v)));
                        cs.push(Con { a, b: vec![(0, F::ONE)], c: vec![] });
                    }
                }
                let mut rng = StdRng::seed_from_u64(self.sink.seed ^ c.id as u64);
                if let Some(o) = want {
                    // an output that is forced already
                    if outs.iter().zip(o).any(|(l, v)| l.iter().all(|x| x.0 == 0) && l.iter().fold(F::ZERO, |s, x| s + x.1) != to_f::<F>(v)) {
                        st.unsat.fetch_add(1, Ordering::Relaxed);
                        return;
                    }
                }
                let opts = Opts { max_nodes: 120, hint: hint.as_deref(), enumerate: None };
                let sol = Solver::run(&cs, on, &fixed, opts, &mut rng);
                match sol {
                    Out::Sat(v) => {
                        let mut vals = vals.clone();
                        for (i, x) in open.iter().zip(v) {
                            vals[*i] = Some(x);
                        }
                        // wires nothing mentions
                        for x in vals.iter_mut() {
                            if x.is_none() {
                                *x = Some(F::ZERO);
                            }
                        }
                        if first_unsat(&ci.rec.cons, &vals).is_some() {
                            st.unknown.fetch_add(1, Ordering::Relaxed);
                            return;
                        }
                        st.forged.fetch_add(1, Ordering::Relaxed);
                        let o: Vec<BigUint> =
                            ci.outs.iter().map(|l| from_f(&eval_with(l, &vals).unwrap())).collect();
                        push(event(fid, "f", c, &p, "acc", &o, &[], tag));
                    }
                    Out::Unsat => {
                        st.unsat.fetch_add(1, Ordering::Relaxed);
                    }
                    Out::Unknown => {
                        st.unknown.fetch_add(1, Ordering::Relaxed);
                    }
                }
            };
            if c.mode.contains('x') {
                attempt(None, "any");
            }
            if c.mode.contains('m') && acc {
                for (m, t) in mutants(&ho, &c.z, &c.hdr, &p) {
                    if !self.sink.outs.is_empty() && self.sink.outs.iter().all(|i| m[*i] == ho[*i]) {
                        continue;
                    }
                    attempt(Some(&m), &t);
                }
            }
        }
    }
}

pub fn execute(cases: &[Case], seed: u64, outs: Vec<usize>) -> HSink {
    HEADERS.get_or_init(|| headers(cases));
    let sink = HSink { events: Mutex::new(vec![]), stats: Stats::default(), seed, outs };
    let circs = Circs::default();
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases.len() {
                        break;
                    }
                    let e = Exec { c: &cases[i], sink: &sink, circs: &circs };
                    match cases[i].field.as_str() {
                        "bn" => e.go::<crate::fields::Bn>("bn"),
                        "pallas" => e.go::<crate::fields::Pallas>("pallas"),
                        "vesta" => e.go::<crate::fields::Vesta>("vesta"),
                        o => panic!("header field {}", o),
                    }
                })
                .unwrap();
        }
    });
    sink.events.lock().unwrap().sort_by(|a, b| a.0.cmp(&b.0));
    sink
}

/// what folding is set up with: the published state, and lists of headers turned into circuits.
/// A case is a line `field header,header,..;z0 .. z15;z0 .. z15;..`
pub fn setup(text: &str) -> (String, Vec<String>) {
    let mut all: Vec<[u64; 10]> = vec![];
    let mut lists = vec![];
    for l in text.lines() {
        let p: Vec<&str> = l.split(';').collect();
        let mut w = p[0].split_whitespace();
        let field = w.next().unwrap().to_string();
        let hs: Vec<[u64; 10]> = w.next().map(|x| x.split(',').map(header).collect()).unwrap_or_default();
        let zs: Vec<Vec<BigUint>> =
            p[1..].iter().map(|z| z.split_whitespace().map(|x| BigUint::parse_bytes(x.as_bytes(), 16).unwrap()).collect()).collect();
        for h in &hs {
            if !all.contains(h) {
                all.push(*h);
            }
        }
        lists.push((field, hs, zs));
    }
    let mut out = vec![];
    for f in ["pallas", "vesta", "bn"] {
        out.push(match f {
            "bn" => published::<crate::fields::Bn>(f),
            "pallas" => published::<crate::fields::Pallas>(f),
            _ => published::<crate::fields::Vesta>(f),
        });
    }
    let next = AtomicUsize::new(0);
    let evs = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= lists.len() {
                        break;
                    }
                    let (f, hs, zs) = &lists[i];
                    let e = match f.as_str() {
                        "bn" => listed::<crate::fields::Bn>(f, hs, zs, &all),
                        "pallas" => listed::<crate::fields::Pallas>(f, hs, zs, &all),
                        _ => listed::<crate::fields::Vesta>(f, hs, zs, &all),
                    };
                    evs.lock().unwrap().push((i, e));
                })
                .unwrap();
        }
    });
    let mut evs = evs.into_inner().unwrap();
    evs.sort_by_key(|x| x.0);
    out.extend(evs.into_iter().map(|x| x.1));
    let hs = json::list(&all, |h| {
        let by: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
        json::list(&by, |x| x.to_string())
    });
    let l = crate::ev::header_line();
    (format!("{},\"headers\":{}}}", &l[..l.len() - 1], hs), out)
}

fn published<F: PrimeField + PrimeFieldBits>(id: &str) -> String {
    let z: Vec<BigUint> = catch_unwind(|| BlockHeader::<F>::initial_z_i_scalars().iter().map(from_f).collect()).unwrap_or_default();
    let fid = fields().iter().position(|x| *x == id).unwrap();
    format!("{{\"k\":\"z\",\"f\":{},\"z\":{}}}", fid + 1, json::nats(&z))
}

fn listed<F: PrimeField + PrimeFieldBits>(id: &str, hs: &[[u64; 10]], zs: &[Vec<BigUint>], all: &[[u64; 10]]) -> String {
    let fid = fields().iter().position(|x| *x == id).unwrap();
    let idx: Vec<usize> = hs.iter().map(|h| 1 + all.iter().position(|x| x == h).unwrap()).collect();
    let cs = catch_unwind(|| BlockHeader::<F>::new_blocks(hs.to_vec()));
    let (n, got) = match cs {
        Err(_) => (-1, vec![]),
        Ok(cs) => {
            let mut got = vec![];
            for (c, z) in cs.iter().zip(zs) {
                let zf: Vec<F> = z.iter().map(to_f).collect();
                let s = step_of(c, Some(&zf));
                let o: Vec<BigUint> = s.outs.iter().map(|l| s.rec.eval(l).map(|x| from_f(&x)).unwrap_or_default()).collect();
                let v = if s.verdict != "ok" || o.len() < 12 {
                    "err"
                } else if !s.rec.satisfied() {
                    "unsat"
                } else {
                    "acc"
                };
                got.push((v, o.first().cloned().unwrap_or_default(), o.get(11).cloned().unwrap_or_default()));
            }
            (cs.len() as i64, got)
        }
    };
    format!(
        "{{\"k\":\"b\",\"f\":{},\"list\":{},\"n\":{},\"got\":{}}}",
        fid + 1,
        json::list(&idx, |x| x.to_string()),
        n,
        json::list(&got, |g| format!("{{\"v\":\"{}\",\"tip\":{},\"time\":{}}}", g.0, json::digits(&g.1), json::digits(&g.2)))
    )
}

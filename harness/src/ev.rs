//! Runs calls against the real code and writes the recorded events for spec/GadgetTrace.tla.
use crate::fields::{dispatch, Visit};
use crate::gadgets::{from_f, modulus, run, to_f, Call, Run};
use crate::json;
use crate::rec::{eval_with, Con, SLc};
use crate::small;
use crate::solve::{Opts, Out, Solver};
use ff::PrimeField;
use num_bigint::BigUint;
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Task {
    /// run the call honestly and record what happened
    Honest(Call),
    /// look for an accepted assignment with these inputs and (if given) these outputs
    Forge(Call, Option<Vec<BigUint>>, &'static str),
    /// forge every mutation of the honest outputs
    ForgeAll(Call),
    /// export the circuit as a finite machine
    Machine(Call),
    /// fingerprint the circuit with and without a witness
    Shape(Call),
}

pub struct Job {
    pub field: &'static str,
    pub task: Task,
}

pub fn fingerprint<F: PrimeField>(cons: &[Con<F>], nw: usize, is_input: &[bool]) -> u64 {
    let mut h = DefaultHasher::new();
    nw.hash(&mut h);
    is_input.hash(&mut h);
    for c in cons {
        for l in [&c.a, &c.b, &c.c] {
            l.len().hash(&mut h);
            for (i, x) in l {
                i.hash(&mut h);
                x.to_repr().as_ref().hash(&mut h);
            }
        }
    }
    h.finish()
}

#[derive(Default)]
pub struct Stats {
    pub honest: AtomicUsize,
    pub attempts: AtomicUsize,
    pub forged: AtomicUsize,
    pub unsat: AtomicUsize,
    pub unknown: AtomicUsize,
    pub machines: AtomicUsize,
    pub shapes: AtomicUsize,
    pub skipped: AtomicUsize,
}

pub struct Sink {
    pub events: Mutex<Vec<(usize, String)>>,
    pub machines: Mutex<Vec<(usize, String)>>,
    pub stats: Stats,
    pub seed: u64,
    /// largest circuit machine to export
    pub max_states: u64,
}

pub fn fields() -> Vec<&'static str> {
    vec![
        "13", "17", "31", "37", "61", "67", "127", "131", "251", "257", "509", "521", "1021", "2053", "4093",
        "8191", "32749", "65521", "1000003", "m31", "m61", "g63", "bls", "pallas", "vesta", "bn",
    ]
}
struct Info;
impl Visit for Info {
    type Out = String;
    fn visit<F: PrimeField>(self, id: &str) -> String {
        format!(
            "{{\"id\":\"{}\",\"p\":{},\"cap\":{},\"nb\":{}}}",
            id,
            json::digits(&modulus::<F>()),
            F::CAPACITY,
            F::NUM_BITS
        )
    }
}
pub fn header_line() -> String {
    let f = fields();
    format!("{{\"fields\":{}}}", json::list(&f, |x| dispatch(x, Info)))
}

fn event<F: PrimeField>(
    fid: usize,
    k: &str,
    call: &Call,
    v: &str,
    outs: &[BigUint],
    dec: Option<&[BigUint]>,
    run: Option<&Run<F>>,
    tag: &str,
) -> String {
    let p = modulus::<F>();
    // inputs as they are on the wires; calls taking plain numbers keep them as given
    let plain = ["nat2f", "negnat2f", "n2l", "alloc_nat", "ver_diff", "vmedian", "median", "u2f"].contains(&call.op.as_str());
    let ins: Vec<BigUint> = if plain { call.ins.clone() } else { call.ins.iter().map(|x| x % &p).collect() };
    let empty = vec![];
    let (bn, res) = match run {
        Some(r) => (&r.bn[..], &r.res[..]),
        None => (&empty[..], &[][..]),
    };
    let bn = if k == "h" && v == "acc" { bn } else { &[] };
    let neg = res.iter().any(json::isneg);
    format!(
        "{{\"k\":\"{}\",\"op\":\"{}\",\"f\":{},\"par\":{},\"cst\":{},\"in\":{},\"v\":\"{}\",\"out\":{},\"dec\":{},\"bn\":{},\"res\":{},\"neg\":{},\"tag\":\"{}\"}}",
        k,
        call.op,
        fid + 1,
        json::ints(&call.par),
        json::nats(&call.cst),
        json::nats(&ins),
        v,
        json::nats(outs),
        match dec {
            Some(d) => json::nats(d),
            None => json::nats(outs),
        },
        json::list(bn, |b| format!(
            "{{\"first\":{},\"cnt\":{},\"has\":{},\"neg\":{},\"val\":{},\"max\":{},\"w\":{},\"n\":{},\"mb\":{}}}",
            b.first,
            b.cnt,
            b.has,
            json::isneg(&b.val),
            json::absd(&b.val),
            json::absd(&b.max),
            b.w,
            b.n,
            b.mb
        )),
        json::list(res, json::absd),
        neg,
        tag
    )
}

struct Exec<'a> {
    job: &'a Job,
    idx: usize,
    sink: &'a Sink,
}

/// plausible wrong outputs for an honest output vector
fn mutations(call: &Call, o: &[BigUint], p: &BigUint) -> Vec<(Vec<BigUint>, &'static str)> {
    let mut out: Vec<(Vec<BigUint>, &'static str)> = vec![];
    let one = BigUint::from(1u8);
    for i in 0..o.len() {
        if i >= 6 && i + 2 < o.len() {
            continue;
        }
        let mut v = o.to_vec();
        if o[i] <= one {
            v[i] = &one - &o[i];
            out.push((v, "flip"));
        }
        let mut v = o.to_vec();
        v[i] = (&o[i] + 1u8) % p;
        out.push((v, "inc"));
        let mut v = o.to_vec();
        v[i] = (&o[i] + p - 1u8) % p;
        out.push((v, "dec"));
    }
    if o.len() > 1 {
        let mut v = o.to_vec();
        v.reverse();
        out.push((v, "rev"));
        // move one unit of a higher limb into the lower one
        if let Some(w) = call.par.first() {
            let w = *w as usize;
            if w < 200 {
                for i in 0..(o.len() - 1).min(4) {
                    let mut v = o.to_vec();
                    v[i] = (&o[i] + (BigUint::from(1u8) << w)) % p;
                    v[i + 1] = (&o[i + 1] + p - 1u8) % p;
                    out.push((v, "borrow"));
                }
            }
        }
    }
    if !o.is_empty() {
        out.push((vec![BigUint::from(0u8); o.len()], "zero"));
    }
    let limbs = |x: &BigUint, w: usize, n: usize| -> Option<Vec<BigUint>> {
        if x.bits() as usize > w * n {
            return None;
        }
        let m = (BigUint::from(1u8) << w) - 1u8;
        Some((0..n).map(|i| (x >> (w * i)) & &m).collect())
    };
    let nat = |ls: &[BigUint], w: usize| -> BigUint {
        ls.iter().rev().fold(BigUint::from(0u8), |a, l| (a << w) + l)
    };
    let pr: Vec<usize> = call.par.iter().map(|x| *x as usize).collect();
    match call.op.as_str() {
        "mult_mod" | "red_mod" | "calc_diff" => {
            // another quotient, remainder not reduced
            let (w, nr, nq, m) = if call.op == "mult_mod" {
                (pr[0], pr[3], o.len() - pr[3], nat(&call.ins[pr[1] + pr[2]..], pr[0]))
            } else if call.op == "red_mod" {
                (pr[0], pr[2], 0, nat(&call.ins[pr[1]..], pr[0]))
            } else {
                (64, 0, o.len(), BigUint::from(1209600u32))
            };
            let q = nat(&o[..nq], w);
            let r = nat(&o[nq..], w);
            for d in [1u32, 2, 3] {
                let rr = &r + &m * d;
                let qq = if q >= BigUint::from(d) { Some(&q - d) } else { None };
                let rl = if nr > 0 { limbs(&rr, w, nr) } else { Some(vec![]) };
                let ql = if nq > 0 { qq.and_then(|q| limbs(&q, w, nq)) } else { Some(vec![]) };
                if let (Some(a), Some(b)) = (ql, rl) {
                    let mut v = a;
                    v.extend(b);
                    out.push((v, "unreduced"));
                }
            }
        }
        "from_num" => {
            let x = nat(o, pr[0]);
            for d in 1..4u32 {
                if let Some(v) = limbs(&(&x + p * d), pr[0], pr[1]) {
                    out.push((v, "alias"));
                }
            }
        }
        "decompose" | "bn_decompose" => {}
        "min" => {
            let a = call.ins[..pr[1]].to_vec();
            let b = call.ins[pr[1]..pr[1] + pr[2]].to_vec();
            for mut v in [a, b] {
                v.resize(o.len(), BigUint::from(0u8));
                out.push((v, "operand"));
            }
        }
        "mux" | "gmux" | "switch" | "gswitch" => {
            let n = o.len();
            let rest = &call.ins[1..];
            for k in 0..=(rest.len().saturating_sub(n)) {
                out.push((rest[k..k + n.min(rest.len() - k)].to_vec(), "other"));
            }
        }
        _ => {}
    }
    out.retain(|(v, _)| v.len() == o.len() && v[..] != o[..]);
    out
}

fn circuit<F: PrimeField>(call: &Call) -> Option<Run<F>> {
    let r = run::<F>(call, false);
    if r.verdict == "ok" {
        return Some(r);
    }
    // code that cannot be synthesised without a witness: take the circuit of an honest run
    let r = run::<F>(call, true);
    if r.verdict == "ok" {
        return Some(r);
    }
    None
}

/// The wires that carry the inputs of a call that takes plain numbers: for each input the first wire
/// holding its value in several runs on unrelated inputs.
fn locate<F: PrimeField>(call: &Call, field: &'static str, seed: u64) -> Option<Vec<SLc<F>>> {
    let f = crate::sets::info(field);
    let rg = crate::sets::ranges(&call.op, &call.par, &call.cst, &f);
    let mut rng = StdRng::seed_from_u64(seed);
    let mut runs: Vec<(Vec<F>, Run<F>)> = vec![];
    for _ in 0..12 {
        let ins: Vec<BigUint> = rg.iter().map(|m| crate::sets::below(&mut rng, m)).collect();
        let r = run::<F>(&Call::new(&call.op, &call.par, &call.cst, &ins), true);
        if r.verdict == "ok" {
            runs.push((ins.iter().map(to_f::<F>).collect(), r));
        }
        if runs.len() == 4 {
            break;
        }
    }
    if runs.len() < 4 {
        return None;
    }
    let nw = runs[0].1.rec.nwires();
    if runs.iter().any(|x| x.1.rec.nwires() != nw) {
        return None;
    }
    let mut out: Vec<SLc<F>> = vec![];
    let mut used = vec![false; nw];
    for i in 0..rg.len() {
        let w = (1..nw).find(|w| !used[*w] && runs.iter().all(|(v, r)| r.rec.vals[*w] == Some(v[i])))?;
        used[w] = true;
        out.push(vec![(w, F::ONE)]);
    }
    Some(out)
}

impl<'a> Exec<'a> {
    /// the circuit of a call, with the wires of its inputs
    fn circuit<F: PrimeField>(&self, call: &Call) -> Option<Run<F>> {
        let mut c = circuit::<F>(call)?;
        if c.ins.is_empty() && !call.ins.is_empty() {
            c.ins = locate::<F>(call, self.job.field, self.sink.seed ^ self.idx as u64)?;
        }
        Some(c)
    }
    fn forge<F: PrimeField>(&self, fid: usize, call: &Call, cir: &Run<F>, outs: Option<&[BigUint]>, hint: Option<&Run<F>>, tag: &str) {
        let st = &self.sink.stats;
        if cir.ins.len() != call.ins.len() {
            st.skipped.fetch_add(1, Ordering::Relaxed);
            return;
        }
        st.attempts.fetch_add(1, Ordering::Relaxed);
        let nw = cir.rec.nwires();
        let mut fixed: Vec<Option<F>> = vec![None; nw];
        fixed[0] = Some(F::ONE);
        for (l, v) in cir.ins.iter().zip(&call.ins) {
            if l.len() == 1 && l[0].1 == F::ONE {
                fixed[l[0].0] = Some(to_f::<F>(v));
            }
        }
        let mut cons = cir.rec.cons.clone();
        if let Some(o) = outs {
            for (l, v) in cir.outs.iter().zip(o) {
                let mut a = l.clone();
                a.push((0, -to_f::<F>(v)));
                cons.push(Con { a, b: vec![(0, F::ONE)], c: vec![] });
            }
        }
        let mut rng = StdRng::seed_from_u64(self.sink.seed ^ self.idx as u64);
        let hv = hint.map(|h| h.rec.vals.clone());
        let small = F::NUM_BITS <= 9;
        let opts = Opts {
            max_nodes: if small { 4000 } else { 300 },
            hint: hv.as_deref().filter(|h| h.len() == nw),
            enumerate: if small { Some(modulus::<F>().to_u64_digits()[0]) } else { None },
        };
        match Solver::run(&cons, nw, &fixed, opts, &mut rng) {
            Out::Sat(v) => {
                st.forged.fetch_add(1, Ordering::Relaxed);
                let vals: Vec<Option<F>> = v.into_iter().map(Some).collect();
                // independent re-check against the recorded system
                if crate::rec::first_unsat(&cir.rec.cons, &vals).is_some() {
                    return;
                }
                let o: Vec<BigUint> = cir.outs.iter().map(|l| from_f(&eval_with(l, &vals).unwrap())).collect();
                let e = event::<F>(fid, "f", call, "acc", &o, None, None, tag);
                self.sink.events.lock().unwrap().push((self.idx, e));
            }
            Out::Unsat => {
                st.unsat.fetch_add(1, Ordering::Relaxed);
            }
            Out::Unknown => {
                st.unknown.fetch_add(1, Ordering::Relaxed);
            }
        }
    }
}

impl<'a> Visit for Exec<'a> {
    type Out = ();
    fn visit<F: PrimeField>(self, id: &str) {
        let fid = fields().iter().position(|x| *x == id).unwrap();
        let st = &self.sink.stats;
        match &self.job.task {
            Task::Honest(call) => {
                let r = run::<F>(call, true);
                st.honest.fetch_add(1, Ordering::Relaxed);
                let v = match r.verdict {
                    "ok" => {
                        if r.rec.satisfied() {
                            "acc"
                        } else {
                            "unsat"
                        }
                    }
                    x => x,
                };
                let (o, d) = if r.verdict == "ok" {
                    let o: Vec<BigUint> = r.outs.iter().map(|l| r.rec.eval(l).map(|x| from_f(&x)).unwrap_or_default()).collect();
                    // an undeclared value is reported as p, which no wire can hold
                    let d: Vec<BigUint> =
                        r.dec.iter().map(|x| x.as_ref().map(from_f).unwrap_or_else(modulus::<F>)).collect();
                    (o, d)
                } else {
                    (vec![], vec![])
                };
                let e = event::<F>(fid, "h", call, v, &o, Some(&d), Some(&r), "");
                self.sink.events.lock().unwrap().push((self.idx, e));
            }
            Task::Forge(call, outs, tag) => {
                if let Some(c) = self.circuit::<F>(call) {
                    let h = run::<F>(call, true);
                    let h = if h.verdict == "ok" { Some(h) } else { None };
                    self.forge::<F>(fid, call, &c, outs.as_deref(), h.as_ref(), tag);
                } else {
                    st.skipped.fetch_add(1, Ordering::Relaxed);
                }
            }
            Task::ForgeAll(call) => {
                let h = run::<F>(call, true);
                if h.verdict != "ok" {
                    st.skipped.fetch_add(1, Ordering::Relaxed);
                    return;
                }
                if let Some(c) = self.circuit::<F>(call) {
                    let o: Vec<BigUint> = h.outs.iter().map(|l| h.rec.eval(l).map(|x| from_f(&x)).unwrap_or_default()).collect();
                    for (m, tag) in mutations(call, &o, &modulus::<F>()) {
                        self.forge::<F>(fid, call, &c, Some(&m), Some(&h), tag);
                    }
                }
            }
            Task::Machine(call) => {
                if let Some(c) = self.circuit::<F>(call) {
                    let f = crate::sets::info(self.job.field);
                    let rg = crate::sets::ranges(&call.op, &call.par, &call.cst, &f);
                    if c.ins.len() != call.ins.len() || rg.len() != c.ins.len() {
                        st.skipped.fetch_add(1, Ordering::Relaxed);
                    } else if let Some(s) = small::export(call, &c, &rg, self.sink.max_states) {
                        st.machines.fetch_add(1, Ordering::Relaxed);
                        self.sink.machines.lock().unwrap().push((self.idx, s));
                    }
                } else {
                    st.skipped.fetch_add(1, Ordering::Relaxed);
                }
            }
            Task::Shape(call) => {
                st.shapes.fetch_add(1, Ordering::Relaxed);
                let fp = |w: bool| -> String {
                    let r = run::<F>(call, w);
                    if r.verdict == "ok" {
                        format!("{:016x}/{}", fingerprint(&r.rec.cons, r.rec.nwires(), &r.rec.is_input), r.rec.cons.len())
                    } else {
                        format!("{}", r.verdict)
                    }
                };
                let e = format!(
                    "{{\"k\":\"s\",\"op\":\"{}\",\"f\":{},\"par\":{},\"cst\":{},\"in\":{},\"setup\":\"{}\",\"prove\":\"{}\"}}",
                    call.op,
                    fid + 1,
                    json::ints(&call.par),
                    json::nats(&call.cst),
                    json::nats(&call.ins),
                    fp(false),
                    fp(true)
                );
                self.sink.events.lock().unwrap().push((self.idx, e));
            }
        }
    }
}

pub fn execute(jobs: &[Job], seed: u64, max_states: u64) -> Sink {
    let sink = Sink { events: Mutex::new(vec![]), machines: Mutex::new(vec![]), stats: Stats::default(), seed, max_states };
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= jobs.len() {
                        break;
                    }
                    dispatch(jobs[i].field, Exec { job: &jobs[i], idx: i, sink: &sink });
                })
                .unwrap();
        }
    });
    sink.events.lock().unwrap().sort_by_key(|x| x.0);
    sink.machines.lock().unwrap().sort_by_key(|x| x.0);
    sink
}

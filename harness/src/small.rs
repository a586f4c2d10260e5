//! Export of a recorded constraint system as a finite machine for spec/R1CS.tla: wires renumbered
//! into an order in which as many as possible are determined by earlier ones.
use crate::gadgets::{from_f, modulus, Call, Run};
use crate::json;
use crate::rec::{Con, SLc};
use ff::PrimeField;
use num_traits::ToPrimitive;
use std::collections::{BTreeMap, BTreeSet};

fn iv<F: PrimeField>(f: &F) -> u64 {
    from_f(f).to_u64().unwrap()
}

pub struct Plan<F> {
    pub order: Vec<usize>,
    /// for each position: linear combination of constraint residuals giving the wire, or empty
    pub det: Vec<Vec<(usize, F)>>,
    pub close: Vec<Vec<usize>>,
    pub free: usize,
}

/// only constant terms?
fn is_const<F>(l: &SLc<F>) -> bool {
    l.iter().all(|x| x.0 == 0)
}

pub fn plan<F: PrimeField>(cons: &[Con<F>], nw: usize, first: &[usize]) -> Plan<F> {
    let mut known = vec![false; nw];
    let mut order = vec![0usize];
    let mut det = vec![vec![]];
    known[0] = true;
    for w in first {
        assert!(!known[*w]);
        known[*w] = true;
        order.push(*w);
        det.push(vec![]);
    }
    let mut free = 0;
    // wires with a univariate quadratic constraint
    let mut dom: BTreeSet<usize> = BTreeSet::new();
    for c in cons {
        let ws: BTreeSet<usize> =
            c.a.iter().chain(&c.b).chain(&c.c).map(|x| x.0).filter(|x| *x != 0).collect();
        if ws.len() == 1 {
            dom.insert(*ws.iter().next().unwrap());
        }
    }
    while order.len() < nw {
        // rows that are linear in the unknown wires with constant coefficients
        let mut rows: Vec<(BTreeMap<usize, F>, BTreeMap<usize, F>)> = vec![];
        for (j, c) in cons.iter().enumerate() {
            let ua = c.a.iter().any(|x| !known[x.0]);
            let ub = c.b.iter().any(|x| !known[x.0]);
            let mut lin: BTreeMap<usize, F> = BTreeMap::new();
            let mut add = |l: &SLc<F>, s: F| {
                for (i, x) in l {
                    if !known[*i] {
                        *lin.entry(*i).or_insert(F::ZERO) += *x * s;
                    }
                }
            };
            add(&c.c, -F::ONE);
            if ua && ub {
                continue;
            } else if ua {
                if !is_const(&c.b) {
                    continue;
                }
                let k = c.b.iter().fold(F::ZERO, |s, x| s + x.1);
                add(&c.a, k);
            } else if ub {
                if !is_const(&c.a) {
                    continue;
                }
                let k = c.a.iter().fold(F::ZERO, |s, x| s + x.1);
                add(&c.b, k);
            }
            lin.retain(|_, x| !bool::from(x.is_zero()));
            if !lin.is_empty() {
                let mut lam = BTreeMap::new();
                lam.insert(j, F::ONE);
                rows.push((lin, lam));
            }
        }
        // Gauss-Jordan
        let mut piv: Vec<(usize, BTreeMap<usize, F>, BTreeMap<usize, F>)> = vec![];
        let sub = |m: &mut BTreeMap<usize, F>, o: &BTreeMap<usize, F>, c: F| {
            for (i, x) in o {
                let e = m.entry(*i).or_insert(F::ZERO);
                *e -= *x * c;
                if bool::from(e.is_zero()) {
                    m.remove(i);
                }
            }
        };
        for (mut r, mut l) in rows {
            for (p, pr, pl) in &piv {
                if let Some(c) = r.get(p).cloned() {
                    sub(&mut r, pr, c);
                    sub(&mut l, pl, c);
                }
            }
            if r.is_empty() {
                continue;
            }
            let (p, c) = {
                let x = r.iter().next().unwrap();
                (*x.0, *x.1)
            };
            let ci = c.invert().unwrap();
            for x in r.values_mut() {
                *x *= ci;
            }
            for x in l.values_mut() {
                *x *= ci;
            }
            for (_, pr, pl) in piv.iter_mut() {
                if let Some(c) = pr.get(&p).cloned() {
                    sub(pr, &r, c);
                    sub(pl, &l, c);
                }
            }
            piv.push((p, r, l));
        }
        let mut got = false;
        for (p, r, l) in piv {
            if r.len() == 1 && !known[p] {
                known[p] = true;
                order.push(p);
                // u + sum(lam * R) = 0 -> u = -sum lam R(known, 0)
                det.push(l.into_iter().map(|(j, x)| (j, -x)).collect());
                got = true;
            }
        }
        if got {
            continue;
        }
        // a wire that is the only unknown of some constraint
        let mut pick = None;
        for c in cons {
            let ws: BTreeSet<usize> =
                c.a.iter().chain(&c.b).chain(&c.c).map(|x| x.0).filter(|x| !known[*x]).collect();
            if ws.len() == 1 {
                let w = *ws.iter().next().unwrap();
                if !dom.contains(&w) {
                    pick = Some(w);
                    break;
                }
                if pick.is_none() {
                    pick = Some(w);
                }
            }
        }
        let w = match pick {
            Some(w) => w,
            None => {
                // booleans first: few values each, and sums of them determine other wires
                match (0..nw).find(|w| !known[*w] && dom.contains(w)) {
                    Some(w) => w,
                    None => {
                        free += 1;
                        // prefer the wire with most occurrences
                        let mut cnt = vec![0usize; nw];
                        for c in cons {
                            for x in c.a.iter().chain(&c.b).chain(&c.c) {
                                cnt[x.0] += 1;
                            }
                        }
                        (0..nw).filter(|w| !known[*w]).max_by_key(|w| cnt[*w]).unwrap()
                    }
                }
            }
        };
        known[w] = true;
        order.push(w);
        det.push(vec![]);
    }
    let mut pos = vec![0; nw];
    for (k, w) in order.iter().enumerate() {
        pos[*w] = k;
    }
    let mut close = vec![vec![]; nw];
    for (j, c) in cons.iter().enumerate() {
        let k = c.a.iter().chain(&c.b).chain(&c.c).map(|x| pos[x.0]).max().unwrap_or(0);
        close[k].push(j);
    }
    Plan { order, det, close, free }
}

/// number of states of the machine (choice points), or None beyond the limit
fn count<F: PrimeField>(cons: &[Con<F>], pl: &Plan<F>, pos: &[usize], lim: &[u64], max: u64) -> Option<u64> {
    let p = modulus::<F>().to_u64().unwrap();
    let cv = |l: &SLc<F>| -> Vec<(usize, u64)> { l.iter().map(|(i, c)| (pos[*i] - 1, iv(c))).collect() };
    let cs: Vec<[Vec<(usize, u64)>; 3]> = cons.iter().map(|c| [cv(&c.a), cv(&c.b), cv(&c.c)]).collect();
    let ev = |l: &[(usize, u64)], x: &[u64]| l.iter().fold(0, |s, t| if t.0 < x.len() { (s + t.1 * x[t.0]) % p } else { s });
    let res = |j: usize, x: &[u64]| (ev(&cs[j][0], x) * ev(&cs[j][1], x) + p - ev(&cs[j][2], x)) % p;
    let det: Vec<Vec<(usize, u64)>> = pl.det.iter().map(|d| d.iter().map(|(j, c)| (*j, iv(c))).collect()).collect();
    let nw = pl.order.len();
    let mut n = 0u64;
    // values left to try at each choice
    let mut x: Vec<u64> = vec![1];
    let mut choices: Vec<usize> = vec![];
    let mut work = 0u64;
    loop {
        // run forward
        let mut ok = true;
        loop {
            work += 1;
            if pl.close[x.len() - 1].iter().any(|j| res(*j, &x) != 0) {
                ok = false;
                break;
            }
            if x.len() == nw || det[x.len()].is_empty() {
                break;
            }
            let v = det[x.len()].iter().fold(0, |s, t| (s + t.1 * res(t.0, &x)) % p);
            x.push(v);
        }
        if ok {
            n += 1;
        }
        if n > max || work > 40 * max {
            return None;
        }
        if ok && x.len() < nw {
            choices.push(x.len());
            x.push(0);
            continue;
        }
        // back
        loop {
            match choices.last() {
                None => return Some(n),
                Some(k) => {
                    let k = *k;
                    x.truncate(k + 1);
                    let up = if k <= lim.len() { lim[k - 1] } else { p };
                    if x[k] + 1 < up {
                        x[k] += 1;
                        break;
                    }
                    choices.pop();
                }
            }
        }
    }
}

/// None: more than `max` states
pub fn export<F: PrimeField>(call: &Call, run: &Run<F>, rg: &[num_bigint::BigUint], max: u64) -> Option<String> {
    let nw = run.rec.nwires();
    let first: Vec<usize> = run.ins.iter().map(|l| {
        assert!(l.len() == 1 && l[0].1 == F::ONE);
        l[0].0
    }).collect();
    let pl = plan(&run.rec.cons, nw, &first);
    let mut pos = vec![0; nw];
    for (k, w) in pl.order.iter().enumerate() {
        pos[*w] = k + 1;
    }
    let p = modulus::<F>().to_u64().unwrap();
    let lim: Vec<u64> = rg.iter().map(|x| x.to_u64().unwrap_or(p).min(p)).collect();
    let nst = count(&run.rec.cons, &pl, &pos, &lim, max)?;
    let lc = |l: &SLc<F>| json::list(l, |(i, c)| format!("[{},{}]", pos[*i], iv(c)));
    let mut s = format!(
        "{{\"op\":\"{}\",\"par\":{},\"cst\":{},\"p\":{},\"cap\":{},\"nb\":{},\"nw\":{},\"nin\":{},\"free\":{},\"nst\":{},\"lim\":{}",
        call.op,
        json::ints(&call.par),
        json::nats(&call.cst),
        modulus::<F>(),
        F::CAPACITY,
        F::NUM_BITS,
        nw,
        first.len(),
        pl.free,
        nst,
        json::list(&lim, |x| x.to_string())
    );
    s += &format!(
        ",\"cons\":{}",
        json::list(&run.rec.cons, |c| format!("[{},{},{}]", lc(&c.a), lc(&c.b), lc(&c.c)))
    );
    s += &format!(",\"det\":{}", json::list(&pl.det, |d| json::list(d, |(j, c)| format!("[{},{}]", j + 1, iv(c)))));
    s += &format!(",\"close\":{}", json::list(&pl.close, |d| json::list(d, |j| format!("{}", j + 1))));
    s += &format!(",\"outs\":{}}}", json::list(&run.outs, lc));
    Some(s)
}

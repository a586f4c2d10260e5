//! Folds whole chains with Nova and records what the verifier says, for spec/HeaderNova.tla.
//!
//! A case is a line `header,header,.. z0 .. z15` (hex).
use crate::gadgets::{from_f, to_f};
use crate::json;
use nova_snark::provider::{PallasEngine, VestaEngine};
use nova_snark::traits::circuit::TrivialCircuit;
use nova_snark::traits::snark::default_ck_hint;
use nova_snark::traits::Engine;
use nova_snark::{PublicParams, RecursiveSNARK};
use num_bigint::BigUint;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use validate_btc_header::btc_validation::header_step::BlockHeader;

type E1 = PallasEngine;
type E2 = VestaEngine;
type F = <E1 as Engine>::Scalar;
type G = <E2 as Engine>::Scalar;
type C1 = BlockHeader<F>;
type C2 = TrivialCircuit<G>;
type Pp = PublicParams<E1, E2, C1, C2>;

pub struct NCase {
    pub hdrs: Vec<[u64; 10]>,
    pub z: Vec<BigUint>,
}

fn ev(case: usize, k: &str, upto: usize, steps: usize, z: &[BigUint], v: &str, zo: &[F]) -> String {
    format!(
        "{{\"k\":\"{}\",\"case\":{},\"upto\":{},\"steps\":{},\"z\":{},\"v\":\"{}\",\"zo\":{}}}",
        k, case, upto, steps, json::nats(z), v, json::nats(&zo.iter().map(from_f).collect::<Vec<_>>())
    )
}

fn verify(pp: &Pp, s: &RecursiveSNARK<E1, E2, C1, C2>, n: usize, z: &[F]) -> (&'static str, Vec<F>) {
    match catch_unwind(AssertUnwindSafe(|| s.verify(pp, n, z, &[G::from(0u64)]))) {
        Ok(Ok((zo, _))) => ("acc", zo),
        Ok(Err(_)) => ("ref", vec![]),
        Err(_) => ("panic", vec![]),
    }
}

fn fold(pp: &Pp, id: usize, c: &NCase) -> Vec<String> {
    let mut out = vec![];
    let z: Vec<F> = c.z.iter().map(to_f).collect();
    let circs = C1::new_blocks(c.hdrs.clone());
    let sec = C2::default();
    let s = catch_unwind(AssertUnwindSafe(|| RecursiveSNARK::<E1, E2, C1, C2>::new(pp, &circs[0], &sec, &z, &[G::from(0u64)])));
    let mut s = match s {
        Ok(Ok(s)) => s,
        Ok(Err(_)) => return vec![ev(id, "v", 1, 1, &c.z, "err", &[])],
        Err(_) => return vec![ev(id, "v", 1, 1, &c.z, "panic", &[])],
    };
    for (i, b) in circs.iter().enumerate() {
        match catch_unwind(AssertUnwindSafe(|| s.prove_step(pp, b, &sec))) {
            Ok(Ok(())) => {}
            Ok(Err(_)) => {
                out.push(ev(id, "v", i + 1, i + 1, &c.z, "err", &[]));
                return out;
            }
            Err(_) => {
                out.push(ev(id, "v", i + 1, i + 1, &c.z, "panic", &[]));
                return out;
            }
        }
        let (v, zo) = verify(pp, &s, i + 1, &z);
        out.push(ev(id, "v", i + 1, i + 1, &c.z, v, &zo));
        if v != "acc" {
            return out;
        }
    }
    // the same proof for other claims
    let n = circs.len();
    for m in [n + 1, n.wrapping_sub(1)] {
        if m > 0 && m <= n + 1 {
            let (v, zo) = verify(pp, &s, m, &z);
            out.push(ev(id, "w", n, m, &c.z, v, &zo));
        }
    }
    for k in [0usize, 1, 11, 12, 13, 14, 15] {
        let mut z2 = c.z.clone();
        z2[k] += 1u32;
        let zf: Vec<F> = z2.iter().map(to_f).collect();
        let (v, zo) = verify(pp, &s, n, &zf);
        out.push(ev(id, "w", n, n, &z2, v, &zo));
    }
    out
}

/// the events, and whether the parameters could be made
pub fn execute(cases: &[NCase]) -> (Vec<String>, usize) {
    let pp = match catch_unwind(|| Pp::setup(&C1::default(), &C2::default(), &*default_ck_hint(), &*default_ck_hint())) {
        Ok(Ok(p)) => p,
        _ => return (vec![ev(0, "p", 0, 0, &[], "err", &[])], 0),
    };
    let all = Mutex::new(vec![]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..4 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases.len() {
                        break;
                    }
                    let e = fold(&pp, i, &cases[i]);
                    all.lock().unwrap().push((i, e));
                })
                .unwrap();
        }
    });
    let mut all = all.into_inner().unwrap();
    all.sort_by_key(|x| x.0);
    let mut v = vec![ev(0, "p", 0, 0, &[], "acc", &[])];
    v.extend(all.into_iter().flat_map(|x| x.1));
    (v, pp.num_constraints().0)
}

//! Which calls are made for which property: parameters, inputs, and what is done with them.
use crate::ev::{Job, Task};
use crate::fields::{dispatch, Visit};
use crate::gadgets::{modulus, Call};
use ff::PrimeField;
use num_bigint::BigUint;
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct Fi {
    pub id: &'static str,
    pub p: BigUint,
    pub cap: usize,
}
struct Get(&'static str);
impl Visit for Get {
    type Out = Fi;
    fn visit<F: PrimeField>(self, _id: &str) -> Fi {
        Fi { id: self.0, p: modulus::<F>(), cap: F::CAPACITY as usize }
    }
}
pub fn info(id: &'static str) -> Fi {
    dispatch(id, Get(id))
}

type B = BigUint;
fn b(x: u64) -> B {
    B::from(x)
}
fn p2(k: usize) -> B {
    b(1) << k
}
fn ones(k: usize) -> B {
    p2(k) - 1u8
}
fn limbs(x: &B, w: usize, n: usize) -> Vec<B> {
    let m = ones(w);
    (0..n).map(|i| (x >> (w * i)) & &m).collect()
}
fn nat(ls: &[B], w: usize) -> B {
    ls.iter().rev().fold(b(0), |a, l| (a << w) + l)
}
fn rbits(r: &mut StdRng, k: usize) -> B {
    let mut x = b(0);
    for _ in 0..(k / 64 + 1) {
        x = (x << 64) + r.next_u64();
    }
    x & ones(k)
}
/// a value below `m`, boundary values preferred
pub fn below(r: &mut StdRng, m: &B) -> B {
    if *m <= b(1) {
        return b(0);
    }
    let k = m.bits() as usize;
    let v = match r.gen_range(0..12) {
        0 => b(0),
        1 => b(1),
        2 => m - 1u8,
        3 => {
            if *m > b(2) {
                m - 2u8
            } else {
                b(0)
            }
        }
        4 => m >> 1,
        5 => {
            let j = r.gen_range(0..k);
            p2(j)
        }
        6 => {
            let j = r.gen_range(0..k);
            ones(j)
        }
        7 => {
            // sparse
            p2(r.gen_range(0..k)) + p2(r.gen_range(0..k))
        }
        8 => {
            let j = r.gen_range(0..k) + 1;
            rbits(r, j)
        }
        _ => rbits(r, k),
    };
    v % m
}
fn vec_below(r: &mut StdRng, n: usize, m: &B) -> Vec<B> {
    (0..n).map(|_| below(r, m)).collect()
}

pub type Par = (Vec<i64>, Vec<B>);

fn dedup(v: Vec<Par>) -> Vec<Par> {
    let mut s = BTreeSet::new();
    v.into_iter().filter(|x| s.insert(x.clone())).collect()
}

/// limb widths for which products of n limbs of this width leave room for carrying
fn prod_ok(f: &Fi, w: usize, n: usize) -> bool {
    let m = ones(w) * ones(w) * b(n as u64) + ones(w);
    (m * 2u8 - 1u8).bits() as usize + 2 <= f.cap && w + 2 <= f.cap
}
fn widths(f: &Fi, max: usize) -> Vec<usize> {
    let c: Vec<usize> = if f.cap <= 20 {
        (1..=max).collect()
    } else {
        vec![1, 2, 3, 4, 5, 7, 8, 13, 14, 16, 25, 26, 30, 31, 32, 53, 54, 61, 64, 80, 100, 110, 120, 121, 122, 123, 124, 125, 126, 127, 128, 160, 200, 240, 250, 251, 252]
    };
    let mut v: Vec<usize> = c.into_iter().filter(|w| *w <= max && *w >= 1).collect();
    if max >= 1 && !v.contains(&max) {
        v.push(max);
    }
    v
}

pub fn params(op: &str, f: &Fi, small: bool) -> Vec<Par> {
    let cap = f.cap;
    let mut out: Vec<Par> = vec![];
    let mut add = |p: &[i64], c: Vec<B>| out.push((p.to_vec(), c));
    let big = cap > 200;
    match op {
        "less_than" | "leq" => {
            if big {
                for n in [1, 2, 8, 16, 31, 32, 33, 63, 64, 100, 125, 126, 127, 128, 129, 160, 200, 223, 224, 225, 250, 251, 252] {
                    if n + 2 <= cap {
                        add(&[n as i64], vec![]);
                    }
                }
            } else {
                for n in 1..=cap.saturating_sub(2) {
                    if small || n < 3 || n + 4 > cap || n % 5 == 0 {
                        add(&[n as i64], vec![]);
                    }
                }
            }
        }
        "vmedian" => {
            if cap >= 34 {
                for n in [1, 3, 5, 7, 11] {
                    add(&[n], vec![]);
                }
                add(&[11], vec![]);
            }
        }
        "wmedian" => {
            if cap >= 34 {
                for n in [1, 3, 5, 11] {
                    add(&[n], vec![]);
                }
            }
        }
        "median" => {
            for n in [1, 2, 3, 5, 8, 11] {
                add(&[n], vec![]);
            }
        }
        "equals" | "f2nat" | "num_alloc" | "as_alloc" | "bit_alloc" | "bit_not" => add(&[], vec![]),
        "is_equal" | "equal" | "assert_eq" | "bn_eq" => {
            let w = if small { 2.min(cap) } else { cap.min(64) };
            for (a, c) in [(1, 1), (2, 2), (1, 2), (2, 1), (3, 3), (3, 1), (2, 3)] {
                if small && a + c > 4 {
                    continue;
                }
                add(&[w as i64, a, c], vec![]);
            }
        }
        "fits" | "decompose" => {
            add(&[0], vec![]);
            for n in widths(f, cap) {
                if op == "fits" || n < 140 || n + 3 > cap {
                    add(&[n as i64], vec![]);
                }
            }
        }
        "from_num" => {
            for w in widths(f, cap - 3) {
                let full = (f.p.bits() as usize + w - 1) / w;
                for n in [1, 2, 3, 4, full.saturating_sub(1), full, full + 1] {
                    if n >= 1 && w * n <= 2 * cap + 8 && n <= 300 && (!big || w >= 8 || n < 5) {
                        add(&[w as i64, n as i64], vec![]);
                    }
                }
            }
        }
        "well_formed" | "bn_decompose" | "full_bits" => {
            for w in widths(f, cap) {
                for n in [1, 2, 3] {
                    if (small && n > 2) || (big && n * w > 300) {
                        continue;
                    }
                    add(&[w as i64, n as i64], vec![]);
                }
            }
        }
        "min_bits" => {
            for w in widths(f, cap) {
                for n in [1usize, 2, 3] {
                    if (small && (n > 2 || w > 3)) || (big && n * w > 260) || (!small && !big && w % 3 != 0) {
                        continue;
                    }
                    let t = n * w;
                    for m in [1, 2, w, w + 1, t - t / 3, t - 1, t] {
                        if m >= 1 && m <= t {
                            add(&[w as i64, n as i64, m as i64], vec![]);
                        }
                    }
                }
            }
        }
        "alloc_limbs" => {
            for w in [1usize, 3, 16, 64, 120] {
                if w < cap {
                    for n in [1, 2, 4] {
                        add(&[w as i64, n], vec![]);
                        add(&[w as i64, n], vec![ones(w)]);
                        add(&[w as i64, n], vec![p2(w) + 1u8]);
                    }
                }
            }
        }
        "eq_carry" | "eq_regroup" => {
            for w in widths(f, cap.saturating_sub(2)) {
                if !small && ![1, 2, 4, 8, 16, 32, 53, 64, 100, 120, 200].contains(&w) {
                    continue;
                }
                for (na, nb) in [(1, 1), (2, 2), (1, 2), (2, 1), (3, 3), (3, 2), (5, 4), (8, 8)] {
                    if small && na + nb > 4 {
                        continue;
                    }
                    let o = ones(w);
                    let mut ms = vec![
                        (o.clone(), o.clone()),
                        (p2(w), o.clone()),
                        (o.clone(), p2(w)),
                        (p2(w), p2(w)),
                        (p2(w) + 1u8, o.clone()),
                        (&o * 2u8, o.clone()),
                        (p2(w + 1), o.clone()),
                        (o.clone(), &o * &o),
                        (&o * &o * 2u8, &o * &o + &o),
                        (p2(2 * w), o.clone()),
                        (p2(2 * w) - 1u8, o.clone()),
                        (b(1), b(1)),
                    ];
                    let top = &f.p / 8u8;
                    ms.push((top.clone(), o.clone()));
                    if big {
                        ms.push((p2(2 * w + 1), p2(2 * w)));
                        ms.push((p2(cap - 4), o.clone()));
                    }
                    for (x, y) in ms {
                        let m = x.clone().max(y.clone());
                        let ok = if op == "eq_carry" {
                            &m * 8u8 <= f.p
                        } else {
                            let k = (&m * 2u8 - 1u8).bits() as usize;
                            k + 1 <= cap
                        };
                        if m > b(0) && ok {
                            add(&[w as i64, na, nb], vec![x, y]);
                        }
                    }
                }
            }
        }
        "add" => {
            for w in [1usize, 2, 8, 32, 64, 120] {
                if w + 1 > cap {
                    continue;
                }
                for (na, nb) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 4)] {
                    if small && na + nb > 4 {
                        continue;
                    }
                    for (x, y) in [(ones(w), ones(w)), (p2(w), b(1)), (ones(w) * 3u8, ones(w))] {
                        if &x + &y >= f.p {
                            continue;
                        }
                        add(&[w as i64, na, nb, 0, 0], vec![x.clone(), y.clone()]);
                        let (ta, tb) = (na * w as i64, nb * w as i64);
                        add(&[w as i64, na, nb, ta, 0], vec![x.clone(), y.clone()]);
                        add(&[w as i64, na, nb, 1, tb], vec![x, y]);
                    }
                }
            }
        }
        "sub" | "min" => {
            for w in widths(f, cap.saturating_sub(4)) {
                if !small && ![1, 2, 4, 8, 16, 32, 64, 120, 126].contains(&w) {
                    continue;
                }
                for (na, nb) in [(1, 1), (2, 2), (2, 1), (1, 2), (3, 3), (4, 2)] {
                    if small && na + nb > 4 {
                        continue;
                    }
                    if op == "sub" {
                        add(&[w as i64, na, nb], vec![]);
                    } else {
                        add(&[w as i64, na, nb, 0, 0], vec![]);
                        if na == nb {
                            add(&[w as i64, na, nb, 1, na * w as i64], vec![]);
                        }
                    }
                }
            }
        }
        "shift" | "scale" => {
            for w in [1usize, 2, 8, 32, 64, 120] {
                for n in [1, 2, 3] {
                    for (m, k) in [
                        (ones(w), b(0)),
                        (ones(w), b(1)),
                        (ones(w), b(7)),
                        (ones(w), ones(w)),
                        (p2(w), b(5)),
                        (ones(w), p2(cap / 2)),
                    ] {
                        let lim = if op == "shift" { &m + &k } else { &m * &k };
                        if w + 1 <= cap && lim < p2(cap) && k < f.p {
                            add(&[w as i64, n], vec![m, k]);
                        }
                    }
                }
            }
        }
        "shift_eq" => {
            for w in [1usize, 2, 8, 32, 64] {
                for (na, nb) in [(1, 2), (2, 2), (2, 3), (1, 1)] {
                    for (m, k) in [(ones(w), b(1)), (ones(w), ones(w)), (ones(w), p2(w)), (ones(w), p2(w + 1) + 3u8)] {
                        if (&m + &k) * 8u8 <= f.p && w + 2 <= cap {
                            add(&[w as i64, na, nb], vec![m, k]);
                        }
                    }
                }
            }
        }
        "mult" | "divides" => {
            for w in widths(f, cap / 2) {
                if !small && ![1, 2, 3, 4, 8, 16, 25, 32, 64, 100, 120].contains(&w) {
                    continue;
                }
                for (na, nb) in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (2, 4), (4, 4), (1, 4)] {
                    if !prod_ok(f, w, na.min(nb) + 1) || (small && (w * (na + nb) > 8)) {
                        continue;
                    }
                    let (a, c) = (na as i64, nb as i64);
                    if op == "mult" {
                        add(&[w as i64, a, c, 0, 0], vec![]);
                        if na == nb {
                            add(&[w as i64, a, c, 1, a * w as i64], vec![]);
                            add(&[w as i64, a, c, a * w as i64, c * w as i64], vec![]);
                        }
                    } else {
                        add(&[w as i64, a, c], vec![]);
                    }
                }
            }
        }
        "mult_mod" | "red_mod" | "prod_mod" => {
            for w in widths(f, cap / 2) {
                if !small && ![1, 2, 3, 4, 8, 16, 25, 32, 64, 100, 120].contains(&w) {
                    continue;
                }
                if op == "red_mod" {
                    for (na, nm) in [(1usize, 1usize), (2, 1), (2, 2), (3, 2), (1, 2), (4, 2), (4, 3)] {
                        if !prod_ok(f, w, na.min(nm) + 1) || (small && w * (na + nm) > 8) {
                            continue;
                        }
                        let t = (nm * w) as i64;
                        for mb in [0, 1, t / 2, t - 1, t] {
                            add(&[w as i64, na as i64, nm as i64, mb], vec![]);
                        }
                    }
                } else {
                    for (na, nb, nm) in
                        [(1usize, 1usize, 1usize), (2, 1, 1), (1, 2, 1), (2, 2, 2), (2, 2, 1), (1, 1, 2), (3, 2, 2), (4, 1, 1), (3, 3, 3)]
                    {
                        if !prod_ok(f, w, na.min(nb).max((na + nb).min(nm)) + 1) || (small && w * (na + nb + nm) > 8) {
                            continue;
                        }
                        let v = [w as i64, na as i64, nb as i64, nm as i64];
                        if op == "mult_mod" {
                            let t = (nm * w) as i64;
                            for mb in [0, 1, t / 2, t - 1, t] {
                                add(&[v[0], v[1], v[2], v[3], mb], vec![]);
                            }
                        } else {
                            add(&[v[0], v[1], v[2], v[3], v[3]], vec![]);
                        }
                    }
                }
            }
        }
        "mux" | "switch" => {
            let w = if small { 2.min(cap) } else { cap.min(32) } as i64;
            for (a, c) in [(1, 1), (2, 2), (1, 2), (2, 1), (3, 3)] {
                if op == "mux" {
                    add(&[w, a, c, 0, 0], vec![]);
                    add(&[w, a, c, 1, a.min(c) * w], vec![]);
                } else {
                    add(&[w, a, c], vec![]);
                }
            }
        }
        "gmux" => {
            for (a, c) in [(1, 1), (2, 2), (1, 2), (2, 1), (3, 3)] {
                add(&[a, c], vec![]);
            }
        }
        "gassert_eq" => {
            for (a, c) in [(1, 1), (2, 2), (1, 2), (2, 1), (3, 3)] {
                add(&[a, c], vec![]);
            }
        }
        "gswitch" => {
            for a in [1, 2, 3] {
                add(&[a], vec![]);
            }
        }
        "mux_tree" | "gmux_tree" => {
            let w = if small { 1 } else { cap.min(16) } as i64;
            for (k, c) in [(0, 1), (1, 2), (2, 4), (3, 8), (1, 1), (1, 3), (2, 2), (2, 3), (0, 2), (2, 6), (2, 8)] {
                for n in [1, 2] {
                    if small && c * n > 6 {
                        continue;
                    }
                    if op == "mux_tree" {
                        add(&[k, c, n, w], vec![]);
                    } else {
                        add(&[k, c, n], vec![]);
                    }
                }
            }
        }
        "inputize" | "ginputize" | "as_nums" | "as_limbs" | "from_limbs" | "l2n" => {
            for w in [1usize, 3, 16, 64] {
                if w <= cap {
                    for n in [1, 2, 4] {
                        add(&[w as i64, n], vec![]);
                    }
                }
            }
        }
        "alloc_nat" | "n2l" => {
            for w in widths(f, cap) {
                for n in [1, 2, 3, 5] {
                    if w * n <= 1200 {
                        add(&[w as i64, n as i64], vec![]);
                    }
                }
            }
        }
        "concat" => {
            for w in [1usize, 3, 16, 64] {
                if w > cap {
                    continue;
                }
                for (na, nb) in [(1i64, 1i64), (2, 1), (1, 2), (3, 2)] {
                    let wi = w as i64;
                    for (x, y) in [(ones(w), ones(w)), (p2(w) - 1u8, b(1)), (b(1), ones(w))] {
                        add(&[wi, na, nb, 0, 0], vec![x.clone(), y.clone()]);
                        if x == y {
                            add(&[wi, na, nb, na * wi, 0], vec![x.clone(), y.clone()]);
                            add(&[wi, na, nb, 1, nb * wi], vec![x.clone(), y.clone()]);
                            add(&[wi, na, nb, 0, nb * wi], vec![x, y]);
                        }
                    }
                }
            }
        }
        "truncate" => {
            for w in [1usize, 3, 16, 64] {
                if w > cap {
                    continue;
                }
                for (n, k) in [(1i64, 1i64), (2, 1), (3, 2), (3, 1), (2, 3), (4, 2)] {
                    let t = n * w as i64;
                    for mb in [0, 1, w as i64, t - 1, t] {
                        add(&[w as i64, n, k, mb], vec![]);
                    }
                }
            }
        }
        "with_n" => {
            for w in [1usize, 3, 16, 64] {
                if w > cap {
                    continue;
                }
                for (n, k) in [(1i64, 1i64), (1, 2), (2, 4), (3, 3), (3, 2)] {
                    for mb in [0, n * w as i64] {
                        add(&[w as i64, n, k, mb], vec![]);
                    }
                }
            }
        }
        "group" => {
            for w in [1usize, 2, 8, 32] {
                for n in 1..=6usize {
                    for g in [1usize, 2, 3, 4] {
                        let m = ones(w);
                        if w * g + w <= cap {
                            for mb in [0, n * w] {
                                add(&[w as i64, n as i64, g as i64, mb as i64], vec![m.clone()]);
                            }
                            if w * g + w + 2 <= cap {
                                add(&[w as i64, n as i64, g as i64, 0], vec![p2(w + 1)]);
                            }
                        }
                    }
                }
            }
        }
        "recompose" => {
            for w in [1usize, 2, 3, 5, 8, 16, 64] {
                for n in [1usize, 2, 4, 5, 6, 9, 16, 17] {
                    if w < cap {
                        add(&[w as i64, n as i64], vec![]);
                    }
                }
            }
        }
        "from_poly" => {
            for w in [1usize, 4, 32] {
                for n in [1, 2, 3] {
                    if w + 2 < cap {
                        add(&[w as i64, n], vec![ones(w + 1)]);
                    }
                }
            }
        }
        "bn_one" => {
            for w in [1i64, 2, 8, 32, 64] {
                if w <= cap as i64 {
                    add(&[w], vec![]);
                }
            }
        }
        "n_bits" => {
            for w in [1usize, 2, 8, 32, 64] {
                for n in [1, 2, 3, 5] {
                    for m in [ones(w), p2(w), ones(w) * 3u8, ones(w) * ones(w) * 2u8] {
                        if m < f.p {
                            add(&[w as i64, n], vec![m]);
                        }
                    }
                }
            }
        }
        "params" => {
            for w in [1, 2, 8, 32, 64, 100] {
                for n in [1, 2, 5] {
                    add(&[w, n], vec![]);
                }
            }
        }
        "poly_prod" | "poly_sum" => {
            for x in 1..=5 {
                for y in 1..=4 {
                    if !(small && x + y > 4) {
                        add(&[x, y], vec![]);
                    }
                }
            }
        }
        "poly_eval" => {
            for n in 1..=5 {
                for c in [b(0), b(1), b(2), &f.p - 1u8, &f.p / 3u8] {
                    add(&[n], vec![c]);
                }
            }
        }
        "num_eq_bits" => {
            for n in [1usize, 2, 3, 5, 8, cap] {
                if n <= cap && (n < 140 || n == cap) {
                    add(&[n as i64], vec![]);
                }
            }
        }
        "num_eq_bv" | "bv" | "bv_into" => {
            for n in [1i64, 2, 3, 4, 5] {
                let e = |k: i64, a: i64| k + 16 * a;
                let base: Vec<Vec<i64>> = vec![
                    vec![],
                    vec![e(0, 0)],
                    vec![e(1, n - 1)],
                    vec![e(1, 0)],
                    vec![e(1, n + 2)],
                    vec![e(2, 1)],
                    vec![e(2, n)],
                    vec![e(3, 1)],
                    vec![e(3, 2)],
                    vec![e(4, 0)],
                    vec![e(5, 0)],
                    vec![e(5, 1)],
                    vec![e(6, 1)],
                    vec![e(6, 0)],
                    vec![e(6, 2 * (n / 2) + 1)],
                    vec![e(6, 2 * n)],
                    vec![e(7, 0)],
                    vec![e(8, 0)],
                    vec![e(9, 0)],
                    vec![e(10, 1)],
                    vec![e(10, 3)],
                    vec![e(2, 1), e(3, 1)],
                    vec![e(3, 1), e(2, 1)],
                    vec![e(0, 0), e(1, 1)],
                    vec![e(0, 0), e(4, 0)],
                    vec![e(3, 1), e(0, 0), e(4, 0)],
                    vec![e(5, 1), e(0, 0), e(6, 3), e(1, 3)],
                    vec![e(4, 0), e(5, 1), e(8, 0), e(9, 0)],
                    vec![e(7, 0), e(2, 1), e(0, 0)],
                    vec![e(4, 0), e(4, 0), e(4, 0), e(4, 0), e(4, 0), e(4, 0)],
                ];
                for c in base {
                    let mut v = vec![n];
                    v.extend(c);
                    add(&v, vec![]);
                }
            }
        }
        "bv_get" => {
            for n in [1i64, 3, 5] {
                for k in 0..=n + 1 {
                    add(&[n, k], vec![]);
                }
            }
        }
        "bit_const" => {
            add(&[0], vec![]);
            add(&[1], vec![]);
        }
        "bit_lit" | "bit_sapling" => {
            for k in 0..4 {
                add(&[k], vec![]);
            }
        }
        "nat2f" | "negnat2f" | "u2f" | "f2u" => add(&[], vec![]),
        "calc_diff" => {
            if big {
                add(&[], vec![]);
            }
        }
        "ver_diff" => {
            if big {
                add(&[], vec![]);
            }
        }
        o => panic!("params: unknown op {}", o),
    }
    dedup(out)
}

/// exclusive bound of every input wire
pub fn ranges(op: &str, par: &[i64], cst: &[B], f: &Fi) -> Vec<B> {
    let u = |i: usize| par[i] as usize;
    let rep = |m: B, n: usize| vec![m; n];
    let w2 = |i: usize| p2(u(i));
    match op {
        "less_than" | "leq" => rep(w2(0), 2),
        "vmedian" | "wmedian" => rep(p2(32), u(0) + 1),
        "median" => rep(p2(32), u(0)),
        "equals" => rep(f.p.clone(), 2),
        "is_equal" | "equal" | "assert_eq" | "bn_eq" => rep(f.p.clone(), u(1) + u(2)),
        "fits" | "decompose" | "from_num" | "f2nat" | "f2u" | "num_alloc" | "as_alloc" => rep(f.p.clone(), 1),
        "u2f" => rep(f.p.clone().min(p2(63)), 1),
        "nat2f" | "negnat2f" => rep(&f.p * 3u8, 1),
        "well_formed" | "bn_decompose" => rep(f.p.clone().min(p2(u(0) + 2)), u(1)),
        "full_bits" => rep(w2(0), u(1)),
        "min_bits" => rep(f.p.clone().min(p2(u(0) + 1)), u(1)),
        "eq_carry" | "eq_regroup" | "add" | "concat" => {
            let mut v = rep(&cst[0] + 1u8, u(1));
            v.extend(rep(&cst[1] + 1u8, u(2)));
            v
        }
        "sub" | "min" | "mult" | "divides" => rep(w2(0), u(1) + u(2)),
        "shift" | "scale" | "from_poly" => rep(&cst[0] + 1u8, u(1)),
        "group" => rep(&cst[0] + 1u8, u(1)),
        "shift_eq" => {
            let mut v = rep(&cst[0] + 1u8, u(1));
            v.extend(rep(w2(0), u(2)));
            v
        }
        "mult_mod" => rep(w2(0), u(1) + u(2) + u(3)),
        "prod_mod" => rep(w2(0), u(1) + u(2) + u(3) + u(4)),
        "red_mod" => rep(w2(0), u(1) + u(2)),
        "mux" | "switch" => {
            let mut v = rep(b(2), 1);
            v.extend(rep(w2(0), u(1) + u(2)));
            v
        }
        "gmux" => {
            let mut v = rep(b(2), 1);
            v.extend(rep(f.p.clone(), u(0) + u(1)));
            v
        }
        "gassert_eq" => rep(f.p.clone(), u(0) + u(1)),
        "gswitch" => {
            let mut v = rep(b(2), 1);
            v.extend(rep(f.p.clone(), 2 * u(0)));
            v
        }
        "mux_tree" => {
            let mut v = rep(b(2), u(0));
            v.extend(rep(w2(3), u(1) * u(2)));
            v
        }
        "gmux_tree" => {
            let mut v = rep(b(2), u(0));
            v.extend(rep(f.p.clone(), u(1) * u(2)));
            v
        }
        "inputize" | "ginputize" | "as_nums" | "as_limbs" | "l2n" => rep(f.p.clone(), u(1)),
        "alloc_limbs" => rep(cst.get(0).map(|m| m + 1u8).unwrap_or(w2(0)), u(1)),
        "from_limbs" | "truncate" | "with_n" => rep(w2(0), u(1)),
        "alloc_nat" | "n2l" => rep(p2(u(0) * u(1) + 2), 1),
        "recompose" => rep(b(2), u(1)),
        "bn_one" | "params" | "bit_lit" => vec![],
        "n_bits" => rep(&cst[0] + 1u8, u(1)),
        "poly_prod" | "poly_sum" => rep(f.p.clone(), u(0) + u(1)),
        "poly_eval" => rep(f.p.clone(), u(0)),
        "num_eq_bits" | "num_eq_bv" => {
            let mut v = rep(f.p.clone(), 1);
            v.extend(rep(b(2), u(0)));
            v
        }
        "bv" | "bv_into" | "bv_get" => rep(b(2), u(0)),
        // the wire of a bit may be given any value by a dishonest prover
        "bit_alloc" => rep(f.p.clone(), 1),
        "bit_const" | "bit_not" | "bit_sapling" => rep(b(2), 1),
        "calc_diff" => vec![p2(253), p2(32)],
        "ver_diff" => vec![p2(128), p2(128), p2(128), p2(128), p2(32)],
        o => panic!("ranges: unknown op {}", o),
    }
}

fn span(r: &mut StdRng) -> u64 {
    match r.gen_range(0..14) {
        0 => 302400,
        1 => 302401,
        2 => 4838400,
        3 => 4838399,
        4 => 302399,
        5 => 4838401,
        6 => 1209600,
        7 => 1209599,
        8 => 1209601,
        9 => r.gen_range(0..302400),
        10 => r.gen_range(4838401..u32::MAX as u64),
        _ => r.gen_range(302400..4838401),
    }
}

/// one input vector shaped to make the interesting outcome of the operation likely
pub fn gen(op: &str, par: &[i64], cst: &[B], f: &Fi, r: &mut StdRng) -> Vec<B> {
    let u = |i: usize| par[i] as usize;
    let rg = ranges(op, par, cst, f);
    let mut v: Vec<B> = rg.iter().map(|m| below(r, m)).collect();
    let near = |r: &mut StdRng, x: &B, m: &B| -> B {
        match r.gen_range(0..4) {
            0 => x.clone(),
            1 => (x + 1u8) % m,
            2 => (x + m - 1u8) % m,
            _ => below(r, m),
        }
    };
    // a small disturbance of one component, sometimes
    let disturb = |r: &mut StdRng, v: &mut Vec<B>, from: usize| {
        if r.gen_range(0..3) == 0 && v.len() > from {
            let i = r.gen_range(from..v.len());
            v[i] = near(r, &v[i].clone(), &rg[i]);
        }
    };
    match op {
        "less_than" | "leq" | "equals" => {
            let x = v[0].clone();
            v[1] = near(r, &x, &rg[1]);
        }
        "vmedian" | "wmedian" | "median" => {
            let n = u(0);
            let k = r.gen_range(0..5);
            let base = match r.gen_range(0..4) {
                0 => 0u64,
                1 => 0xffff_fff0u64 - 40,
                2 => 0x7fff_fff0,
                _ => r.gen_range(0..0xffff_0000),
            };
            for i in 0..n {
                v[i] = b(match k {
                    0 => base + r.gen_range(0..3),
                    1 => base + i as u64,
                    2 => base + (n - i) as u64,
                    3 => r.gen_range(0..0xffff_ffff),
                    _ => base + r.gen_range(0..20),
                });
            }
            if op != "median" {
                let mut s: Vec<B> = v[..n].to_vec();
                s.sort();
                let m = s[n / 2].clone();
                v[n] = match r.gen_range(0..6) {
                    0 | 1 => m,
                    2 => (m + 1u8) % p2(32),
                    3 => {
                        if m > b(0) {
                            m - 1u8
                        } else {
                            m
                        }
                    }
                    4 => s[r.gen_range(0..n)].clone(),
                    _ => {
                        if r.gen() {
                            (&s[n - 1] + 90u8) % p2(32)
                        } else {
                            &s[0] / 2u8
                        }
                    }
                };
            }
        }
        "is_equal" | "equal" | "assert_eq" | "bn_eq" => {
            let (a, c) = (u(1), u(2));
            for i in 0..c {
                v[a + i] = if i < a { v[i].clone() } else { b(0) };
            }
            for i in c..a {
                v[i] = b(0);
            }
            disturb(r, &mut v, 0);
        }
        "gassert_eq" => {
            let (a, c) = (u(0), u(1));
            for i in 0..c.min(a) {
                v[a + i] = v[i].clone();
            }
            disturb(r, &mut v, 0);
        }
        "bit_alloc" => {
            if r.gen_range(0..2) == 0 {
                v[0] = b(r.gen_range(0..3));
            }
        }
        "fits" | "decompose" => {
            if r.gen_range(0..3) > 0 {
                v[0] = below(r, &p2(u(0) + 1)) % &f.p;
            }
        }
        "from_num" => {
            if r.gen_range(0..3) > 0 {
                v[0] = below(r, &p2(u(0) * u(1) + 1)) % &f.p;
            }
        }
        "well_formed" | "bn_decompose" => {
            if r.gen_range(0..2) == 0 {
                v = vec_below(r, u(1), &p2(u(0)));
                disturb(r, &mut v, 0);
            }
        }
        "min_bits" => {
            let t = u(0) * u(1);
            let x = match r.gen_range(0..4) {
                0 => p2(u(2) - 1),
                1 => ones(u(2) - 1),
                _ => below(r, &p2(t)),
            };
            v = limbs(&x, u(0), u(1));
            disturb(r, &mut v, 0);
        }
        "full_bits" => {
            if r.gen() {
                let n = u(1);
                v[n - 1] = (&v[n - 1] % p2(u(0) - 1)) + p2(u(0) - 1);
            }
        }
        "eq_carry" | "eq_regroup" => {
            // two different ways of writing the same value within the bounds
            let (w, a, c) = (u(0), u(1), u(2));
            let n = a.min(c);
            let rewrite = |r: &mut StdRng, x: &B, n: usize, m: &B| -> Option<Vec<B>> {
                let mut rest = x.clone();
                let mut o = vec![];
                for i in 0..n {
                    let lo = &rest & ones(w);
                    if i == n - 1 {
                        o.push(rest.clone());
                        break;
                    }
                    // add some multiples of the base
                    let room = if *m >= lo { (m - &lo) >> w } else { b(0) };
                    let avail = &rest >> w;
                    let k = below(r, &(room.min(avail) + 1u8));
                    let l = lo + (k << w);
                    rest = (&rest - &l) >> w;
                    o.push(l);
                }
                if o.iter().all(|l| l <= m) {
                    Some(o)
                } else {
                    None
                }
            };
            let x = nat(&v[..n], w);
            for _ in 0..6 {
                if let (Some(l), Some(q)) = (rewrite(r, &x, n, &cst[0]), rewrite(r, &x, n, &cst[1])) {
                    for i in 0..a {
                        v[i] = l.get(i).cloned().unwrap_or_default();
                    }
                    for i in 0..c {
                        v[a + i] = q.get(i).cloned().unwrap_or_default();
                    }
                    break;
                }
            }
            if r.gen_range(0..3) == 0 {
                // same value modulo a power of the base, or off by one limb
                disturb(r, &mut v, 0);
            }
        }
        "sub" | "min" => {
            let (w, a, c) = (u(0), u(1), u(2));
            let x = nat(&v[..a], w);
            let y = match r.gen_range(0..5) {
                0 => x.clone(),
                1 => &x + 1u8,
                2 => {
                    if x > b(0) {
                        &x - 1u8
                    } else {
                        b(0)
                    }
                }
                3 => below(r, &(&x + 1u8)),
                _ => nat(&v[a..], w),
            };
            if y.bits() as usize <= w * c {
                let l = limbs(&y, w, c);
                v[a..].clone_from_slice(&l);
            }
        }
        "shift_eq" => {
            let (w, a, c) = (u(0), u(1), u(2));
            let x = nat(&v[..a], w) + &cst[1];
            if x.bits() as usize <= w * c {
                let l = limbs(&x, w, c);
                v[a..].clone_from_slice(&l);
            }
            disturb(r, &mut v, 0);
        }
        "divides" => {
            let (w, a, c) = (u(0), u(1), u(2));
            let x = nat(&v[..a], w);
            if x > b(0) {
                let t = below(r, &(p2(w * c) / &x + 1u8)) * &x;
                let t = match r.gen_range(0..4) {
                    0 => t + 1u8,
                    _ => t,
                };
                if t.bits() as usize <= w * c {
                    let l = limbs(&t, w, c);
                    v[a..].clone_from_slice(&l);
                }
            }
        }
        "mult_mod" | "red_mod" => {
            let (w, off, nm, mb) =
                if op == "mult_mod" { (u(0), u(1) + u(2), u(3), u(4)) } else { (u(0), u(1), u(2), u(3)) };
            let mut m = nat(&v[off..], w);
            if r.gen_range(0..3) == 0 {
                m = b(r.gen_range(1..4));
            }
            if m == b(0) && r.gen_range(0..8) > 0 {
                m = b(1);
            }
            if mb > 0 {
                // respect the promise the caller makes about the modulus
                match r.gen_range(0..3) {
                    0 => m = p2(mb - 1),
                    1 => m = ones(mb),
                    _ => {
                        if (m.bits() as usize) < mb {
                            m = &m % p2(mb - 1) + p2(mb - 1)
                        }
                    }
                }
            }
            m = m % p2(w * nm);
            let l = limbs(&m, w, nm);
            v[off..].clone_from_slice(&l);
            if r.gen_range(0..3) == 0 {
                for x in v[..off].iter_mut() {
                    *x = ones(w);
                }
            }
        }
        "prod_mod" => {
            let (w, a, c, nm, nr) = (u(0), u(1), u(2), u(3), u(4));
            let mut m = nat(&v[a + c..a + c + nm], w);
            if m == b(0) {
                m = b(1);
            }
            let l = limbs(&m, w, nm);
            v[a + c..a + c + nm].clone_from_slice(&l);
            let mut rem = (nat(&v[..a], w) * nat(&v[a..a + c], w)) % &m;
            match r.gen_range(0..5) {
                0 => rem += 1u8,
                1 => rem += &m,
                _ => {}
            }
            if rem.bits() as usize <= w * nr {
                let l = limbs(&rem, w, nr);
                v[a + c + nm..].clone_from_slice(&l);
            }
        }
        "nat2f" => {
            if r.gen() {
                v[0] = match r.gen_range(0..4) {
                    0 => f.p.clone(),
                    1 => &f.p + 1u8,
                    2 => &f.p - 1u8,
                    _ => p2(r.gen_range(0..300)),
                }
            }
        }
        "f2u" => {
            if r.gen_range(0..4) > 0 {
                let k = *[1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 62, 63, 64, 65].get(r.gen_range(0..15)).unwrap();
                v[0] = below(r, &p2(k)) % &f.p;
            }
        }
        "num_eq_bits" => {
            let x = nat(&v[1..], 1);
            if r.gen_range(0..3) > 0 {
                v[0] = near(r, &(x % &f.p), &f.p);
            }
        }
        "num_eq_bv" => {
            // value of the edited vector
            let mut s: Vec<bool> = v[1..].iter().map(|x| *x == b(1)).collect();
            for c in &par[1..] {
                let (k, a) = (c % 16, (c / 16) as usize);
                match k {
                    0 => s.reverse(),
                    1 => s.truncate(a),
                    2 => s = s.into_iter().skip(a).collect(),
                    3 => {
                        let mut t = vec![false; a];
                        t.extend(s);
                        s = t
                    }
                    4 => {
                        s.pop();
                    }
                    5 => s.push(a == 1),
                    6 => {
                        if a / 2 <= s.len() {
                            s.insert(a / 2, a % 2 == 1)
                        }
                    }
                    7 => {
                        let t = s.clone();
                        s.extend(t)
                    }
                    10 => s.extend((0..a).map(|i| i % 2 == 0)),
                    _ => {}
                }
            }
            let x = nat(&s.iter().map(|z| b(*z as u64)).collect::<Vec<_>>(), 1);
            if r.gen_range(0..4) > 0 {
                v[0] = near(r, &(x % &f.p), &f.p);
            }
        }
        "calc_diff" => {
            v[0] = match r.gen_range(0..5) {
                0 => b(0xffff) << 208,
                1 => b(r.gen_range(1..0x7fffff)) << (8 * r.gen_range(0usize..27)),
                2 => below(r, &p2(224)),
                _ => below(r, &p2(253)),
            };
            if v[0].bits() > 253 {
                v[0] = ones(253);
            }
            v[1] = b(span(r));
        }
        "ver_diff" => {
            let prev = match r.gen_range(0..4) {
                0 => b(0xffff) << 208,
                1 => b(r.gen_range(1..0x7fffff)) << (8 * r.gen_range(0usize..27)),
                2 => below(r, &p2(253)),
                _ => below(r, &p2(220)),
            };
            let t = span(r);
            let n = (&prev * t) / 1209600u32;
            let n = match r.gen_range(0..5) {
                0 => n + 1u8,
                1 => {
                    if n > b(0) {
                        n - 1u8
                    } else {
                        n
                    }
                }
                _ => n,
            };
            let m = ones(128);
            let n = n & ones(256);
            v = vec![&n >> 128, &n & &m, &prev >> 128, &prev & &m, b(t)];
        }
        _ => {}
    }
    v
}

fn exhaust(rg: &[B], limit: usize) -> Option<Vec<Vec<B>>> {
    let mut t = 1u64;
    for m in rg {
        let m = u64::try_from(m).ok()?;
        t = t.checked_mul(m)?;
        if t > limit as u64 {
            return None;
        }
    }
    let mut out = vec![vec![]];
    for m in rg {
        let m = u64::try_from(m).unwrap();
        let mut n = vec![];
        for o in &out {
            for x in 0..m {
                let mut v: Vec<B> = o.clone();
                v.push(b(x));
                n.push(v);
            }
        }
        out = n;
    }
    Some(out)
}

pub fn ops_of(set: &str) -> Vec<&'static str> {
    match set {
        "C10" => vec!["less_than", "leq"],
        "C11" => vec!["vmedian", "wmedian", "median"],
        "C12" => vec!["calc_diff", "ver_diff"],
        "C13" => vec!["equals", "is_equal", "equal", "bn_eq"],
        "C14" => vec!["fits", "decompose", "from_num", "well_formed", "bn_decompose", "full_bits", "min_bits"],
        "C15" => vec!["eq_carry", "eq_regroup"],
        "C16" => vec!["add", "sub", "min", "shift", "shift_eq", "scale"],
        "C17" => vec!["mult", "divides"],
        "C18" => vec!["mult_mod", "red_mod", "prod_mod"],
        "C19" => vec![
            "mux", "gmux", "mux_tree", "gmux_tree", "switch", "gswitch", "assert_eq", "gassert_eq", "inputize",
            "ginputize", "as_nums",
        ],
        "C20" => vec![
            "as_limbs", "from_limbs", "alloc_nat", "alloc_limbs", "concat", "truncate", "group", "with_n", "recompose", "from_poly",
            "bn_one", "n_bits", "params", "n2l", "l2n",
        ],
        "C21" => vec!["poly_prod", "poly_sum", "poly_eval"],
        "C22" => vec![
            "num_eq_bits", "num_eq_bv", "bv", "bv_into", "bv_get", "bit_alloc", "bit_const", "bit_not", "bit_lit",
            "bit_sapling", "num_alloc", "as_alloc",
        ],
        "C23" => vec!["f2nat", "nat2f", "negnat2f", "u2f", "f2u"],
        o => panic!("no gadget set {}", o),
    }
}
/// circuits whose accepted assignments are searched
fn in_circuit(op: &str) -> bool {
    ![
        "median", "f2nat", "nat2f", "negnat2f", "u2f", "f2u", "n2l", "l2n", "params", "n_bits",
        "bit_lit", "bn_one", "bv", "bv_get", "bv_into", "poly_sum", "poly_eval", "alloc_nat", "from_poly", "recompose", "bn_eq", "alloc_limbs",
        "concat", "truncate", "with_n", "group", "from_limbs", "as_limbs", "add", "shift", "scale", "num_alloc",
    ]
    .contains(&op)
}
/// the operation asserts something and returns nothing that is decided by its inputs
fn asserts(op: &str) -> bool {
    [
        "equal", "fits", "well_formed", "full_bits", "min_bits", "eq_carry", "eq_regroup", "shift_eq", "divides",
        "assert_eq", "gassert_eq", "num_eq_bits", "num_eq_bv", "bit_const", "decompose", "bn_decompose", "from_num",
        "sub", "bit_alloc", "bit_not", "bit_sapling", "prod_mod", "red_mod", "mult_mod", "calc_diff", "ver_diff",
    ]
    .contains(&op)
}
fn has_out(op: &str) -> bool {
    ![
        "equal", "fits", "well_formed", "full_bits", "min_bits", "eq_carry", "eq_regroup", "shift_eq", "divides",
        "assert_eq", "gassert_eq", "num_eq_bits", "num_eq_bv", "bit_const", "ver_diff",
    ]
    .contains(&op)
}

pub struct Plan {
    pub jobs: Vec<Job>,
}

pub fn build(set: &str, seed: u64, thorough: bool) -> Plan {
    let mut jobs = vec![];
    let mut seen: BTreeSet<(&'static str, u8, Call)> = BTreeSet::new();
    let mul = if thorough { 8 } else { 1 };
    let small: Vec<&'static str> =
        if thorough { vec!["13", "17", "31", "61", "127", "251"] } else { vec!["13", "17", "31", "61", "251"] };
    let mid: Vec<&'static str> = if thorough {
        vec!["37", "67", "131", "257", "509", "521", "1021", "2053", "4093", "8191", "32749", "65521", "1000003", "m31", "m61", "g63"]
    } else {
        vec!["257", "1021", "8191", "65521", "m31", "m61", "g63"]
    };
    let bigf = vec!["bls", "pallas", "vesta"];
    let mut r = StdRng::seed_from_u64(seed ^ 0x5eed_0000 ^ set.as_bytes().iter().fold(0u64, |a, c| a * 131 + *c as u64));
    let ops = ops_of(set);
    for op in &ops {
        for (class, fs) in [(0, &small), (1, &mid), (2, &bigf)] {
            for id in fs {
                let f = info(id);
                let mut ps = params(op, &f, class == 0);
                // keep the number of parameter choices in check, at random
                let keep = match class {
                    0 => 14,
                    1 => 8,
                    _ => 24,
                } * if thorough { 6 } else { 1 };
                let heavy = *op == "calc_diff" || *op == "ver_diff";
                while ps.len() > keep {
                    let k = r.gen_range(0..ps.len());
                    ps.swap_remove(k);
                }
                for (par, cst) in ps {
                    let rg = ranges(op, &par, &cst, &f);
                    let mut push = |jobs: &mut Vec<Job>, kind: u8, c: Call, t: fn(Call) -> Task| {
                        if seen.insert((f.id, kind, c.clone())) {
                            jobs.push(Job { field: f.id, task: t(c) });
                        }
                    };
                    let mk = |ins: &[B]| Call::new(op, &par, &cst, ins);
                    // honest runs
                    let hrg = if *op == "bit_alloc" { vec![b(2)] } else { rg.clone() };
                    let all = if class == 0 { exhaust(&hrg, 300 * mul) } else { exhaust(&hrg, 40) };
                    let exh = all.is_some();
                    if let Some(all) = all {
                        for i in all {
                            push(&mut jobs, 0, mk(&i), Task::Honest);
                        }
                    }
                    let nh = if exh {
                        0
                    } else {
                        let base = match class {
                            0 => 40,
                            1 => 20,
                            _ => 14,
                        };
                        base * mul * if heavy { 6 } else { 1 }
                    };
                    for _ in 0..nh {
                        let i = gen(op, &par, &cst, &f, &mut r);
                        push(&mut jobs, 0, mk(&i), Task::Honest);
                    }
                    // adversarial runs
                    if in_circuit(op) {
                        let na = match class {
                            0 => 3,
                            1 => 2,
                            _ => 1,
                        } * mul;
                        for _ in 0..na {
                            let i = gen(op, &par, &cst, &f, &mut r);
                            if has_out(op) {
                                push(&mut jobs, 1, mk(&i), Task::ForgeAll);
                            }
                        }
                        if asserts(op) {
                            for _ in 0..na * 3 {
                                let i = gen(op, &par, &cst, &f, &mut r);
                                push(&mut jobs, 2, mk(&i), |c| Task::Forge(c, None, "input"));
                            }
                        }
                        // the whole circuit as a finite machine
                        if f.p < b(40000) {
                            let i = gen(op, &par, &cst, &f, &mut r);
                            push(&mut jobs, 3, mk(&i), Task::Machine);
                        }
                    }
                    // same circuit with and without a witness
                    if !["vmedian", "ver_diff", "f2nat", "nat2f", "negnat2f", "u2f", "f2u", "n2l", "l2n", "median"].contains(op) {
                        for _ in 0..2 {
                            let i = gen(op, &par, &cst, &f, &mut r);
                            push(&mut jobs, 4, mk(&i), Task::Shape);
                        }
                    }
                }
            }
        }
    }
    Plan { jobs }
}

//! Binding of the specification's operations to the repository's public API.  Every operation is
//! run through the same entry point, with inputs given as natural numbers, and reports: verdict,
//! recorded constraint system, the wires of its inputs and outputs, and what the API declared.
use crate::rec::{Rec, SLc};
use bellpepper::gadgets::boolean::{AllocatedBit, Boolean};
use bellpepper::gadgets::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeField;
use num_bigint::{BigInt, BigUint, Sign};
use std::panic::{catch_unwind, AssertUnwindSafe};
use validate_btc_header::btc_validation::{difficulty_update as du, median};
use validate_btc_header::mp::bignat::{limbs_to_nat, nat_to_limbs, BigNat, BigNatParams};
use validate_btc_header::mp::poly::Polynomial;
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::convert;
use validate_btc_header::util::gadget::Gadget;
use validate_btc_header::util::num::Num;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Call {
    pub op: String,
    pub par: Vec<i64>,
    pub cst: Vec<BigUint>,
    pub ins: Vec<BigUint>,
}
impl Call {
    pub fn new(op: &str, par: &[i64], cst: &[BigUint], ins: &[BigUint]) -> Self {
        Call { op: op.to_string(), par: par.to_vec(), cst: cst.to_vec(), ins: ins.to_vec() }
    }
}

/// what the API says about a BigNat it returned
#[derive(Clone, Debug)]
pub struct BnInfo {
    pub first: usize,
    pub cnt: usize,
    pub has: bool,
    pub val: BigInt,
    pub max: BigInt,
    pub w: usize,
    pub n: usize,
    pub mb: usize,
}

pub struct Run<F: PrimeField> {
    pub verdict: &'static str, // ok | err | panic
    pub note: String,
    pub rec: Rec<F>,
    pub ins: Vec<SLc<F>>,
    pub outs: Vec<SLc<F>>,
    pub dec: Vec<Option<F>>,
    pub bn: Vec<BnInfo>,
    /// further plain numbers the call returned
    pub res: Vec<BigInt>,
}

pub fn to_f<F: PrimeField>(v: &BigUint) -> F {
    let d = v.to_u64_digits();
    let mut r = F::ZERO;
    let b32 = F::from(1u64 << 32);
    for x in d.iter().rev() {
        r = r * b32 * b32;
        r += F::from(x >> 32) * b32;
        r += F::from(x & 0xffff_ffff);
    }
    r
}
pub fn from_f<F: PrimeField>(f: &F) -> BigUint {
    BigUint::from_bytes_le(f.to_repr().as_ref())
}
pub fn modulus<F: PrimeField>() -> BigUint {
    from_f(&(F::ZERO - F::ONE)) + 1u8
}

struct Cx<F: PrimeField> {
    rec: Rec<F>,
    w: bool,
    vals: Vec<F>,
    next: usize,
    ins: Vec<SLc<F>>,
    outs: Vec<SLc<F>>,
    dec: Vec<Option<F>>,
    bn: Vec<BnInfo>,
    res: Vec<BigInt>,
}

impl<F: PrimeField> Cx<F> {
    fn take(&mut self) -> Option<F> {
        let v = self.vals[self.next];
        self.next += 1;
        if self.w {
            Some(v)
        } else {
            None
        }
    }
    fn num(&mut self) -> AllocatedNum<F> {
        let v = self.take();
        let a = AllocatedNum::alloc(self.rec.namespace(|| "in"), || v.ok_or(SynthesisError::AssignmentMissing)).unwrap();
        let lc = LinearCombination::zero() + a.get_variable();
        let l = self.rec.conv(&lc);
        self.ins.push(l);
        a
    }
    fn nnum(&mut self) -> Num<F> {
        Num::from(self.num())
    }
    fn bit(&mut self) -> Bit<F> {
        let v = self.take().map(|x| x == F::ONE);
        let b = Bit::alloc(self.rec.namespace(|| "inbit"), v).unwrap();
        let l = self.rec.conv(&b.bit);
        self.ins.push(l);
        b
    }
    fn nat(&mut self, w: usize, n: usize, max: Option<&BigUint>, mb: usize) -> BigNat<F> {
        let vs: Vec<Option<F>> = (0..n).map(|_| self.take()).collect();
        let vals: Option<Vec<F>> = vs.into_iter().collect();
        let mut b = BigNat::alloc_from_limbs(
            self.rec.namespace(|| "innat"),
            || vals.ok_or(SynthesisError::AssignmentMissing),
            max.map(|m| BigInt::from(m.clone())),
            w,
            n,
        )
        .unwrap();
        b.params.min_bits = mb;
        for l in &b.limbs {
            let c = self.rec.conv(l);
            self.ins.push(c);
        }
        b
    }
    fn onum(&mut self, a: &AllocatedNum<F>) {
        let lc = LinearCombination::zero() + a.get_variable();
        let l = self.rec.conv(&lc);
        self.outs.push(l);
        self.dec.push(a.get_value());
    }
    fn obool(&mut self, b: &Boolean) {
        let lc = b.lc(Rec::<F>::one(), F::ONE);
        let l = self.rec.conv(&lc);
        self.outs.push(l);
        self.dec.push(b.get_value().map(|x| if x { F::ONE } else { F::ZERO }));
    }
    fn olc(&mut self, lc: &LinearCombination<F>, v: Option<F>) {
        let l = self.rec.conv(lc);
        self.outs.push(l);
        self.dec.push(v);
    }
    fn obit(&mut self, b: &Bit<F>) {
        self.olc(&b.bit, b.value.map(|x| if x { F::ONE } else { F::ZERO }))
    }
    fn obv(&mut self, b: &Bitvector<F>) {
        for (i, lc) in b.bits.iter().enumerate() {
            let v = b.values.as_ref().and_then(|v| v.get(i).cloned()).map(|x| if x { F::ONE } else { F::ZERO });
            self.olc(lc, v);
        }
        self.res.push(BigInt::from(b.values.as_ref().map(|v| v.len()).unwrap_or(b.bits.len())));
    }
    fn onat(&mut self, b: &BigNat<F>) {
        let first = self.outs.len();
        for (i, lc) in b.limbs.iter().enumerate() {
            let v = b.limb_values.as_ref().and_then(|v| v.get(i).cloned());
            self.olc(lc, v);
        }
        let cnt = b.limb_values.as_ref().map(|v| v.len()).unwrap_or(b.limbs.len());
        self.bn.push(BnInfo {
            first,
            cnt: if cnt == b.limbs.len() { cnt } else { 9999 },
            has: b.value.is_some(),
            val: b.value.clone().unwrap_or_default(),
            max: b.params.max_word.clone(),
            w: b.params.limb_width,
            n: b.params.n_limbs,
            mb: b.params.min_bits,
        });
    }
}

/// a second implementor of the `Gadget` trait that uses every default method
#[derive(Clone)]
pub struct Vecg<F: PrimeField> {
    w: Vec<LinearCombination<F>>,
    v: Option<Vec<F>>,
    n: usize,
}
impl<F: PrimeField> Gadget for Vecg<F> {
    type Scalar = F;
    type Value = Vec<F>;
    type Access = ();
    type Params = usize;
    fn alloc<CS: ConstraintSystem<F>>(
        mut cs: CS,
        value: Option<&Vec<F>>,
        _a: (),
        n: &usize,
    ) -> Result<Self, SynthesisError> {
        let mut w = vec![];
        for i in 0..*n {
            let v = cs.alloc(|| format!("v{}", i), || value.map(|v| v[i]).ok_or(SynthesisError::AssignmentMissing))?;
            w.push(LinearCombination::zero() + v);
        }
        Ok(Vecg { w, v: value.cloned(), n: *n })
    }
    fn wires(&self) -> Vec<LinearCombination<F>> {
        self.w.clone()
    }
    fn wire_values(&self) -> Option<Vec<F>> {
        self.v.clone()
    }
    fn value(&self) -> Option<&Vec<F>> {
        self.v.as_ref()
    }
    fn access(&self) -> &() {
        &()
    }
    fn params(&self) -> &usize {
        &self.n
    }
}
impl<F: PrimeField> Cx<F> {
    fn vecg(&mut self, n: usize) -> Vecg<F> {
        let vals: Option<Vec<F>> = (0..n).map(|_| self.take()).collect::<Vec<_>>().into_iter().collect();
        let g = Vecg::alloc(self.rec.namespace(|| "invec"), vals.as_ref(), (), &n).unwrap();
        for l in &g.w {
            let c = self.rec.conv(l);
            self.ins.push(c);
        }
        g
    }
    fn ovec(&mut self, g: &Vecg<F>) {
        for (i, l) in g.w.iter().enumerate() {
            self.olc(l, g.v.as_ref().map(|v| v[i]));
        }
    }
    fn poly(&mut self, n: usize) -> Polynomial<F> {
        let g = self.vecg(n);
        Polynomial { coefficients: g.w, values: g.v }
    }
}

pub fn run<F: PrimeField>(call: &Call, witness: bool) -> Run<F> {
    let mut cx = Cx::<F> {
        rec: Rec::make(witness),
        w: witness,
        vals: call.ins.iter().map(to_f::<F>).collect(),
        next: 0,
        ins: vec![],
        outs: vec![],
        dec: vec![],
        bn: vec![],
        res: vec![],
    };
    let r = catch_unwind(AssertUnwindSafe(|| exec(&mut cx, call)));
    let (verdict, note) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", format!("{}", e)),
        Err(p) => (
            "panic",
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    };
    Run { verdict, note, rec: cx.rec, ins: cx.ins, outs: cx.outs, dec: cx.dec, bn: cx.bn, res: cx.res }
}

fn exec<F: PrimeField>(cx: &mut Cx<F>, c: &Call) -> Result<(), SynthesisError> {
    let p: Vec<usize> = c.par.iter().map(|x| *x as usize).collect();
    macro_rules! cs {
        ($n:expr) => {
            cx.rec.namespace(|| $n)
        };
    }
    match c.op.as_str() {
        "less_than" | "leq" => {
            let a = cx.num();
            let b = cx.num();
            let r = if c.op == "leq" {
                median::leq(cs!("op"), &a, &b, p[0])?
            } else {
                median::less_than(cs!("op"), &a, &b, p[0])?
            };
            cx.obool(&r);
        }
        "vmedian" => {
            // values, not wires
            let mut ts: Vec<u32> = c.ins[..p[0]].iter().map(|x| u32::try_from(x).unwrap()).collect();
            let m = u32::try_from(&c.ins[p[0]]).unwrap();
            let r = median::verify_median_timestamp::<F, _>(cs!("op"), &mut ts, m)?;
            cx.obool(&r);
        }
        "wmedian" => {
            // the same on wires: the times and the claim are chosen by whoever fills the witness
            let ts: Vec<AllocatedNum<F>> = (0..p[0]).map(|_| cx.num()).collect();
            let m = cx.num();
            let r = median::verify_median_allocated(cs!("op"), &ts, &m)?;
            cx.obool(&r);
        }
        "median" => {
            let mut ts: Vec<u32> = c.ins.iter().map(|x| u32::try_from(x).unwrap()).collect();
            let m = median::compute_median_timestamp(&mut ts);
            cx.res.push(BigInt::from(m));
        }
        "equals" => {
            let a = cx.num();
            let b = cx.num();
            let r = BigNat::equals(cs!("op"), &a, &b)?;
            cx.obool(&r);
        }
        "is_equal" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            let r = a.is_equal(cs!("op"), &b)?;
            cx.obool(&r);
        }
        "bn_eq" => {
            // comparison on the host
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            cx.res.push(BigInt::from((a == b) as u8));
        }
        "equal" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            a.equal(cs!("op"), &b)?;
        }
        "fits" => {
            let a = cx.nnum();
            a.fits_in_bits(cs!("op"), p[0])?;
        }
        "decompose" => {
            let a = cx.nnum();
            let b = a.decompose(cs!("op"), p[0])?;
            cx.obv(&b);
        }
        "from_num" => {
            let a = cx.nnum();
            let b = BigNat::from_num(cs!("op"), a, p[0], p[1])?;
            cx.onat(&b);
        }
        "well_formed" => {
            let a = cx.nat(p[0], p[1], None, 0);
            a.assert_well_formed(cs!("op"))?;
        }
        "bn_decompose" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let b = a.decompose(cs!("op"))?;
            cx.obv(&b);
        }
        "full_bits" => {
            let mut a = cx.nat(p[0], p[1], None, 0);
            a.enforce_full_bits(cs!("op"))?;
            cx.res.push(BigInt::from(a.params.min_bits));
        }
        "min_bits" => {
            let mut a = cx.nat(p[0], p[1], None, 0);
            a.enforce_min_bits(cs!("op"), p[2])?;
            cx.res.push(BigInt::from(a.params.min_bits));
        }
        "eq_carry" | "eq_regroup" => {
            let a = cx.nat(p[0], p[1], c.cst.get(0), 0);
            let b = cx.nat(p[0], p[2], c.cst.get(1), 0);
            if c.op == "eq_carry" {
                a.equal_when_carried(cs!("op"), &b)?
            } else {
                a.equal_when_carried_regroup(cs!("op"), &b)?
            }
        }
        "add" => {
            let a = cx.nat(p[0], p[1], c.cst.get(0), p[3]);
            let b = cx.nat(p[0], p[2], c.cst.get(1), p[4]);
            let r = a.add::<Rec<F>>(&b)?;
            cx.onat(&r);
        }
        "sub" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            let r = a.sub(cs!("op"), &b)?;
            cx.onat(&r);
        }
        "min" => {
            let a = cx.nat(p[0], p[1], None, p[3]);
            let b = cx.nat(p[0], p[2], None, p[4]);
            let r = a.min(cs!("op"), &b)?;
            cx.onat(&r);
        }
        "shift" | "scale" => {
            let a = cx.nat(p[0], p[1], c.cst.get(0), 0);
            let k = to_f::<F>(&c.cst[1]);
            let r = if c.op == "shift" { a.shift::<Rec<F>>(k) } else { a.scale::<Rec<F>>(k) };
            cx.onat(&r);
        }
        "shift_eq" => {
            // shift(a, k) is carried and compared with b
            let a = cx.nat(p[0], p[1], c.cst.get(0), 0);
            let b = cx.nat(p[0], p[2], None, 0);
            let k = to_f::<F>(&c.cst[1]);
            let r = a.shift::<Rec<F>>(k);
            r.equal_when_carried(cs!("op"), &b)?;
        }
        "mult" => {
            let a = cx.nat(p[0], p[1], None, p[3]);
            let b = cx.nat(p[0], p[2], None, p[4]);
            let r = a.mult(cs!("op"), &b)?;
            cx.onat(&r);
        }
        "divides" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            a.divides(cs!("op"), &b)?;
        }
        "mult_mod" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            let m = cx.nat(p[0], p[3], None, p[4]);
            let (q, r) = a.mult_mod(cs!("op"), &b, &m)?;
            cx.onat(&q);
            cx.onat(&r);
        }
        "red_mod" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let m = cx.nat(p[0], p[2], None, p[3]);
            let r = a.red_mod(cs!("op"), &m)?;
            cx.onat(&r);
        }
        "prod_mod" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            let m = cx.nat(p[0], p[3], None, 0);
            let r = cx.nat(p[0], p[4], None, 0);
            let q = a.assert_product_mod(cs!("op"), &b, &m, &r)?;
            cx.onat(&q);
        }
        "mux" => {
            let s = cx.bit();
            let a = cx.nat(p[0], p[1], None, p[3]);
            let b = cx.nat(p[0], p[2], None, p[4]);
            let r = Gadget::mux(cs!("op"), &s, &a, &b)?;
            cx.onat(&r);
        }
        "gmux" => {
            let s = cx.bit();
            let a = cx.vecg(p[0]);
            let b = cx.vecg(p[1]);
            let r = Gadget::mux(cs!("op"), &s, &a, &b)?;
            cx.ovec(&r);
        }
        "mux_tree" | "gmux_tree" => {
            // p = [k, count, n]: k select bits, count inputs of n wires
            let sel: Vec<Bit<F>> = (0..p[0]).map(|_| cx.bit()).collect();
            if c.op == "mux_tree" {
                let xs: Vec<BigNat<F>> = (0..p[1]).map(|_| cx.nat(p[3], p[2], None, 0)).collect();
                let r = Gadget::mux_tree(cs!("op"), sel.iter(), &xs)?;
                cx.onat(&r);
            } else {
                let xs: Vec<Vecg<F>> = (0..p[1]).map(|_| cx.vecg(p[2])).collect();
                let r = Gadget::mux_tree(cs!("op"), sel.iter(), &xs)?;
                cx.ovec(&r);
            }
        }
        "switch" => {
            let s = cx.bit();
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            let (x, y) = Gadget::switch(cs!("op"), &s, &a, &b)?;
            cx.onat(&x);
            cx.onat(&y);
        }
        "gswitch" => {
            let s = cx.bit();
            let a = cx.vecg(p[0]);
            let b = cx.vecg(p[0]);
            let (x, y) = Gadget::switch(cs!("op"), &s, &a, &b)?;
            cx.ovec(&x);
            cx.ovec(&y);
        }
        "assert_eq" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let b = cx.nat(p[0], p[2], None, 0);
            Gadget::assert_equal(cs!("op"), &a, &b)?;
        }
        "gassert_eq" => {
            let a = cx.vecg(p[0]);
            let b = cx.vecg(p[1]);
            Gadget::assert_equal(cs!("op"), &a, &b)?;
        }
        "inputize" | "ginputize" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let before = cx.rec.nwires();
            if c.op == "inputize" {
                a.inputize(cs!("op"))?;
            } else {
                Gadget::inputize(&a, cs!("op"))?;
            }
            for i in before..cx.rec.nwires() {
                if cx.rec.is_input[i] {
                    cx.outs.push(vec![(i, F::ONE)]);
                    let v = cx.rec.vals[i];
                    cx.dec.push(v);
                }
            }
        }
        "as_nums" => {
            let a = cx.nat(p[0], p[1], None, 0);
            let r = a.as_nums(cs!("op"))?;
            for n in &r {
                cx.onum(n);
            }
        }
        "as_limbs" => {
            let a = cx.nat(p[0], p[1], None, 0);
            for n in a.as_limbs::<Rec<F>>() {
                cx.olc(&n.num, n.value);
            }
        }
        "from_limbs" => {
            let ns: Vec<Num<F>> = (0..p[1]).map(|_| cx.nnum()).collect();
            let b = BigNat::from_limbs(ns, p[0]);
            cx.onat(&b);
        }
        "alloc_limbs" => {
            let vs: Vec<Option<F>> = (0..p[1]).map(|_| cx.take()).collect();
            let vals: Option<Vec<F>> = vs.into_iter().collect();
            let b = BigNat::alloc_from_limbs(
                cs!("op"),
                || vals.ok_or(SynthesisError::AssignmentMissing),
                c.cst.get(0).map(|m| BigInt::from(m.clone())),
                p[0],
                p[1],
            )?;
            cx.onat(&b);
        }
        "alloc_nat" => {
            let v: BigUint = c.ins[0].clone();
            let w = cx.w;
            let b = BigNat::alloc_from_nat(
                cs!("op"),
                || if w { Ok(BigInt::from(v)) } else { Err(SynthesisError::AssignmentMissing) },
                p[0],
                p[1],
            )?;
            cx.onat(&b);
        }
        "concat" => {
            let a = cx.nat(p[0], p[1], c.cst.get(0), p[3]);
            let b = cx.nat(p[0], p[2], c.cst.get(1), p[4]);
            let r = a.concat(&b)?;
            cx.onat(&r);
        }
        "truncate" => {
            let a = cx.nat(p[0], p[1], None, p[3]);
            let r = a.truncate_limbs(p[2]);
            cx.onat(&r);
        }
        "group" => {
            let a = cx.nat(p[0], p[1], c.cst.get(0), p[3]);
            let r = a.group_limbs(p[2]);
            cx.onat(&r);
        }
        "with_n" => {
            let a = cx.nat(p[0], p[1], None, p[3]);
            let r = a.with_n_limbs::<Rec<F>>(p[2]);
            cx.onat(&r);
        }
        "recompose" => {
            // p = [w, nbits]
            let bs: Vec<Bit<F>> = (0..p[1]).map(|_| cx.bit()).collect();
            let bv = Bitvector::from_bits(bs);
            let r = BigNat::recompose(&bv, p[0]);
            cx.onat(&r);
        }
        "from_poly" => {
            let q = cx.poly(p[1]);
            let r = BigNat::from_poly(q, p[0], BigInt::from(c.cst[0].clone()));
            cx.onat(&r);
        }
        "bn_one" => {
            let r = BigNat::<F>::one::<Rec<F>>(p[0]);
            cx.onat(&r);
        }
        "n_bits" => {
            let a = cx.nat(p[0], p[1], c.cst.get(0), 0);
            cx.res.push(BigInt::from(a.n_bits()));
        }
        "params" => {
            let q = BigNatParams::new(p[0], p[1]);
            cx.res.push(q.max_word.clone());
            cx.res.push(BigInt::from(q.limb_width));
            cx.res.push(BigInt::from(q.n_limbs));
            cx.res.push(BigInt::from(q.min_bits));
        }
        "n2l" => {
            let r = nat_to_limbs::<F>(&BigInt::from(c.ins[0].clone()), p[0], p[1])?;
            for x in &r {
                cx.res.push(BigInt::from(from_f(x)));
            }
        }
        "l2n" => {
            let v: Vec<F> = c.ins.iter().map(to_f::<F>).collect();
            cx.res.push(limbs_to_nat::<F, _, _>(v.iter(), p[0]));
        }
        "poly_prod" => {
            let a = cx.poly(p[0]);
            let b = cx.poly(p[1]);
            let r = a.alloc_product(cs!("op"), &b)?;
            for (i, l) in r.coefficients.iter().enumerate() {
                let v = r.values.as_ref().map(|v| v[i]);
                cx.olc(l, v);
            }
        }
        "poly_sum" => {
            let a = cx.poly(p[0]);
            let b = cx.poly(p[1]);
            let r = a.sum(&b);
            for (i, l) in r.coefficients.iter().enumerate() {
                let v = r.values.as_ref().map(|v| v[i]);
                cx.olc(l, v);
            }
        }
        "poly_eval" => {
            let a = cx.poly(p[0]);
            let x = to_f::<F>(&c.cst[0]);
            match a.evaluate_at(x) {
                Some(v) => cx.res.push(BigInt::from(from_f(&v))),
                None => {}
            }
        }
        "num_alloc" => {
            let v = cx.take();
            let n = Num::alloc(cs!("op"), || v.ok_or(SynthesisError::AssignmentMissing))?;
            let l = cx.rec.conv(&n.num);
            cx.ins.push(l);
            cx.olc(&n.num, n.value);
        }
        "as_alloc" => {
            let a = cx.nnum();
            let r = a.as_sapling_allocated_num(cs!("op"))?;
            cx.onum(&r);
        }
        "num_eq_bits" => {
            // p = [nbits]: a vs a freshly built bitvector
            let a = cx.nnum();
            let bs: Vec<Bit<F>> = (0..p[0]).map(|_| cx.bit()).collect();
            let bv = Bitvector::from_bits(bs);
            a.is_equal(cs!("op"), &bv)?;
        }
        "num_eq_bv" => {
            // p = [nbits, edit codes...]: the bitvector is edited before the comparison
            let a = cx.nnum();
            let bs: Vec<Bit<F>> = (0..p[0]).map(|_| cx.bit()).collect();
            let mut bv = Bitvector::from_bits(bs);
            bv = crate::bv::edit(bv, &c.par[1..]);
            a.is_equal(cs!("op"), &bv)?;
        }
        "bv" => {
            let bs: Vec<Bit<F>> = (0..p[0]).map(|_| cx.bit()).collect();
            let bv = Bitvector::from_bits(bs);
            let bv = crate::bv::edit(bv, &c.par[1..]);
            cx.obv(&bv);
        }
        "bv_get" => {
            let bs: Vec<Bit<F>> = (0..p[0]).map(|_| cx.bit()).collect();
            let bv = Bitvector::from_bits(bs);
            match bv.get(p[1]) {
                Some(b) => cx.obit(&b),
                None => cx.res.push(BigInt::from(-1)),
            }
        }
        "bv_into" => {
            let bs: Vec<Bit<F>> = (0..p[0]).map(|_| cx.bit()).collect();
            let bv = Bitvector::from_bits(bs);
            let bv = crate::bv::edit(bv, &c.par[1..]);
            for b in bv.into_bits() {
                cx.obit(&b);
            }
        }
        "bit_alloc" => {
            let v = cx.take().map(|x| x == F::ONE);
            let b = Bit::alloc(cs!("op"), v)?;
            let l = cx.rec.conv(&b.bit);
            cx.ins.push(l);
            cx.obit(&b);
        }
        "bit_const" => {
            let b = cx.bit();
            b.constrain_value(cs!("op"), p[0] == 1);
        }
        "bit_not" => {
            let b = cx.bit();
            let r = b.not::<Rec<F>>();
            cx.obit(&r);
        }
        "bit_lit" => {
            let r = match p[0] {
                0 => Bit::new_false::<Rec<F>>(),
                1 => Bit::new_true::<Rec<F>>(),
                2 => Bit::new_value::<Rec<F>>(false),
                _ => Bit::new_value::<Rec<F>>(true),
            };
            cx.obit(&r);
        }
        "bit_sapling" => {
            // p[0]: 0 plain, 1 negated, 2 constant false, 3 constant true
            let v = cx.take().map(|x| x == F::ONE);
            let ab = AllocatedBit::alloc(cs!("in"), v)?;
            let lc = LinearCombination::zero() + ab.get_variable();
            let l = cx.rec.conv(&lc);
            cx.ins.push(l);
            let bo = match p[0] {
                0 => Boolean::Is(ab),
                1 => Boolean::Not(ab),
                2 => Boolean::Constant(false),
                _ => Boolean::Constant(true),
            };
            let r = Bit::from_sapling::<Rec<F>>(bo);
            cx.obit(&r);
        }
        "f2nat" => {
            let f = to_f::<F>(&c.ins[0]);
            cx.res.push(convert::f_to_nat(&f));
        }
        "nat2f" => match convert::nat_to_f::<F>(&BigInt::from(c.ins[0].clone())) {
            Some(f) => cx.res.push(BigInt::from(from_f(&f))),
            None => cx.res.push(BigInt::from(-1)),
        },
        "negnat2f" => match convert::nat_to_f::<F>(&BigInt::from_biguint(Sign::Minus, c.ins[0].clone())) {
            Some(f) => cx.res.push(BigInt::from(from_f(&f))),
            None => cx.res.push(BigInt::from(-1)),
        },
        "u2f" => {
            let u = u64::try_from(&c.ins[0]).unwrap() as usize;
            cx.res.push(BigInt::from(from_f(&convert::usize_to_f::<F>(u))));
        }
        "f2u" => {
            let f = to_f::<F>(&c.ins[0]);
            cx.res.push(BigInt::from(convert::f_to_usize(&f)));
        }
        "calc_diff" => {
            let a = cx.num();
            let b = cx.num();
            let r = du::calculate_difficulty_update(cs!("op"), &a, &b)?;
            cx.onat(&r);
        }
        "ver_diff" => {
            let u = |i: usize| u128::try_from(&c.ins[i]).unwrap();
            du::verify_difficulty_update::<F, _>(
                cs!("op"),
                u(0),
                u(1),
                u(2),
                u(3),
                u32::try_from(&c.ins[4]).unwrap(),
            );
        }
        o => panic!("unknown op {}", o),
    }
    Ok(())
}

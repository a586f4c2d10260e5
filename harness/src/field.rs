//! A tiny-prime implementation of `ff::PrimeField`, generic in the modulus, so that the
//! repository's generic gadgets can be run over fields small enough to be model-checked.
use ff::{Field, PrimeField};
use rand::RngCore;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Fp<const P: u64>(pub u64);

const fn nbits(p: u64) -> u32 {
    64 - p.leading_zeros()
}
const fn hexs(p: u64) -> [u8; 18] {
    let mut r = [b'0'; 18];
    r[1] = b'x';
    let mut i = 0;
    while i < 16 {
        let d = ((p >> (60 - 4 * i)) & 15) as u8;
        r[2 + i] = if d < 10 { b'0' + d } else { b'a' + d - 10 };
        i += 1;
    }
    r
}
const fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
const fn powmod(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, p);
        }
        a = mulmod(a, a, p);
        e >>= 1;
    }
    r
}
const fn two_adicity(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}
/// smallest quadratic non-residue (enough for ROOT_OF_UNITY; the generator constant is only
/// required to be a non-residue by the code that uses it)
const fn nonres(p: u64) -> u64 {
    let mut g = 2;
    while g < p {
        if powmod(g, (p - 1) / 2, p) == p - 1 {
            return g;
        }
        g += 1;
    }
    1
}

impl<const P: u64> Fp<P> {
    const HEX: [u8; 18] = hexs(P);
}
impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> ConstantTimeEq for Fp<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u64> ConditionallySelectable for Fp<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Fp(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u64> Neg for Fp<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Fp(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
macro_rules! ops {
    ($T:ident,$f:ident,$TA:ident,$fa:ident,|$a:ident,$b:ident| $e:expr) => {
        impl<const P: u64> $T for Fp<P> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let $a = self.0;
                let $b = o.0;
                Fp($e)
            }
        }
        impl<'a, const P: u64> $T<&'a Fp<P>> for Fp<P> {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                self.$f(*o)
            }
        }
        impl<const P: u64> $TA for Fp<P> {
            fn $fa(&mut self, o: Self) {
                *self = self.$f(o)
            }
        }
        impl<'a, const P: u64> $TA<&'a Fp<P>> for Fp<P> {
            fn $fa(&mut self, o: &'a Self) {
                *self = self.$f(*o)
            }
        }
    };
}
ops!(Add, add, AddAssign, add_assign, |a, b| ((a as u128 + b as u128) % P as u128) as u64);
ops!(Sub, sub, SubAssign, sub_assign, |a, b| ((a as u128 + P as u128 - b as u128) % P as u128) as u64);
ops!(Mul, mul, MulAssign, mul_assign, |a, b| mulmod(a, b, P));
impl<const P: u64> Sum for Fp<P> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<'a, const P: u64> Sum<&'a Fp<P>> for Fp<P> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<const P: u64> Product for Fp<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(1 % P), |a, b| a * b)
    }
}
impl<'a, const P: u64> Product<&'a Fp<P>> for Fp<P> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(1 % P), |a, b| a * b)
    }
}
impl<const P: u64> From<u64> for Fp<P> {
    fn from(v: u64) -> Self {
        Fp(v % P)
    }
}
impl<const P: u64> Field for Fp<P> {
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);
    fn random(mut r: impl RngCore) -> Self {
        Fp(r.next_u64() % P)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Fp(powmod(self.0, P - 2, P)), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(_n: &Self, _d: &Self) -> (Choice, Self) {
        unimplemented!()
    }
}
impl<const P: u64> PrimeField for Fp<P> {
    type Repr = [u8; 8];
    fn from_repr(r: [u8; 8]) -> CtOption<Self> {
        let v = u64::from_le_bytes(r);
        CtOption::new(Fp(v), Choice::from((v < P) as u8))
    }
    fn to_repr(&self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = unsafe { std::str::from_utf8_unchecked(&Self::HEX) };
    const NUM_BITS: u32 = nbits(P);
    const CAPACITY: u32 = nbits(P) - 1;
    const TWO_INV: Self = Fp((P + 1) / 2);
    const MULTIPLICATIVE_GENERATOR: Self = Fp(nonres(P));
    const S: u32 = two_adicity(P);
    const ROOT_OF_UNITY: Self = Fp(powmod(nonres(P), (P - 1) >> two_adicity(P), P));
    const ROOT_OF_UNITY_INV: Self =
        Fp(powmod(powmod(nonres(P), (P - 1) >> two_adicity(P), P), P - 2, P));
    const DELTA: Self = Fp(powmod(nonres(P), 1u64 << two_adicity(P), P));
}

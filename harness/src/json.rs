//! minimal JSON output
use num_bigint::{BigInt, BigUint, Sign};
use std::fmt::Write;

/// base-4096 little-endian digits, normalised: the number format of spec/BigNum.tla
pub fn digits(v: &BigUint) -> String {
    let b = v.to_bytes_le();
    let nb = v.bits() as usize;
    let n = (nb + 11) / 12;
    let mut s = String::from("[");
    let at = |i: usize| -> u32 { *b.get(i).unwrap_or(&0) as u32 };
    for i in 0..n {
        let bit = i * 12;
        let k = bit / 8;
        let x = at(k) | at(k + 1) << 8 | at(k + 2) << 16;
        if i > 0 {
            s.push(',');
        }
        write!(s, "{}", (x >> (bit % 8)) & 4095).unwrap();
    }
    s.push(']');
    s
}
pub fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s += &f(x);
    }
    s.push(']');
    s
}
pub fn nats(v: &[BigUint]) -> String {
    list(v, digits)
}
pub fn ints(v: &[i64]) -> String {
    list(v, |x| x.to_string())
}
pub fn absd(v: &BigInt) -> String {
    digits(v.magnitude())
}
pub fn isneg(v: &BigInt) -> bool {
    v.sign() == Sign::Minus
}

//! Edits of a `Bitvector`, coded as integers so that the specification can generate them.
//! code = kind + 16*argument
use ff::PrimeField;
use bellpepper_core::LinearCombination;
use validate_btc_header::util::bit::{Bit, Bitvector};
use crate::rec::Rec;

pub fn edit<F: PrimeField>(mut bv: Bitvector<F>, codes: &[i64]) -> Bitvector<F> {
    for c in codes {
        let k = c % 16;
        let a = (c / 16) as usize;
        match k {
            0 => bv = bv.reversed(),
            1 => bv = bv.truncate(a),
            2 => bv = bv.shr(a),
            3 => bv = bv.shl(a),
            4 => {
                bv.pop();
            }
            5 => bv.push(Bit::new_value::<Rec<F>>(a == 1)),
            6 => bv.insert(a / 2, Bit::new_value::<Rec<F>>(a % 2 == 1)),
            7 => {
                // append a copy of itself
                let o = bv.clone();
                bv.append(o);
            }
            8 => {
                // pop then push back
                if let Some(b) = bv.pop() {
                    bv.push(b)
                }
            }
            9 => bv = Bitvector::from_bits(bv.into_bits()),
            10 => {
                // append a constant vector of a bits 1,0,1,..
                let o = Bitvector::from_bits((0..a).map(|i| Bit::new_value::<Rec<F>>(i % 2 == 0)).collect());
                bv.append(o)
            }
            _ => {
                let _ = LinearCombination::<F>::zero();
            }
        }
    }
    bv
}

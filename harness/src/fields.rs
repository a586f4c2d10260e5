//! The fields the gadgets are run over, by name.
use crate::field::Fp;
use ff::PrimeField;

pub trait Visit {
    type Out;
    fn visit<F: PrimeField>(self, id: &str) -> Self::Out;
}
pub type Bls = validate_btc_header::util::scalar::Fr;
pub type Bn = halo2curves::bn256::Fr; // scalar field of BN254
pub type Pallas = pasta_curves::Fq; // scalar field of pallas
pub type Vesta = pasta_curves::Fp; // scalar field of vesta

macro_rules! disp {
    ($id:expr, $v:expr; $($n:literal => $t:ty),*) => {
        match $id { $($n => $v.visit::<$t>($id),)* o => panic!("field {}", o) }
    };
}
pub fn dispatch<V: Visit>(id: &str, v: V) -> V::Out {
    disp!(id, v;
        "13" => Fp<13>, "17" => Fp<17>, "31" => Fp<31>, "37" => Fp<37>, "61" => Fp<61>, "67" => Fp<67>,
        "127" => Fp<127>, "131" => Fp<131>, "251" => Fp<251>, "257" => Fp<257>, "509" => Fp<509>, "521" => Fp<521>,
        "1021" => Fp<1021>, "2053" => Fp<2053>, "4093" => Fp<4093>, "8191" => Fp<8191>, "32749" => Fp<32749>,
        "65521" => Fp<65521>, "1000003" => Fp<1000003>, "m31" => Fp<2147483647>, "m61" => Fp<2305843009213693951>,
        "g63" => Fp<9223372036854775783>,
        "bls" => Bls, "bn" => Bn, "pallas" => Pallas, "vesta" => Vesta)
}

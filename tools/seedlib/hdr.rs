// One step of the header circuit, recorded.
use bellpepper::gadgets::num::AllocatedNum;
use nova_snark::traits::circuit::StepCircuit;
use validate_btc_header::btc_validation::header_step::BlockHeader;
pub type F = <nova_snark::provider::PallasEngine as nova_snark::traits::Engine>::Scalar;

pub fn num(s: &str) -> F { F::from_str_vartime(s).unwrap() }
pub fn header(hex: &str) -> [u64; 10] {
    let mut h = [0u64; 10];
    for i in 0..10 { h[i] = u64::from_str_radix(&hex[16 * i..16 * i + 16], 16).unwrap(); }
    h
}
/// The recorded step, its 16 incoming and its 16 outgoing wires; None if the prover fails.
pub fn step(hex: &str, z: &[F]) -> Option<(Rec<F>, Vec<usize>, Vec<usize>)> {
    let c = BlockHeader::<F>::new_blocks(vec![header(hex)]).pop().unwrap();
    let z = z.to_vec();
    std::panic::catch_unwind(move || {
        let mut cs = Rec::<F>::new();
        let zin: Vec<AllocatedNum<F>> = z.iter().enumerate()
            .map(|(i, x)| AllocatedNum::alloc(cs.namespace(|| format!("z{}", i)), || Ok(*x)).unwrap()).collect();
        let out = c.synthesize(&mut cs, &zin).ok()?;
        let i = zin.iter().map(|a| cs.id(a.get_variable())).collect();
        let o = out.iter().map(|a| cs.id(a.get_variable())).collect();
        Some((cs, i, o))
    }).ok()?
}

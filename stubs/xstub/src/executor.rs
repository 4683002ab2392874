use crate::circuit::Circuit;
use crate::gkr_engine::*;
use crate::serdes::{ExpSerde, SerdeResult};
type Ch<C> = <<C as GKREngine>::FieldConfig as FieldEngine>::ChallengeField;
pub fn prove<C: GKREngine>(circuit: &mut Circuit<C::FieldConfig>, mpi: MPIConfig) -> (Ch<C>, Proof) {
    let mut t = C::TranscriptConfig::new();
    circuit.fill_rnd_coefs(&mut t);
    circuit.evaluate();
    let (v, _) = crate::gkr::gkr_prove(circuit, &mut crate::sumcheck::ProverScratchPad::new(0, 0, 1), &mut t, &mpi);
    (v, t.finalize_and_get_proof())
}
pub fn verify<C: GKREngine>(circuit: &mut Circuit<C::FieldConfig>, _mpi: MPIConfig, proof: &Proof, claimed_v: &Ch<C>) -> bool {
    let mut t = C::TranscriptConfig::new();
    circuit.fill_rnd_coefs(&mut t);
    crate::gkr::gkr_verify(1, circuit, &[], claimed_v, &mut t, &proof.bytes[..]).0
}
pub fn dump_proof_and_claimed_v<F: ExpSerde>(proof: &Proof, v: &F) -> SerdeResult<Vec<u8>> {
    let mut b = vec![];
    proof.serialize_into(&mut b)?;
    v.serialize_into(&mut b)?;
    Ok(b)
}
pub fn load_proof_and_claimed_v<F: ExpSerde>(mut b: &[u8]) -> SerdeResult<(Proof, F)> {
    let p = Proof::deserialize_from(&mut b)?;
    Ok((p, F::deserialize_from(&mut b)?))
}

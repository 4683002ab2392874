use crate::arith::{Field, SimdField};
use crate::circuit::Circuit;
use crate::gkr_engine::*;
use crate::poly_commit::*;
use crate::serdes::ExpSerde;
use crate::sumcheck::ProverScratchPad;
use crate::transcript::*;
use std::io::Read;

macro_rules! cfg {
    ($t:ident, $fc:ty, $tr:ty, $pcs:ty) => {
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $t<'a> { _p: std::marker::PhantomData<&'a ()> }
        impl<'a> GKREngine for $t<'a> {
            type FieldConfig = $fc;
            type MPIConfig = MPIConfig<'a>;
            type TranscriptConfig = $tr;
            type PCSConfig = $pcs;
            const SCHEME: GKRScheme = GKRScheme::Vanilla;
        }
    };
}
cfg!(M31x16ConfigSha2RawVanilla, M31x16Config, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<M31x16Config>);
cfg!(M31x16ConfigSha2OrionVanilla, M31x16Config, BytesHashTranscript<SHA256hasher>, OrionSIMDPCS<M31x16Config>);
cfg!(BN254ConfigMIMC5Raw, BN254Config, BytesHashTranscript<MiMC5FiatShamirHasher<crate::bn254::Fr>>, RawExpanderGKR<BN254Config>);
cfg!(BN254ConfigSha2Raw, BN254Config, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<BN254Config>);
cfg!(BN254ConfigSha2Hyrax, BN254Config, BytesHashTranscript<SHA256hasher>, HyraxPCS<BN254Config>);
cfg!(GF2ExtConfigSha2Raw, GF2ExtConfig, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<GF2ExtConfig>);
cfg!(Goldilocksx8ConfigSha2Raw, Goldilocksx8Config, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<Goldilocksx8Config>);
cfg!(BabyBearx16ConfigSha2Raw, BabyBearx16Config, BytesHashTranscript<SHA256hasher>, RawExpanderGKR<BabyBearx16Config>);

fn ch_vec<F: Field, T: Transcript>(t: &mut T, n: usize) -> Vec<F> {
    (0..n).map(|_| t.generate_field_element()).collect()
}

/// Stand-in for the interactive proof: the prover states the input-layer claims at the random
/// points; no reduction is performed.
pub fn gkr_prove<F: FieldEngine, T: Transcript>(
    circuit: &Circuit<F>,
    _sp: &mut ProverScratchPad<F>,
    transcript: &mut T,
    _mpi: &MPIConfig,
) -> (F::ChallengeField, ExpanderDualVarChallenge<F>) {
    let z = circuit.expected_num_output_zeros;
    let out = &circuit.layers.last().unwrap().output_vals;
    let ok = out.iter().take(z).all(|x| x.is_zero());
    transcript.append_u8_slice(&[ok as u8]);
    let n = circuit.log_input_size();
    let dual = circuit.layers[0].mul.iter().count() > 0;
    let ch = ExpanderDualVarChallenge::<F> {
        rz_0: ch_vec(transcript, n),
        rz_1: if dual { Some(ch_vec(transcript, n)) } else { None },
        r_simd: ch_vec(transcript, F::SimdCircuitField::PACK_SIZE.ilog2() as usize),
        r_mpi: vec![],
    };
    let v = F::single_core_eval_circuit_vals_at_expander_challenge(&circuit.layers[0].input_vals, &ch.challenge_x());
    transcript.append_field_element(&v);
    if let Some(y) = ch.challenge_y() {
        let v = F::single_core_eval_circuit_vals_at_expander_challenge(&circuit.layers[0].input_vals, &y);
        transcript.append_field_element(&v);
    }
    (if ok { F::ChallengeField::ZERO } else { F::ChallengeField::ONE }, ch)
}

pub fn gkr_prove_batch<F: FieldEngine, T: Transcript>(
    circuits: &[Circuit<F>],
    sps: &mut [ProverScratchPad<F>],
    transcript: &mut T,
) -> (F::ChallengeField, ExpanderDualVarChallenge<F>) {
    gkr_prove(&circuits[0], &mut sps[0], transcript, &MPIConfig::prover_new(None, None))
}

#[allow(clippy::type_complexity)]
pub fn gkr_verify<F: FieldEngine>(
    _world: usize,
    circuit: &Circuit<F>,
    _public_input: &[F::SimdCircuitField],
    _claimed_v: &F::ChallengeField,
    transcript: &mut impl Transcript,
    mut proof_reader: impl Read,
) -> (bool, ExpanderDualVarChallenge<F>, F::ChallengeField, Option<F::ChallengeField>) {
    let n = circuit.log_input_size();
    let dual = circuit.layers[0].mul.iter().count() > 0;
    let ok = u8::deserialize_from(&mut proof_reader).unwrap_or(0);
    transcript.append_u8_slice(&[ok]);
    let ch = ExpanderDualVarChallenge::<F> {
        rz_0: ch_vec(transcript, n),
        rz_1: if dual { Some(ch_vec(transcript, n)) } else { None },
        r_simd: ch_vec(transcript, F::SimdCircuitField::PACK_SIZE.ilog2() as usize),
        r_mpi: vec![],
    };
    let Ok(v0) = F::ChallengeField::deserialize_from(&mut proof_reader) else { return (false, ch, F::ChallengeField::ZERO, None) };
    transcript.append_field_element(&v0);
    let v1 = if dual {
        let Ok(v) = F::ChallengeField::deserialize_from(&mut proof_reader) else { return (false, ch, v0, None) };
        transcript.append_field_element(&v);
        Some(v)
    } else {
        None
    };
    (ok == 1, ch, v0, v1)
}

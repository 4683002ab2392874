use crate::gkr_engine::*;
use crate::polynomials::MultilinearExtension;
use crate::serdes::{ExpSerde, SerdeResult};
use std::io::{Read, Write};

#[derive(Clone, Debug, Default)]
pub struct UnitSrs;
impl ExpSerde for UnitSrs {
    fn serialize_into<W: Write>(&self, _w: W) -> SerdeResult<()> { Ok(()) }
    fn deserialize_from<R: Read>(_r: R) -> SerdeResult<Self> { Ok(UnitSrs) }
}
impl StructuredReferenceString for UnitSrs {
    type PKey = ();
    type VKey = ();
    fn into_keys(self) -> ((), ()) { ((), ()) }
}
/// A commitment that is the list of values itself; an opening carries nothing.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct RawCommitment<F: FieldEngine> { pub evals: Vec<F::SimdCircuitField> }
impl<F: FieldEngine> ExpSerde for RawCommitment<F> {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> { self.evals.serialize_into(w) }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> { Ok(Self { evals: Vec::deserialize_from(r)? }) }
}
macro_rules! pcs {
    ($t:ident < $($g:ident),* >, $fe:ident, [$($gd:tt)*], $fty:ty, $pt:ident) => {
        impl<$($gd)*> ExpanderPCS<$fty> for $t<$($g),*> {
            const NAME: &'static str = stringify!($t);
            const PCS_TYPE: PolynomialCommitmentType = PolynomialCommitmentType::$pt;
            type Params = usize;
            type ScratchPad = ();
            type SRS = UnitSrs;
            type Commitment = RawCommitment<$fty>;
            type Opening = u64;
            type BatchOpening = u64;
            fn gen_params(n: usize, _w: usize) -> usize { n }
            fn init_scratch_pad(_p: &usize, _m: &impl MPIEngine) {}
            fn gen_srs(_p: &usize, _m: &impl MPIEngine, _r: impl rand::RngCore) -> UnitSrs { UnitSrs }
            fn commit(_p: &usize, _m: &impl MPIEngine, _k: &(), poly: &impl MultilinearExtension<<$fty as FieldEngine>::SimdCircuitField>, _s: &mut ()) -> Option<Self::Commitment> {
                Some(RawCommitment { evals: poly.hypercube_basis_ref().to_vec() })
            }
            fn open(_p: &usize, _m: &impl MPIEngine, _k: &(), _poly: &impl MultilinearExtension<<$fty as FieldEngine>::SimdCircuitField>, _x: &ExpanderSingleVarChallenge<$fty>, t: &mut impl Transcript, _s: &()) -> Option<u64> {
                Some(u64::from_le_bytes(t.generate_u8_slice(8).try_into().unwrap()))
            }
            fn multi_points_batch_open(_p: &usize, _m: &impl MPIEngine, _k: &(), polys: &[impl MultilinearExtension<<$fty as FieldEngine>::SimdCircuitField>], x: &[ExpanderSingleVarChallenge<$fty>], _s: &(), t: &mut impl Transcript) -> (Vec<<$fty as FieldEngine>::ChallengeField>, u64) {
                let vals = polys.iter().zip(x).map(|(p, x)| <$fty>::single_core_eval_circuit_vals_at_expander_challenge(p.hypercube_basis_ref(), x)).collect();
                (vals, u64::from_le_bytes(t.generate_u8_slice(8).try_into().unwrap()))
            }
            fn verify(_p: &usize, _k: &(), c: &Self::Commitment, x: &ExpanderSingleVarChallenge<$fty>, v: <$fty as FieldEngine>::ChallengeField, t: &mut impl Transcript, o: &u64) -> bool {
                let want = u64::from_le_bytes(t.generate_u8_slice(8).try_into().unwrap());
                *o == want && v == <$fty>::single_core_eval_circuit_vals_at_expander_challenge(&c.evals, x)
            }
            fn multi_points_batch_verify(_p: &usize, _k: &(), c: &[impl AsRef<Self::Commitment>], x: &[ExpanderSingleVarChallenge<$fty>], e: &[<$fty as FieldEngine>::ChallengeField], o: &u64, t: &mut impl Transcript) -> bool {
                let want = u64::from_le_bytes(t.generate_u8_slice(8).try_into().unwrap());
                let mut ok = *o == want && c.len() == x.len() && x.len() == e.len();
                for ((c, x), e) in c.iter().zip(x).zip(e) {
                    ok &= *e == <$fty>::single_core_eval_circuit_vals_at_expander_challenge(&c.as_ref().evals, x);
                }
                ok
            }
        }
    };
}
impl<F: FieldEngine> AsRef<RawCommitment<F>> for RawCommitment<F> {
    fn as_ref(&self) -> &RawCommitment<F> { self }
}
#[derive(Clone, Debug, Default)]
pub struct RawExpanderGKR<C> { _p: std::marker::PhantomData<C> }
pcs!(RawExpanderGKR<C>, C, [C: FieldEngine], C, Raw);
#[derive(Clone, Debug, Default)]
pub struct OrionSIMDPCS<C> { _p: std::marker::PhantomData<C> }
pcs!(OrionSIMDPCS<C>, C, [C: FieldEngine], C, Orion);
#[derive(Clone, Debug, Default)]
pub struct HyraxPCS<C> { _p: std::marker::PhantomData<C> }
pcs!(HyraxPCS<C>, C, [C: FieldEngine], C, Hyrax);
#[derive(Clone, Debug, Default)]
pub struct HyperUniKZGPCS<E> { _p: std::marker::PhantomData<E> }
pcs!(HyperUniKZGPCS<E>, E, [E], BN254Config, KZG);

pub fn expander_pcs_init_testing_only<F: FieldEngine, PCS: ExpanderPCS<F>>(
    n_input_vars: usize,
    mpi: &impl MPIEngine,
) -> (PCS::Params, <PCS::SRS as StructuredReferenceString>::PKey, <PCS::SRS as StructuredReferenceString>::VKey, PCS::ScratchPad) {
    let p = PCS::gen_params(n_input_vars, 1);
    let srs = PCS::SRS::default();
    let (a, b) = srs.into_keys();
    let s = PCS::init_scratch_pad(&p, mpi);
    (p, a, b, s)
}

use crate::arith::{Field, SimdField};
use crate::bn254::Fr;
use crate::fields::*;
use crate::polynomials::MultilinearExtension;
use crate::serdes::{ExpSerde, SerdeResult};
use std::fmt::Debug;
use std::io::{Read, Write};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FieldType {
    M31x1,
    M31x16,
    BN254,
    GF2Ext128,
    Goldilocksx1,
    Goldilocksx8,
    BabyBearx16,
}

pub trait FieldEngine: 'static + Default + Debug + Clone + Copy + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash + Send + Sync {
    const FIELD_TYPE: FieldType;
    const SENTINEL: [u8; 32];
    type CircuitField: Field;
    type SimdCircuitField: SimdField<Scalar = Self::CircuitField>;
    type ChallengeField: Field + From<Self::CircuitField> + ExpSerde;

    fn get_field_pack_size() -> usize {
        Self::SimdCircuitField::PACK_SIZE
    }
    fn circuit_field_mul_challenge_field(a: &Self::CircuitField, b: &Self::ChallengeField) -> Self::ChallengeField {
        Self::ChallengeField::from(*a) * *b
    }
    fn single_core_eval_circuit_vals_at_expander_challenge(
        vals: &[Self::SimdCircuitField],
        challenge: &ExpanderSingleVarChallenge<Self>,
    ) -> Self::ChallengeField {
        let mut lanes: Vec<Vec<Self::ChallengeField>> = vec![vec![]; Self::SimdCircuitField::PACK_SIZE];
        for v in vals {
            for (i, s) in v.unpack().into_iter().enumerate() {
                lanes[i].push(Self::ChallengeField::from(s));
            }
        }
        let mut point = challenge.rz.clone();
        point.extend_from_slice(&challenge.r_mpi);
        let at: Vec<Self::ChallengeField> = lanes
            .into_iter()
            .map(|l| crate::polynomials::eval_le(&l, &point))
            .collect();
        crate::polynomials::eval_le(&at, &challenge.r_simd)
    }
}

macro_rules! fe {
    ($t:ident, $ft:ident, $c:ty, $s:ty, $ch:ty) => {
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $t;
        impl FieldEngine for $t {
            const FIELD_TYPE: FieldType = FieldType::$ft;
            const SENTINEL: [u8; 32] = [0; 32];
            type CircuitField = $c;
            type SimdCircuitField = $s;
            type ChallengeField = $ch;
        }
    };
}
fe!(M31x16Config, M31x16, M31, M31x16, M31Ext3);
fe!(BN254Config, BN254, Fr, Fr, Fr);
fe!(GF2ExtConfig, GF2Ext128, GF2, GF2x8, GF2_128);
fe!(Goldilocksx8Config, Goldilocksx8, Goldilocks, Goldilocksx8, GoldilocksExt2);
fe!(BabyBearx16Config, BabyBearx16, BabyBear, BabyBearx16, BabyBearExt3);

crate::simd_field!(@gen FrxN, FrxN<N>, [const N: usize], Fr, N, "bn254 packed");
#[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BN254ConfigXN<const N: usize>;
impl<const N: usize> FieldEngine for BN254ConfigXN<N> {
    const FIELD_TYPE: FieldType = FieldType::BN254;
    const SENTINEL: [u8; 32] = [0; 32];
    type CircuitField = Fr;
    type SimdCircuitField = FrxN<N>;
    type ChallengeField = Fr;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum GKRScheme { Vanilla, GkrSquare }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum PolynomialCommitmentType { #[default] Raw, Hyrax, KZG, Orion, FRI }
impl std::str::FromStr for PolynomialCommitmentType {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match s {
            "Raw" => Ok(Self::Raw),
            "Hyrax" => Ok(Self::Hyrax),
            "KZG" => Ok(Self::KZG),
            "Orion" => Ok(Self::Orion),
            "FRI" => Ok(Self::FRI),
            _ => Err(format!("unknown pcs {s}")),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum FiatShamirHashType { #[default] SHA256, Keccak256, Poseidon, Animoe, MIMC5 }

pub trait GKREngine: Send + Sync {
    type FieldConfig: FieldEngine;
    type MPIConfig: MPIEngine;
    type TranscriptConfig: Transcript;
    type PCSConfig: ExpanderPCS<Self::FieldConfig>;
    const SCHEME: GKRScheme;
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Proof {
    pub bytes: Vec<u8>,
}
impl ExpSerde for Proof {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()> {
        self.bytes.serialize_into(writer)
    }
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self> {
        Ok(Proof { bytes: Vec::deserialize_from(reader)? })
    }
}

pub trait Transcript: Clone + Debug + Default + Send + Sync + 'static {
    const HASH_TYPE: FiatShamirHashType;
    fn new() -> Self;
    fn append_commitment(&mut self, commitment_bytes: &[u8]);
    fn append_u8_slice(&mut self, buffer: &[u8]);
    fn append_serializable_data<S: ExpSerde>(&mut self, s: &S) {
        let mut b = vec![];
        s.serialize_into(&mut b).unwrap();
        self.append_u8_slice(&b);
    }
    fn append_field_element<F: Field>(&mut self, f: &F) {
        let mut b = vec![];
        f.serialize_into(&mut b).unwrap();
        self.append_u8_slice(&b);
    }
    fn generate_u8_slice(&mut self, n: usize) -> Vec<u8>;
    fn generate_usize_vector(&mut self, n: usize) -> Vec<usize> {
        (0..n).map(|_| usize::from_le_bytes(self.generate_u8_slice(8).try_into().unwrap())).collect()
    }
    fn generate_field_element<F: Field>(&mut self) -> F {
        let b = self.generate_u8_slice(32);
        F::from_uniform_bytes(&b)
    }
    fn generate_challenge_field_element<F: Field>(&mut self) -> F { self.generate_field_element() }
    fn generate_field_elements<F: Field>(&mut self, n: usize) -> Vec<F> { (0..n).map(|_| self.generate_field_element()).collect() }
    fn finalize_and_get_proof(&mut self) -> Proof;
    fn hash_and_return_state(&mut self) -> Vec<u8>;
    fn set_state(&mut self, state: &[u8]);
    fn lock_proof(&mut self);
    fn unlock_proof(&mut self);
    fn refresh_digest(&mut self) {}
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct ExpanderSingleVarChallenge<C: FieldEngine> {
    pub rz: Vec<C::ChallengeField>,
    pub r_simd: Vec<C::ChallengeField>,
    pub r_mpi: Vec<C::ChallengeField>,
}
impl<C: FieldEngine> ExpanderSingleVarChallenge<C> {
    pub fn new(rz: Vec<C::ChallengeField>, r_simd: Vec<C::ChallengeField>, r_mpi: Vec<C::ChallengeField>) -> Self {
        Self { rz, r_simd, r_mpi }
    }
    pub fn num_vars(&self) -> usize { self.rz.len() + self.r_simd.len() + self.r_mpi.len() }
    pub fn local_xs(&self) -> Vec<C::ChallengeField> { let mut v = self.r_simd.clone(); v.extend_from_slice(&self.rz); v }
    pub fn global_xs(&self) -> Vec<C::ChallengeField> { let mut v = self.local_xs(); v.extend_from_slice(&self.r_mpi); v }
}
#[derive(Debug, Clone, Default, PartialEq)]
pub struct ExpanderDualVarChallenge<C: FieldEngine> {
    pub rz_0: Vec<C::ChallengeField>,
    pub rz_1: Option<Vec<C::ChallengeField>>,
    pub r_simd: Vec<C::ChallengeField>,
    pub r_mpi: Vec<C::ChallengeField>,
}
impl<C: FieldEngine> ExpanderDualVarChallenge<C> {
    pub fn challenge_x(&self) -> ExpanderSingleVarChallenge<C> {
        ExpanderSingleVarChallenge { rz: self.rz_0.clone(), r_simd: self.r_simd.clone(), r_mpi: self.r_mpi.clone() }
    }
    pub fn challenge_y(&self) -> Option<ExpanderSingleVarChallenge<C>> {
        self.rz_1.as_ref().map(|r| ExpanderSingleVarChallenge { rz: r.clone(), r_simd: self.r_simd.clone(), r_mpi: self.r_mpi.clone() })
    }
}

pub trait StructuredReferenceString {
    type PKey: Clone + Debug + ExpSerde + Send + Sync;
    type VKey: Clone + Debug + ExpSerde + Send + Sync;
    fn into_keys(self) -> (Self::PKey, Self::VKey);
}

pub trait ExpanderPCS<F: FieldEngine> {
    const NAME: &'static str;
    const PCS_TYPE: PolynomialCommitmentType;
    type Params: Clone + Debug + Default + Send + Sync + 'static;
    type ScratchPad: Clone + Debug + Default + Send + Sync + ExpSerde;
    type SRS: Clone + Debug + Default + ExpSerde + Send + Sync + StructuredReferenceString;
    type Commitment: Clone + Debug + ExpSerde + Default + Send + Sync;
    type Opening: Clone + Debug + ExpSerde + Default + Send + Sync;
    type BatchOpening: Clone + Debug + ExpSerde + Default + Send + Sync;

    fn gen_params(n_input_vars: usize, world_size: usize) -> Self::Params;
    fn init_scratch_pad(params: &Self::Params, mpi_engine: &impl MPIEngine) -> Self::ScratchPad;
    fn gen_srs(params: &Self::Params, mpi_engine: &impl MPIEngine, rng: impl rand::RngCore) -> Self::SRS;
    fn commit(
        params: &Self::Params,
        mpi_engine: &impl MPIEngine,
        proving_key: &<Self::SRS as StructuredReferenceString>::PKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        scratch_pad: &mut Self::ScratchPad,
    ) -> Option<Self::Commitment>;
    fn open(
        params: &Self::Params,
        mpi_engine: &impl MPIEngine,
        proving_key: &<Self::SRS as StructuredReferenceString>::PKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        x: &ExpanderSingleVarChallenge<F>,
        transcript: &mut impl Transcript,
        scratch_pad: &Self::ScratchPad,
    ) -> Option<Self::Opening>;
    fn multi_points_batch_open(
        params: &Self::Params,
        mpi_engine: &impl MPIEngine,
        proving_key: &<Self::SRS as StructuredReferenceString>::PKey,
        polys: &[impl MultilinearExtension<F::SimdCircuitField>],
        x: &[ExpanderSingleVarChallenge<F>],
        scratch_pad: &Self::ScratchPad,
        transcript: &mut impl Transcript,
    ) -> (Vec<F::ChallengeField>, Self::BatchOpening);
    fn verify(
        params: &Self::Params,
        verifying_key: &<Self::SRS as StructuredReferenceString>::VKey,
        commitment: &Self::Commitment,
        x: &ExpanderSingleVarChallenge<F>,
        v: F::ChallengeField,
        transcript: &mut impl Transcript,
        opening: &Self::Opening,
    ) -> bool;
    fn multi_points_batch_verify(
        params: &Self::Params,
        verifying_key: &<Self::SRS as StructuredReferenceString>::VKey,
        commitments: &[impl AsRef<Self::Commitment>],
        x: &[ExpanderSingleVarChallenge<F>],
        evals: &[F::ChallengeField],
        opening: &Self::BatchOpening,
        transcript: &mut impl Transcript,
    ) -> bool;
}

pub trait MPISharedMemory {
    fn bytes_size(&self) -> usize;
    fn to_memory(&self, ptr: &mut *mut u8);
    fn new_from_memory(ptr: &mut *mut u8) -> Self;
    fn discard_control_of_shared_mem(self);
}
macro_rules! pod_shared {
    ($($t:ty),*) => {$(
        impl MPISharedMemory for $t {
            fn bytes_size(&self) -> usize { std::mem::size_of::<Self>() }
            fn to_memory(&self, ptr: &mut *mut u8) {
                unsafe {
                    std::ptr::copy_nonoverlapping(self as *const Self as *const u8, *ptr, std::mem::size_of::<Self>());
                    *ptr = ptr.add(std::mem::size_of::<Self>());
                }
            }
            fn new_from_memory(ptr: &mut *mut u8) -> Self {
                unsafe {
                    let r = std::ptr::read_unaligned(*ptr as *const Self);
                    *ptr = ptr.add(std::mem::size_of::<Self>());
                    r
                }
            }
            fn discard_control_of_shared_mem(self) {}
        }
    )*};
}
pod_shared!(usize, u8, u32, u64, bool);
/// The real implementation aliases the shared segment; this one copies out of it.
impl<T: Copy> MPISharedMemory for Vec<T> {
    fn bytes_size(&self) -> usize {
        8 + self.len() * std::mem::size_of::<T>()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.len().to_memory(ptr);
        unsafe {
            std::ptr::copy_nonoverlapping(self.as_ptr() as *const u8, *ptr, self.len() * std::mem::size_of::<T>());
            *ptr = ptr.add(self.len() * std::mem::size_of::<T>());
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let n = usize::new_from_memory(ptr);
        let mut v = Vec::with_capacity(n);
        unsafe {
            for i in 0..n {
                v.push(std::ptr::read_unaligned((*ptr as *const T).add(i)));
            }
            *ptr = ptr.add(n * std::mem::size_of::<T>());
        }
        v
    }
    fn discard_control_of_shared_mem(self) {
        self.leak();
    }
}

impl<A: MPISharedMemory, B: MPISharedMemory> MPISharedMemory for (A, B) {
    fn bytes_size(&self) -> usize { self.0.bytes_size() + self.1.bytes_size() }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.0.to_memory(ptr);
        self.1.to_memory(ptr);
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let a = A::new_from_memory(ptr);
        (a, B::new_from_memory(ptr))
    }
    fn discard_control_of_shared_mem(self) {
        self.0.discard_control_of_shared_mem();
        self.1.discard_control_of_shared_mem();
    }
}

pub trait MPIEngine {
    fn gather_vec<F: Sized + Clone>(&self, local_vec: &[F], global_vec: &mut Vec<F>);
    fn root_broadcast_f<F: Copy>(&self, f: &mut F);
    fn root_broadcast_bytes(&self, bytes: &mut Vec<u8>);
    fn is_single_process(&self) -> bool;
    fn world_size(&self) -> usize;
    fn world_rank(&self) -> usize;
    fn is_root(&self) -> bool { self.world_rank() == 0 }
    fn barrier(&self);
    fn create_shared_mem(&self, n_bytes: usize) -> (*mut u8, *mut crate::mpi::ffi::ompi_win_t);
    fn free_shared_mem(&self, window: &mut *mut crate::mpi::ffi::ompi_win_t);
    fn consume_obj_and_create_shared<T: MPISharedMemory>(&self, obj: Option<T>) -> (T, *mut crate::mpi::ffi::ompi_win_t) {
        let obj = obj.unwrap();
        let (base, win) = self.create_shared_mem(obj.bytes_size());
        let mut p = base;
        obj.to_memory(&mut p);
        let mut p = base;
        (T::new_from_memory(&mut p), win)
    }
}

#[derive(Clone, Debug, Default)]
pub struct MPIConfig<'a> {
    pub universe: Option<&'a crate::mpi::environment::Universe>,
    pub world: Option<&'a crate::mpi::topology::SimpleCommunicator>,
    pub world_size: usize,
    pub world_rank: usize,
}
impl<'a> MPIConfig<'a> {
    pub fn init() -> Option<crate::mpi::environment::Universe> { Some(Default::default()) }
    pub fn prover_new(
        universe: Option<&'a crate::mpi::environment::Universe>,
        world: Option<&'a crate::mpi::topology::SimpleCommunicator>,
    ) -> Self {
        Self { universe, world, world_size: 1, world_rank: 0 }
    }
    pub fn verifier_new(world_size: usize) -> Self {
        Self { universe: None, world: None, world_size, world_rank: 0 }
    }
}
impl<'a> MPIEngine for MPIConfig<'a> {
    fn gather_vec<F: Sized + Clone>(&self, local_vec: &[F], global_vec: &mut Vec<F>) { *global_vec = local_vec.to_vec(); }
    fn root_broadcast_f<F: Copy>(&self, _f: &mut F) {}
    fn root_broadcast_bytes(&self, _bytes: &mut Vec<u8>) {}
    fn is_single_process(&self) -> bool { self.world_size == 1 }
    fn world_size(&self) -> usize { self.world_size }
    fn world_rank(&self) -> usize { self.world_rank }
    fn barrier(&self) {}
    fn create_shared_mem(&self, n_bytes: usize) -> (*mut u8, *mut crate::mpi::ffi::ompi_win_t) {
        let b = vec![0u8; n_bytes + 64].leak();
        (b.as_mut_ptr(), std::ptr::null_mut())
    }
    fn free_shared_mem(&self, _window: &mut *mut crate::mpi::ffi::ompi_win_t) {}
}

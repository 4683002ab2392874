use crate::gkr_engine::{FiatShamirHashType, Proof, Transcript};
use sha2::Digest;

pub trait FiatShamirHasher: Clone + std::fmt::Debug + Default + Send + Sync + 'static {
    const TYPE: FiatShamirHashType;
}
#[derive(Clone, Debug, Default)]
pub struct SHA256hasher;
impl FiatShamirHasher for SHA256hasher { const TYPE: FiatShamirHashType = FiatShamirHashType::SHA256; }
#[derive(Clone, Debug, Default)]
pub struct Keccak256hasher;
impl FiatShamirHasher for Keccak256hasher { const TYPE: FiatShamirHashType = FiatShamirHashType::Keccak256; }
#[derive(Clone, Debug, Default)]
pub struct MiMC5FiatShamirHasher<F> { _p: std::marker::PhantomData<F> }
impl<F: Clone + std::fmt::Debug + Default + Send + Sync + 'static> FiatShamirHasher for MiMC5FiatShamirHasher<F> {
    const TYPE: FiatShamirHashType = FiatShamirHashType::MIMC5;
}

#[derive(Clone, Debug, Default)]
pub struct BytesHashTranscript<H: FiatShamirHasher> {
    _h: H,
    digest: Vec<u8>,
    data: Vec<u8>,
    proof: Vec<u8>,
    locked: bool,
    kept: Vec<u8>,
}
impl<H: FiatShamirHasher> Transcript for BytesHashTranscript<H> {
    const HASH_TYPE: FiatShamirHashType = H::TYPE;
    fn new() -> Self { Self { digest: vec![0; 32], ..Default::default() } }
    fn append_commitment(&mut self, b: &[u8]) { self.append_u8_slice(b) }
    fn append_u8_slice(&mut self, b: &[u8]) {
        if !self.locked { self.proof.extend_from_slice(b); }
        self.data.extend_from_slice(b);
    }
    fn generate_u8_slice(&mut self, n: usize) -> Vec<u8> {
        let mut out = vec![];
        while out.len() < n {
            self.hash_and_return_state();
            out.extend_from_slice(&self.digest);
        }
        out.truncate(n);
        out
    }
    fn finalize_and_get_proof(&mut self) -> Proof { Proof { bytes: self.proof.clone() } }
    fn hash_and_return_state(&mut self) -> Vec<u8> {
        let mut h = sha2::Sha256::new();
        h.update(&self.digest);
        h.update(&self.data);
        self.data.clear();
        self.digest = h.finalize().to_vec();
        self.digest.clone()
    }
    fn set_state(&mut self, s: &[u8]) { self.data.clear(); self.digest = s.to_vec(); }
    fn lock_proof(&mut self) { assert!(!self.locked); self.locked = true; }
    fn unlock_proof(&mut self) { assert!(self.locked); self.locked = false; }
}

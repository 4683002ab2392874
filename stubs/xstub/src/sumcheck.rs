use crate::gkr_engine::FieldEngine;
#[derive(Clone, Debug, Default)]
pub struct ProverScratchPad<F: FieldEngine> { _p: std::marker::PhantomData<F> }
impl<F: FieldEngine> ProverScratchPad<F> {
    pub fn new(_max_in: usize, _max_out: usize, _world: usize) -> Self { Self { _p: Default::default() } }
}
pub struct ScratchPadBatch<F: FieldEngine> { v: Vec<ProverScratchPad<F>> }
impl<F: FieldEngine> ScratchPadBatch<F> {
    pub fn new(n: usize, i: usize, o: usize, w: usize) -> Self { Self { v: (0..n).map(|_| ProverScratchPad::new(i, o, w)).collect() } }
    pub fn as_mut_slice(&mut self) -> &mut [ProverScratchPad<F>] { &mut self.v }
}

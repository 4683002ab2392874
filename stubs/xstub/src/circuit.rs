use crate::arith::{Field, SimdField};
use crate::gkr_engine::{FieldEngine, GKREngine, Transcript};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CoefType { Constant, Random, PublicInput(usize) }

#[derive(Debug, Clone, PartialEq)]
pub struct Gate<C: FieldEngine, const INPUT_NUM: usize> {
    pub i_ids: [usize; INPUT_NUM],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
    pub gate_type: usize,
}
pub type GateMul<C> = Gate<C, 2>;
pub type GateAdd<C> = Gate<C, 1>;
pub type GateUni<C> = Gate<C, 1>;
pub type GateConst<C> = Gate<C, 0>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Allocation { pub i_offset: usize, pub o_offset: usize }

#[derive(Debug, Clone)]
pub struct Segment<C: FieldEngine> {
    pub i_var_num: usize,
    pub o_var_num: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<GateMul<C>>,
    pub gate_adds: Vec<GateAdd<C>>,
    pub gate_consts: Vec<GateConst<C>>,
    pub gate_uni: Vec<GateUni<C>>,
}
#[derive(Debug, Clone)]
pub struct RecursiveCircuit<C: FieldEngine> {
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
    pub segments: Vec<Segment<C>>,
    pub layers: Vec<usize>,
}
#[derive(Debug, Clone, Default)]
pub struct CircuitLayer<C: FieldEngine> {
    pub input_var_num: usize,
    pub output_var_num: usize,
    pub input_vals: Vec<C::SimdCircuitField>,
    pub output_vals: Vec<C::SimdCircuitField>,
    pub mul: Vec<GateMul<C>>,
    pub add: Vec<GateAdd<C>>,
    pub const_: Vec<GateConst<C>>,
    pub uni: Vec<GateUni<C>>,
}
#[derive(Debug, Clone, Default)]
pub struct Circuit<C: FieldEngine> {
    pub layers: Vec<CircuitLayer<C>>,
    pub public_input: Vec<C::SimdCircuitField>,
    pub expected_num_output_zeros: usize,
    pub num_public_inputs: usize,
}

impl<C: FieldEngine> RecursiveCircuit<C> {
    pub fn flatten(&self) -> Circuit<C> {
        let mut layers = vec![];
        for &id in &self.layers {
            let s = &self.segments[id];
            let mut l = CircuitLayer { input_var_num: s.i_var_num, output_var_num: s.o_var_num, input_vals: vec![], output_vals: vec![], mul: vec![], add: vec![], const_: vec![], uni: vec![] };
            self.place(id, 0, 0, &mut l);
            layers.push(l);
        }
        Circuit { layers, public_input: vec![], expected_num_output_zeros: self.expected_num_output_zeros, num_public_inputs: self.num_public_inputs }
    }
    fn place(&self, id: usize, io: usize, oo: usize, l: &mut CircuitLayer<C>) {
        fn sh<C: FieldEngine, const N: usize>(g: &Gate<C, N>, io: usize, oo: usize) -> Gate<C, N> {
            let mut g = g.clone();
            for x in g.i_ids.iter_mut() { *x += io; }
            g.o_id += oo;
            g
        }
        let s = &self.segments[id];
        l.mul.extend(s.gate_muls.iter().map(|g| sh(g, io, oo)));
        l.add.extend(s.gate_adds.iter().map(|g| sh(g, io, oo)));
        l.const_.extend(s.gate_consts.iter().map(|g| sh(g, io, oo)));
        l.uni.extend(s.gate_uni.iter().map(|g| sh(g, io, oo)));
        for (c, al) in &s.child_segs {
            for a in al { self.place(*c, io + a.i_offset, oo + a.o_offset, l); }
        }
    }
}
impl<C: FieldEngine> Circuit<C> {
    pub fn log_input_size(&self) -> usize { self.layers[0].input_var_num }
    pub fn pre_process_gkr(&mut self) {}
    pub fn identify_rnd_coefs(&mut self) {}
    pub fn identify_structure_info(&mut self) {}
    pub fn contains_random(&self) -> bool { false }
    pub fn fill_rnd_coefs<T: Transcript>(&mut self, t: &mut T) {
        for l in self.layers.iter_mut() {
            for g in l.mul.iter_mut() { if g.coef_type == CoefType::Random { g.coef = t.generate_field_element(); } }
            for g in l.add.iter_mut() { if g.coef_type == CoefType::Random { g.coef = t.generate_field_element(); } }
            for g in l.uni.iter_mut() { if g.coef_type == CoefType::Random { g.coef = t.generate_field_element(); } }
            for g in l.const_.iter_mut() { if g.coef_type == CoefType::Random { g.coef = t.generate_field_element(); } }
        }
    }
    fn coef<const N: usize>(&self, g: &Gate<C, N>) -> C::SimdCircuitField {
        match g.coef_type {
            CoefType::PublicInput(i) => self.public_input[i],
            _ => C::SimdCircuitField::from(g.coef),
        }
    }
    pub fn evaluate(&mut self) {
        for i in 0..self.layers.len() {
            let l = &self.layers[i];
            let x = &l.input_vals;
            let mut o = vec![C::SimdCircuitField::ZERO; 1 << l.output_var_num];
            for g in &l.mul { o[g.o_id] += x[g.i_ids[0]] * x[g.i_ids[1]] * self.coef(g); }
            for g in &l.add { o[g.o_id] += x[g.i_ids[0]] * self.coef(g); }
            for g in &l.const_ { o[g.o_id] += self.coef(g); }
            for g in &l.uni {
                let v = x[g.i_ids[0]];
                let v = if g.gate_type == 12345 { v * v * v * v * v } else { v };
                o[g.o_id] += v * self.coef(g);
            }
            if i + 1 < self.layers.len() { self.layers[i + 1].input_vals = o; } else { self.layers[i].output_vals = o; }
        }
    }
    /// # Safety
    /// The real one aliases gates; this one clones.
    pub unsafe fn create_batch(&self, n: usize) -> (Vec<Circuit<C>>, Vec<Vec<C::SimdCircuitField>>) {
        let mut c = self.clone();
        c.layers[0].input_vals = vec![Default::default(); 1 << self.log_input_size()];
        (vec![c; n], vec![])
    }
    /// # Safety
    /// See `create_batch`.
    pub unsafe fn drop_batch(_c: Vec<Circuit<C>>) {}
    pub fn single_thread_prover_load_circuit<Cfg: GKREngine<FieldConfig = C>>(_f: &str) -> Self { unimplemented!() }
    pub fn verifier_load_circuit<Cfg: GKREngine<FieldConfig = C>>(_f: &str) -> Self { unimplemented!() }
}

EC='expander_compiler/src/'
S = dict(property='C06', edits=[(EC+'circuit/layered/opt.rs', """        self.gate_type == other.gate_type
            && self.inputs == other.inputs
            && self.output""", """        self.gate_type == other.gate_type
            && self.inputs.iter().zip(other.inputs.iter()).all(|(x, y)| x == y)
            && self.output""")],
 needs='two custom gates of one type and output, the inputs of one beginning with those of the other',
 breaks='custom gates of different arity are merged: one of them disappears and the coefficient of the other changes',
 demo='''use expander_compiler::circuit::{config::*, layered::*};
use arith::Field;
type C = M31Config;
type F = CircuitField<C>;
fn u(v: usize) -> NormalInputUsize { NormalInputUsize::from_vec(vec![v]) }
fn cus(i: &[usize], c: u32) -> GateCustom<C, NormalInputType> {
    GateCustom { gate_type: 12345, inputs: i.iter().map(|x| NormalInput { offset: *x }).collect(), output: 0, coef: Coef::Constant(F::from(c)) }
}
fn main() {
    let s = Segment::<C, NormalInputType> { num_inputs: u(4), num_outputs: 1, gate_customs: vec![cus(&[0, 1], 2), cus(&[0, 1, 2], 3), cus(&[0, 1], 5)], ..Default::default() };
    let mut c: Circuit<C, NormalInputType> = Circuit { num_public_inputs: 0, num_actual_outputs: 1, expected_num_output_zeroes: 0, segments: vec![s], layer_ids: vec![0] };
    c.dedup_gates();
    let mut g: Vec<(usize, Coef<C>)> = c.segments[0].gate_customs.iter().map(|g| (g.inputs.len(), g.coef)).collect();
    g.sort_by_key(|x| x.0);
    assert_eq!(g, vec![(2, Coef::Constant(F::from(7u32))), (3, Coef::Constant(F::from(3u32)))]);
}
''')

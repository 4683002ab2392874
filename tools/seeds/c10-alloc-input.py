EC='expander_compiler/src/'
S = dict(property='C10', edits=[(EC+'circuit/layered/export.rs', """                                    i_offset: alloc.input_offset.to_vec(),
""", """                                    i_offset: alloc.input_offset.to_vec()
                                        [..segment.num_inputs.len() - 1]
                                        .iter()
                                        .copied()
                                        .chain([0])
                                        .collect(),
""")],
 needs='a cross-layer circuit whose child segment starts at a non-zero offset in the deepest layer it reads',
 breaks='the offset of a child segment in the last input layer is exported as zero',
 demo='''use expander_compiler::circuit::{config::*, layered::*};
use arith::Field;
type C = M31Config;
fn u(v: Vec<usize>) -> CrossLayerInputUsize { CrossLayerInputUsize::from_vec(v) }
fn main() {
    let child = Segment::<C, CrossLayerInputType> {
        num_inputs: u(vec![2, 2]), num_outputs: 2,
        gate_adds: vec![Gate { inputs: [CrossLayerInput { layer: 1, offset: 1 }], output: 0, coef: Coef::Constant(CircuitField::<C>::ONE) }], ..Default::default() };
    let parent = Segment::<C, CrossLayerInputType> {
        num_inputs: u(vec![4, 4]), num_outputs: 4,
        child_segs: vec![(0, vec![Allocation { input_offset: u(vec![0, 2]), output_offset: 2 }])], ..Default::default() };
    let circ = Circuit::<C, CrossLayerInputType> { num_public_inputs: 0, num_actual_outputs: 1, expected_num_output_zeroes: 0, segments: vec![child, parent], layer_ids: vec![1] };
    let e = circ.export_to_expander::<<C as gkr_engine::GKREngine>::FieldConfig>();
    let a = &e.segments[1].child_segs[0].1[0];
    assert_eq!(a.i_offset, vec![0, 2]);
    assert_eq!(a.o_offset, 2);
}
''')

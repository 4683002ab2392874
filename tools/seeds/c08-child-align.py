EC='expander_compiler/src/'
S = dict(property='C08', edits=[(EC+'circuit/layered/mod.rs', """                    if a.output_offset % subc.num_outputs != 0 {""", """                    if a.output_offset % subc.num_inputs.get(0) != 0 {""")],
 needs='a child segment with more outputs than inputs allocated at an output offset that is a multiple of its input length only',
 breaks='validation accepts a layered circuit whose child segment is written to a misaligned output position',
 demo='''use expander_compiler::circuit::{config::*, layered::*};
use arith::Field;
type C = M31Config;
fn circ(off: usize) -> Circuit<C, NormalInputType> {
    let one = Coef::Constant(CircuitField::<C>::ONE);
    let g = |o: usize| Gate { inputs: [NormalInput { offset: 0 }], output: o, coef: one };
    let child = Segment::<C, NormalInputType> {
        num_inputs: NormalInputUsize { v: 1 }, num_outputs: 2, gate_adds: vec![g(0), g(1)], ..Default::default() };
    let parent = Segment::<C, NormalInputType> {
        num_inputs: NormalInputUsize { v: 1 }, num_outputs: 8,
        child_segs: vec![(0, vec![Allocation { input_offset: NormalInputUsize { v: 0 }, output_offset: off }])], ..Default::default() };
    Circuit { num_public_inputs: 0, num_actual_outputs: 1, expected_num_output_zeroes: 0, segments: vec![child, parent], layer_ids: vec![1] }
}
fn main() {
    for off in [0, 2, 4, 6] { assert!(circ(off).validate().is_ok()); }
    for off in [1, 3, 5, 7, 8] {
        let r = std::panic::catch_unwind(|| circ(off).validate().is_ok());
        assert!(!matches!(r, Ok(true)), "offset {off} accepted");
    }
}
''')

EC='expander_compiler/src/'
S = dict(property='C10', edits=[(EC+'circuit/layered/export.rs', """                    assert_eq!(r, expander_circuit::CoefType::Constant);
""", """                    assert!(!matches!(r, expander_circuit::CoefType::PublicInput(_)));
""")],
 needs='a cross-layer circuit whose gate reading an earlier layer has a random coefficient',
 breaks='the random coefficient of a far relay is exported as the constant zero instead of being refused, so the exported circuit computes something else',
 demo='''use expander_compiler::circuit::{config::*, layered::*};
use arith::Field;
type C = M31Config;
fn u(v: Vec<usize>) -> CrossLayerInputUsize { CrossLayerInputUsize::from_vec(v) }
fn circ(coef: Coef<C>) -> Circuit<C, CrossLayerInputType> {
    let s0 = Segment::<C, CrossLayerInputType> {
        num_inputs: u(vec![2]), num_outputs: 2,
        gate_adds: vec![Gate { inputs: [CrossLayerInput { layer: 0, offset: 1 }], output: 0, coef: Coef::Constant(CircuitField::<C>::ONE) }], ..Default::default() };
    let s1 = Segment::<C, CrossLayerInputType> {
        num_inputs: u(vec![2, 2]), num_outputs: 2,
        gate_adds: vec![Gate { inputs: [CrossLayerInput { layer: 1, offset: 1 }], output: 0, coef }], ..Default::default() };
    Circuit { num_public_inputs: 1, num_actual_outputs: 1, expected_num_output_zeroes: 0, segments: vec![s0, s1], layer_ids: vec![0, 1] }
}
fn main() {
    let e = circ(Coef::Constant(CircuitField::<C>::from(7u32))).export_to_expander::<<C as gkr_engine::GKREngine>::FieldConfig>();
    assert_eq!(e.segments[1].gate_relay.len(), 1);
    assert_eq!(e.segments[1].gate_relay[0].coef, CircuitField::<C>::from(7u32));
    assert_eq!((e.segments[1].gate_relay[0].i_layer, e.segments[1].gate_relay[0].i_id, e.segments[1].gate_relay[0].o_id), (1, 1, 0));
    for c in [Coef::Random, Coef::PublicInput(0)] {
        let r = std::panic::catch_unwind(|| circ(c).export_to_expander::<<C as gkr_engine::GKREngine>::FieldConfig>().segments[1].gate_relay[0].coef.is_zero());
        assert!(r.is_err(), "a non-constant relay coefficient was exported as a constant");
    }
}
''')

EC='expander_compiler/src/'
S = dict(property='C06', edits=[(EC+'circuit/layered/opt.rs', """            if !should_expand(*sub_segment_id) {
                if !child_segs_map.contains_key(sub_segment_id) {
                    child_segs_map.insert(*sub_segment_id, Vec::new());
                }
""", """            if !should_expand(*sub_segment_id) {
                child_segs_map.insert(*sub_segment_id, Vec::with_capacity(allocations.len()));
""")],
 needs='a segment whose inlined child uses a segment that the parent also uses itself, the inlined child coming first',
 breaks='the allocations of the grandchild collected from the inlined child are lost: its outputs are missing from the optimised circuit',
 demo='''use expander_compiler::circuit::{config::*, layered::*};
use arith::Field;
type C = M31Config;
type F = CircuitField<C>;
fn u(v: usize) -> NormalInputUsize { NormalInputUsize::from_vec(vec![v]) }
fn add(i: usize, o: usize, c: u32) -> GateAdd<C, NormalInputType> { Gate { inputs: [NormalInput { offset: i }], output: o, coef: Coef::Constant(F::from(c)) } }
fn alloc(i: usize, o: usize) -> Allocation<NormalInputType> { Allocation { input_offset: u(i), output_offset: o } }
fn circ(first: bool) -> Circuit<C, NormalInputType> {
    // a: eight gates, kept; b: one gate and a, inlined; c: the layer
    let a = Segment::<C, NormalInputType> { num_inputs: u(8), num_outputs: 8, gate_adds: (0..8).map(|i| add(i, (i + 1) % 8, 2 + i as u32)).collect(), ..Default::default() };
    let b = Segment::<C, NormalInputType> { num_inputs: u(16), num_outputs: 16, gate_adds: vec![add(9, 9, 5)], child_segs: vec![(0, vec![alloc(0, 0)])], ..Default::default() };
    let mut ch = vec![(1, vec![alloc(0, 0)]), (0, vec![alloc(8, 16)])];
    if !first { ch.reverse(); }
    let c = Segment::<C, NormalInputType> { num_inputs: u(16), num_outputs: 32, gate_adds: (24..32).map(|o| add(o - 20, o, 3)).collect(), child_segs: ch, ..Default::default() };
    Circuit { num_public_inputs: 0, num_actual_outputs: 32, expected_num_output_zeroes: 0, segments: vec![a, b, c], layer_ids: vec![2] }
}
fn main() {
    for first in [true, false] {
        let c = circ(first);
        let o = c.expand_small_segments();
        assert!(o.segments.len() == 2, "b is not inlined");
        let x: Vec<F> = (0..16u32).map(|i| F::from(7 * i + 1)).collect();
        // every output that is driven at all
        let (p, q) = (c.eval_unsafe(x.clone()), o.eval_unsafe(x));
        assert_eq!(p.0, q.0, "the optimised circuit computes something else");
    }
}
''')

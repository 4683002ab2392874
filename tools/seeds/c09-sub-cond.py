EC='expander_compiler/src/'
S = dict(property='C09', edits=[(EC+'circuit/ir/common/mod.rs', """                    cond &= sub_cond;""", """                    cond = sub_cond;""")],
 needs='a circuit that calls at least two sub-circuits, of which an earlier one is violated and the last one holds',
 breaks='evaluation of a circuit reports satisfied although an earlier sub-circuit call violates its constraint',
 demo='''use expander_compiler::circuit::{config::*, ir::source::{Circuit, Constraint, ConstraintType, Instruction, RootCircuit}};
use std::collections::HashMap;
fn main() {
    type C = M31Config;
    let call = |v: usize| Instruction::<C>::SubCircuitCall { sub_circuit_id: 1, inputs: vec![v], num_outputs: 1 };
    let mut circuits = HashMap::new();
    circuits.insert(0, Circuit::<C> { num_inputs: 3, instructions: vec![call(1), call(2), call(3)], constraints: vec![], outputs: vec![4, 5, 6] });
    circuits.insert(1, Circuit::<C> { num_inputs: 1, instructions: vec![], constraints: vec![Constraint { typ: ConstraintType::Zero, var: 1 }], outputs: vec![1] });
    let r = RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits };
    r.validate().unwrap();
    let f = |x: u32| CircuitField::<C>::from(x);
    for (a, b, c) in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (5, 0, 7)] {
        let (o, ok) = r.eval_unsafe(vec![f(a), f(b), f(c)]);
        assert_eq!(o, vec![f(a), f(b), f(c)]);
        assert_eq!(ok, a == 0 && b == 0 && c == 0, "{a} {b} {c}");
    }
}
''')

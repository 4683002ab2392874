EC='expander_compiler/src/'
S = dict(property='C05', edits=[(EC+'compile/mod.rs', """    im.compose_in_place(&imy);
    loop {""", """    loop {""")],
 needs='optimisation level at least 2 and a circuit whose unused input only becomes unused or visible to the first optimisation round',
 breaks='the input mapping of the first optimisation round is lost: the witness is laid out for the wrong inputs',
 demo='''use expander_compiler::circuit::{config::*, ir::{self, expr::LinComb, expr::LinCombTerm, source::{Circuit, Constraint, ConstraintType, Instruction, RootCircuit}}};
use expander_compiler::compile::*;
use std::collections::HashMap;
fn main() {
    type C = M31Config;
    let f = |x: u32| CircuitField::<C>::from(x);
    // input 1 is never used; input 2 * input 3 must equal 6
    let mut circuits = HashMap::new();
    circuits.insert(0, Circuit::<C> {
        num_inputs: 3,
        instructions: vec![
            Instruction::Mul(vec![2, 3]),
            Instruction::LinComb(LinComb { terms: vec![LinCombTerm { var: 4, coef: f(1) }], constant: -f(6) }),
        ],
        constraints: vec![Constraint { typ: ConstraintType::Zero, var: 5 }],
        outputs: vec![],
    });
    let r = RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits };
    r.validate().unwrap();
    for lvl in 1..=3 {
        let (ws, lc) = compile_with_options::<C, expander_compiler::circuit::layered::NormalInputType>(&r, CompileOptions::default().with_opt_level(lvl)).unwrap();
        for (a, b, c, want) in [(9, 2, 3, true), (9, 6, 1, true), (9, 2, 2, false), (6, 0, 0, false), (0, 3, 2, true), (2, 3, 5, false), (3, 2, 9, false)] {
            let (inp, _) = ws.eval_unsafe(vec![f(a), f(b), f(c)]);
            let (_, ok) = lc.eval_unsafe(inp);
            assert_eq!(ok, want, "level {lvl}: {a} {b} {c}");
        }
    }
    let _ = std::any::type_name::<ir::dest::Irc<C>>();
}
''')

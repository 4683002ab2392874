EC='expander_compiler/src/'
S = dict(property='C11', edits=[(EC+'circuit/ir/hint_normalized/witness_solver.rs', """                for i in i_start..i_end {
                    tmp[i - i_start] = tmp_public_inputs[i - i_start][k];
                }
                for i in i_end..b_end {
                    tmp[i - i_start] = tmp[i - i_start - 1];
                }""", """                for i in i_start..i_end {
                    tmp[i - i_start] = tmp_public_inputs[i - i_start][k];
                }""")],
 needs='a batch whose last block is only partly filled, of a circuit with public inputs, used as packed witnesses (as the prover does)',
 breaks='the unused lanes of the packed public inputs keep values of the inputs instead of repeating a witness: the unused lanes violate the constraints',
 demo='''use expander_compiler::frontend::*;
declare_circuit!(Circuit { x: Variable, y: PublicVariable });
impl Define<M31Config> for Circuit<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let s = b.mul(self.x, self.x);
        b.assert_is_equal(s, self.y);
    }
}
fn main() {
    let r = compile(&Circuit::default(), CompileOptions::default()).unwrap();
    for n in [1u32, 3, 16, 21] {
        let many: Vec<_> = (0..n).map(|i| Circuit::<M31> { x: M31::from(i + 7), y: M31::from((i + 7) * (i + 7)) }).collect();
        let w = r.witness_solver.solve_witnesses(&many).unwrap();
        assert_eq!(r.layered_circuit.run(&w), vec![true; n as usize]);
        for (a, p) in w.iter_simd() {
            let (_, ok) = r.layered_circuit.eval_with_public_inputs_simd(a, &p);
            assert!(ok.iter().all(|x| *x), "an unused lane violates a constraint");
        }
    }
}
''')

EC='expander_compiler/src/'
S = dict(property='C07', edits=[(EC+'builder/hint_normalize.rs', """                self.assert_bool(*x);
                self.assert_bool(*y);
                let x_plus_y = self.push_add(*x, *y);""", """                self.assert_bool(*x);
                // a constant has been checked already
                if self.constant_value(*x).is_none() {
                    self.assert_bool(*y);
                }
                let x_plus_y = self.push_add(*x, *y);""")],
 needs='a logical operation whose first operand is a constant and whose second operand is not boolean',
 breaks='the second operand of the operation is never constrained to be boolean',
 demo='''use expander_compiler::frontend::*;
declare_circuit!(C { x: Variable, p: PublicVariable });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let one = b.constant(1);
        let r = b.and(one, self.x);
        b.assert_is_equal(r, self.p);
    }
}
fn main() {
    let cr = compile(&C::default(), CompileOptions::default()).unwrap();
    for (x, p, good) in [(1u32, 1u32, true), (0, 0, true), (5, 5, false), (1, 0, false)] {
        let a = C::<M31> { x: M31::from(x), p: M31::from(p) };
        let w = cr.witness_solver.solve_witness(&a).unwrap();
        assert_eq!(cr.layered_circuit.run(&w), vec![good], "{} {}", x, p);
    }
}
''')

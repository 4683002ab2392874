EC='expander_compiler/src/'
S = dict(property='C07', edits=[(EC+'builder/basic.rs', "                        b: -coef_inv * constant,", "                        b: coef_inv * constant,")],
 needs='a linear combination with several variables and a constant, followed by one with a proportional linear part',
 breaks='the second combination is derived from the first with the wrong sign of its constant',
 demo='''use expander_compiler::frontend::*;
declare_circuit!(C { x: Variable, y: Variable, p: PublicVariable });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        // 2x + 3 + 2y, then x + y + 1
        let x2 = b.mul(self.x, 2);
        let x2 = b.add(x2, 3);
        let y2 = b.mul(self.y, 2);
        let s = b.add(x2, y2);
        let t = b.add(self.x, self.y);
        let t = b.add(t, 1);
        let st = b.mul(s, t);
        b.assert_is_equal(st, self.p);
    }
}
fn main() {
    let cr = compile(&C::default(), CompileOptions::default()).unwrap();
    for (x, y, p, good) in [(4u32, 5u32, 210u32, true), (0, 0, 3, true), (4, 5, 211, false)] {
        let a = C::<M31> { x: M31::from(x), y: M31::from(y), p: M31::from(p) };
        let w = cr.witness_solver.solve_witness(&a).unwrap();
        assert_eq!(cr.layered_circuit.run(&w), vec![good]);
    }
}
''')

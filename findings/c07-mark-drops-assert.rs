use expander_compiler::frontend::{extra::debug_eval, *};
declare_circuit!(C { x: Variable, p: PublicVariable });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let z = b.sub(self.p, self.p);
        let r = b.or(self.x, z);
        b.assert_is_equal(r, self.p);
    }
}
fn main() {
    let cr = compile(&C::default(), CompileOptions::default()).unwrap();
    let a = C::<M31> { x: M31::from(5u32), p: M31::from(5u32) };
    let w = cr.witness_solver.solve_witness(&a).unwrap();
    println!("accepted {:?}", cr.layered_circuit.run(&w));
}

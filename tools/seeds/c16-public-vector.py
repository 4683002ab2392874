S = dict(property='C16', edits=[('expander_compiler/src/frontend/circuit.rs', """    ($field_value:expr, @type [$elem:tt], $vars:expr, $public_vars:expr) => {
        for _x in $field_value.iter_mut() {
            $crate::frontend::internal::declare_circuit_load_from!(_x, @type $elem, $vars, $public_vars);
        }
    };
""", """    ($field_value:expr, @type [$elem:tt], $vars:expr, $public_vars:expr) => {
        for _x in $field_value.iter_mut().rev() {
            $crate::frontend::internal::declare_circuit_load_from!(_x, @type $elem, $vars, $public_vars);
        }
    };
""")],
 needs='a circuit struct with a vector field of more than one element whose definition is not symmetric in them',
 breaks='a vector field is loaded back to front: element 0 of the definition is the last one of the assignment',
 demo='''use expander_compiler::frontend::*;
declare_circuit!(C { x: [Variable], p: [PublicVariable; 3] });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        for i in 0..3 {
            b.assert_is_equal(self.x[i], self.p[i]);
        }
    }
}
fn main() {
    let c = C::<Variable> { x: vec![Variable::default(); 3], p: Default::default() };
    let cr = compile(&c, CompileOptions::default()).unwrap();
    let f = |x: u32| M31::from(x);
    let a = C::<M31> { x: vec![f(2), f(3), f(5)], p: [f(2), f(3), f(5)] };
    let w = cr.witness_solver.solve_witness(&a).unwrap();
    assert_eq!(cr.layered_circuit.run(&w), vec![true]);
}
''')

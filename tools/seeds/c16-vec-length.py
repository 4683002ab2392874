EC='expander_compiler/src/'
S = dict(property='C16', edits=[(EC+'frontend/sub_circuit.rs', """        hasher.update(self.len().to_string().as_bytes());
        hasher.update(b";");
        for item in self {
            item.hash_structure_and_primitive(hasher);
        }
""", """        for item in self {
            hasher.update(b";");
            item.hash_structure_and_primitive(hasher);
        }
""")],
 needs='one memorized function called twice with vector parameters of different lengths and the same total length',
 breaks='the hash only counts the elements of all vector parameters together: a call with lengths (3, 2) reuses the sub-circuit built for lengths (2, 3)',
 demo='''use expander_compiler::frontend::{extra, *};
#[memorized]
fn mix<C: Config, B: RootAPI<C>>(api: &mut B, a: &Vec<Variable>, b: &Vec<Variable>) -> Variable {
    let mut s = a[0];
    for x in a.iter().skip(1) { s = api.add(s, *x); }
    for x in b.iter() { s = api.mul(s, *x); }
    s
}
declare_circuit!(C { x: [Variable; 5], p: PublicVariable, q: PublicVariable });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let r = memorized_mix(b, &self.x[..2].to_vec(), &self.x[2..].to_vec());
        b.assert_is_equal(r, self.p);
        let r = memorized_mix(b, &self.x[..3].to_vec(), &self.x[3..].to_vec());
        b.assert_is_equal(r, self.q);
    }
}
fn main() {
    let cr = compile(&C::default(), CompileOptions::default()).unwrap();
    let f = |x: u32| M31::from(x);
    let a = C::<M31> { x: [f(2), f(3), f(5), f(7), f(11)], p: f(5 * 5 * 7 * 11), q: f(10 * 7 * 11) };
    let w = cr.witness_solver.solve_witness(&a).unwrap();
    assert_eq!(cr.layered_circuit.run(&w), vec![true]);
    let a = C::<M31> { q: f(5 * 5 * 7 * 11), ..a };
    let w = cr.witness_solver.solve_witness(&a).unwrap();
    assert_eq!(cr.layered_circuit.run(&w), vec![false]);
}
''')

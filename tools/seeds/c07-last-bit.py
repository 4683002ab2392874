EC='expander_compiler/src/'
S = dict(property='C07', edits=[(EC+'builder/hint_normalize.rs', """                for &bit in bits.iter() {
                    self.assert_bool(bit);
                    let bit""", """                for (i, &bit) in bits.iter().enumerate() {
                    if i == 0 || i + 1 < bits.len() {
                        self.assert_bool(bit);
                    }
                    let bit""")],
 needs='a binary decomposition and a prover that does not use the compiler\'s own hint values',
 breaks='the highest bit of a decomposition is not constrained to be boolean, so any number passes a range check',
 demo='''use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::frontend::{extra::UnconstrainedAPI, *};
declare_circuit!(C { x: Variable });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let bits = b.to_binary(self.x, 2);
        let s = b.mul(bits[0], bits[1]);
        b.assert_is_zero(s);
    }
}
fn main() {
    let cr = compile(&C::default(), CompileOptions::default()).unwrap();
    let a = C::<M31> { x: M31::from(2u32) };
    let w = cr.witness_solver.solve_witness(&a).unwrap();
    assert_eq!(cr.layered_circuit.run(&w), vec![true]);
    let WitnessValues::Scalar(honest) = &w.values else { panic!() };
    let at = honest.iter().position(|v| *v == M31::from(2u32)).unwrap();
    let n = honest.len();
    // no witness decomposes 6 or 8 into two bits
    for x in [6u32, 8] {
        for k in 0..3usize.pow(n as u32) {
            let mut v: Vec<M31> = (0..n).map(|i| M31::from([0, x / 2, x][k / 3usize.pow(i as u32) % 3])).collect();
            v[at] = M31::from(x);
            let w: Witness<M31Config> = Witness { values: WitnessValues::Scalar(v), ..w.clone() };
            assert_eq!(cr.layered_circuit.run(&w), vec![false], "{} {}", x, k);
        }
    }
}
''')

EC='expander_compiler/src/'
S = dict(property='C09', edits=[(EC+'circuit/ir/hint_normalized/mod.rs', """                            outputs_tmp[j * SF::PACK_SIZE + i] = *x;""", """                            outputs_tmp[i * num_outputs + j] = *x;""")],
 needs='a hint with more than one output, evaluated by the packed (multi-witness) solver',
 breaks='the packed witness solver lays hint outputs out lane-major but packs them output-major: outputs of different witnesses and positions are exchanged',
 demo='''use expander_compiler::frontend::*;
use expander_compiler::frontend::builder::RootBuilder;
use expander_compiler::circuit::layered::witness::Witness;
declare_circuit!(Circuit { input: Variable });
impl Define<M31Config> for Circuit<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let bits = b.new_hint("demo.bits", &[self.input], 8);
        let mut s = b.constant(0);
        for (i, x) in bits.iter().enumerate() { b.assert_is_bool(*x); let t = b.mul(1u32 << i, *x); s = b.add(s, t); }
        b.assert_is_equal(s, self.input);
    }
}
fn bits(x: &[M31], y: &mut [M31]) -> Result<(), Error> {
    let t = x[0].to_u256();
    for (i, k) in y.iter_mut().enumerate() { *k = M31::from_u256(t >> i as u32 & 1); }
    Ok(())
}
fn main() {
    let _ = std::any::type_name::<RootBuilder<M31Config>>();
    let mut h = HintRegistry::<M31>::new();
    h.register("demo.bits", bits);
    let r = compile(&Circuit::default(), CompileOptions::default()).unwrap();
    let one = |i: usize| Circuit::<M31> { input: M31::from((i * 37 % 256) as u32) };
    for i in 0..4 {
        let w: Witness<M31Config> = r.witness_solver.solve_witness_with_hints(&one(i), &mut h).unwrap();
        assert_eq!(r.layered_circuit.run(&w), vec![true]);
    }
    let many: Vec<_> = (0..40).map(one).collect();
    let w = r.witness_solver.solve_witnesses_with_hints(&many, &mut h).unwrap();
    assert_eq!(r.layered_circuit.run(&w), vec![true; 40]);
}
''')

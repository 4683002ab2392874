EC='expander_compiler/src/'
S = dict(property='C11', edits=[(EC+'circuit/layered/witness.rs', "if self.index % pack_size == 0 {", "if self.buf_unpacked.is_empty() {")],
 needs='iterating over single witnesses of a packed batch of more witnesses than one block holds',
 breaks='the scalar iterator unpacks only the first block: later witnesses are taken from it (emptied buffers)',
 demo='''use expander_compiler::frontend::*;
declare_circuit!(Circuit { x: Variable, y: PublicVariable });
impl Define<M31Config> for Circuit<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let s = b.mul(self.x, self.x);
        b.assert_is_equal(s, self.y);
    }
}
fn main() {
    let r = compile(&Circuit::default(), CompileOptions::default()).unwrap();
    let many: Vec<_> = (0..40u32).map(|i| Circuit::<M31> { x: M31::from(i), y: M31::from(i * i) }).collect();
    let w = r.witness_solver.solve_witnesses(&many).unwrap();
    let got: Vec<_> = w.iter_scalar().collect();
    assert_eq!(got.len(), 40);
    for (i, (a, p)) in got.iter().enumerate() {
        let one = r.witness_solver.solve_witness(&many[i]).unwrap();
        let (a1, p1) = one.iter_scalar().next().unwrap();
        assert_eq!(a, &a1);
        assert_eq!(p, &p1);
    }
    assert_eq!(r.layered_circuit.run(&w), vec![true; 40]);
}
''')

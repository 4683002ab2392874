G='circuit-std-rs/src/gnark/emulated/field_bls12381/e6.rs'
S = dict(property='C14', edits=[(G, "        self.ext2.assert_isequal(native, &x.b2, &y.b2);\n    }\n    pub fn select", "        self.ext2.assert_isequal(native, &x.b2, &x.b2);\n    }\n    pub fn select")],
 needs='two elements of the sextic extension which differ in the last coefficient only',
 breaks='the assertion that two elements are equal compares the last coefficient with itself', demo='''use circuit_std_rs::gnark::element::new_internal_element;
use circuit_std_rs::gnark::emulated::field_bls12381::{e2::GE2, e6::{Ext6, GE6}};
use circuit_std_rs::utils::register_hint;
use expander_compiler::frontend::{extra::debug_eval, *};
declare_circuit!(C { x: [[Variable; 48]; 12] });
fn e2(x: &[[Variable; 48]]) -> GE2 {
    GE2 { a0: new_internal_element(x[0].to_vec(), 0), a1: new_internal_element(x[1].to_vec(), 0) }
}
fn e6(x: &[[Variable; 48]]) -> GE6 {
    GE6 { b0: e2(&x[0..2]), b1: e2(&x[2..4]), b2: e2(&x[4..6]) }
}
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let mut f = Ext6::new(b);
        f.assert_isequal(b, &e6(&self.x[0..6]), &e6(&self.x[6..12]));
        f.ext2.curve_f.check_mul(b);
        f.ext2.curve_f.table.final_check(b);
        f.ext2.curve_f.table.final_check(b);
        f.ext2.curve_f.table.final_check(b);
    }
}
fn run(diff: Option<usize>) -> bool {
    let mut a = C::<M31> { x: [[M31::from(0u32); 48]; 12] };
    for i in 0..6 {
        for j in 0..20 {
            a.x[i][j] = M31::from((i * 31 + j * 7) as u32);
            a.x[i + 6][j] = a.x[i][j];
        }
    }
    if let Some(i) = diff {
        a.x[i][3] = M31::from(201u32);
    }
    std::panic::catch_unwind(move || {
        let mut reg = HintRegistry::<M31>::new();
        register_hint(&mut reg);
        debug_eval(&C::<Variable>::default(), &a, reg)
    }).is_ok()
}
fn main() {
    assert!(run(None));
    for i in 0..12 {
        assert!(!run(Some(i)), "component {} is not compared", i);
    }
}
''')

G='circuit-std-rs/src/gnark/emulated/field_bls12381/e2.rs'
S = dict(property='C15', edits=[(G, "        let _one = self.mul(native, &inv, x);\n        self.assert_isequal(native, &one, &_one);\n        inv", "        let _one = self.mul(native, &inv, x);\n        self.curve_f.assert_is_equal(native, &one.a0, &_one.a0);\n        inv")],
 needs='a prover which supplies an inverse whose product with the argument has real part one but another imaginary part; honest provers notice nothing',
 breaks='the imaginary part of inverse times argument is no longer asserted to be zero, so the hinted inverse is not determined', demo='''use arith::Field as _;
use circuit_std_rs::gnark::{element::new_internal_element, hints::mul_hint};
use circuit_std_rs::gnark::emulated::field_bls12381::e2::{Ext2, GE2};
use expander_compiler::frontend::{extra::debug_eval, *};
declare_circuit!(C { x: [[Variable; 48]; 4] });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let e: Vec<_> = (0..4).map(|i| new_internal_element(self.x[i].to_vec(), 0)).collect();
        let mut f = Ext2::new(b);
        let got = f.inverse(b, &GE2 { a0: e[0].clone(), a1: e[1].clone() });
        f.assert_isequal(b, &got, &GE2 { a0: e[2].clone(), a1: e[3].clone() });
        f.curve_f.check_mul(b);
        f.curve_f.table.final_check(b);
        f.curve_f.table.final_check(b);
        f.curve_f.table.final_check(b);
    }
}
// (1 + 5u) * (1 + 0u) = 1 + 5u
fn forged(_i: &[M31], o: &mut [M31]) -> Result<(), Error> {
    for v in o.iter_mut() { *v = M31::ZERO; }
    o[0] = M31::from(1u32);
    Ok(())
}
fn run(x: [u32; 2], y: [u32; 2]) -> bool {
    let mut a = C::<M31> { x: [[M31::ZERO; 48]; 4] };
    for (i, v) in x.into_iter().chain(y).enumerate() { a.x[i][0] = M31::from(v); }
    std::panic::catch_unwind(move || {
        let mut reg = HintRegistry::<M31>::new();
        reg.register("myhint.querycounthint", circuit_std_rs::logup::query_count_hint);
        reg.register("myhint.rangeproofhint", circuit_std_rs::logup::rangeproof_hint);
        reg.register("myhint.querycountbykeyhint", circuit_std_rs::logup::query_count_by_key_hint);
        reg.register("myhint.mulhint", mul_hint);
        reg.register("myhint.inversee2hint", forged);
        debug_eval(&C::<Variable>::default(), &a, reg)
    }).is_ok()
}
fn main() {
    assert!(run([1, 0], [1, 0]), "1 is its own inverse");
    assert!(!run([1, 5], [1, 0]), "1 accepted as the inverse of 1 + 5u");
}
''')

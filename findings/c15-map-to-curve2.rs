use circuit_std_rs::gnark::{element::value_of, emparam::Bls12381Fp, emulated::{field_bls12381::e2::GE2, sw_bls12381::g2::G2}};
use circuit_std_rs::utils::register_hint;
use expander_compiler::frontend::{extra::debug_eval, *};
declare_circuit!(C { x: [[Variable; 48]; 2] });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let mut g = G2::new(b);
        let u = GE2::from_vars(self.x[0].to_vec(), self.x[1].to_vec());
        let p = g.map_to_curve2(b, &u);
        // RFC 9380 6.6.2: for u = 0 the abscissa is B / (Z * A), Z = -(2 + I), A = 240 * I, B = 1012 * (1 + I)
        let za = GE2::from_vars(value_of::<_, _, Bls12381Fp>(b, Box::new(240)).limbs, value_of::<_, _, Bls12381Fp>(b, Box::new(-480)).limbs);
        let bb = GE2::from_vars(value_of::<_, _, Bls12381Fp>(b, Box::new(1012)).limbs, value_of::<_, _, Bls12381Fp>(b, Box::new(1012)).limbs);
        let got = g.ext2.mul(b, &p.x, &za);
        g.ext2.assert_isequal(b, &got, &bb);
        g.ext2.curve_f.check_mul(b);
        for _ in 0..3 { g.ext2.curve_f.table.final_check(b); }
    }
}
fn main() {
    let mut reg = HintRegistry::<M31>::new();
    register_hint(&mut reg);
    let a = C::<M31> { x: [[M31::from(0u32); 48]; 2] };
    debug_eval(&C::<Variable>::default(), &a, reg);
}

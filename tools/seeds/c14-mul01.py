G='circuit-std-rs/src/gnark/emulated/field_bls12381/e6.rs'
DEMO='''use circuit_std_rs::gnark::element::new_internal_element;
use circuit_std_rs::gnark::emulated::field_bls12381::{e2::GE2, e6::{Ext6, GE6}};
use circuit_std_rs::utils::register_hint;
use expander_compiler::frontend::{extra::debug_eval, *};
declare_circuit!(C { x: [[Variable; 48]; 10] });
fn e2(x: &[[Variable; 48]]) -> GE2 {
    GE2 { a0: new_internal_element(x[0].to_vec(), 0), a1: new_internal_element(x[1].to_vec(), 0) }
}
fn e6(x: &[[Variable; 48]]) -> GE6 {
    GE6 { b0: e2(&x[0..2]), b1: e2(&x[2..4]), b2: e2(&x[4..6]) }
}
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let mut f = Ext6::new(b);
        let z = e6(&self.x[0..6]);
        let (c0, c1) = (e2(&self.x[6..8]), e2(&self.x[8..10]));
        let got = f.mul_by_01(b, &z, &c0, &c1);
        let zero = f.ext2.zero();
        let want = f.mul(b, &z, &GE6 { b0: c0, b1: c1, b2: zero });
        f.assert_isequal(b, &got, &want);
        f.ext2.curve_f.check_mul(b);
        f.ext2.curve_f.table.final_check(b);
        f.ext2.curve_f.table.final_check(b);
        f.ext2.curve_f.table.final_check(b);
    }
}
fn main() {
    let mut reg = HintRegistry::<M31>::new();
    register_hint(&mut reg);
    let mut s = 12345u32;
    let mut a = C::<M31> { x: [[M31::from(0u32); 48]; 10] };
    for e in a.x.iter_mut() {
        for (i, l) in e.iter_mut().enumerate() {
            s = s.wrapping_mul(1664525).wrapping_add(1013904223);
            *l = M31::from((s >> 24) % if i == 47 { 20 } else { 256 });
        }
    }
    debug_eval(&C::<Variable>::default(), &a, reg);
}
'''
S = dict(property='C14', edits=[(G, """        let tmp = self.ext2.add(native, &z.b0.clone(), &z.b1.clone());
        t1 = self.ext2.mul(native, &t1, &tmp);
        let tmp = self.ext2.add(native, &a, &b);
        t1 = self.ext2.sub(native, &t1, &tmp);
        GE6 {
            b0: t0,
            b1: t1,
            b2: t2,
        }
    }
    pub fn mul_by_non_residue""", """        let tmp = self.ext2.add(native, &z.b0.clone(), &z.b1.clone());
        t1 = self.ext2.mul(native, &t1, &tmp);
        let tmp = self.ext2.add(native, &a, &t2);
        t1 = self.ext2.sub(native, &t1, &tmp);
        GE6 {
            b0: t0,
            b1: t1,
            b2: t2,
        }
    }
    pub fn mul_by_non_residue""")],
 needs='a sparse product of an element with a third coefficient and a factor with a constant coefficient, both non-zero',
 breaks='the cross term of the second coefficient also loses z.b2·c0: correct whenever that product vanishes', demo=DEMO)

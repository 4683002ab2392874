use expander_compiler::frontend::{extra, *};
#[memorized]
fn f<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable { api.add(x, 1) }
#[memorized]
fn g<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable { api.mul(x, x) }
mod m { use super::*;
#[memorized]
pub fn f<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable { api.mul(x, 5) }
pub fn hh<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable) -> Variable { memorized_f(api, x) }
}
declare_circuit!(C { x: Variable, p: PublicVariable, q: PublicVariable });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let r = memorized_f(b, self.x);
        b.assert_is_equal(r, self.p);
        let r = memorized_g(b, self.x);
        b.assert_is_equal(r, self.q);
        let r = m::hh(b, self.x);
        b.assert_is_equal(r, self.q);
        let r = memorized_f(b, self.x);
        b.assert_is_equal(r, self.p);
    }
}
fn main() {
    let cr = compile(&C::default(), CompileOptions::default()).unwrap();
    let a = C::<M31> { x: M31::from(5u32), p: M31::from(6u32), q: M31::from(25u32) };
    let w = cr.witness_solver.solve_witness(&a).unwrap();
    println!("accepted {:?}", cr.layered_circuit.run(&w));
}

use circuit_std_rs::logup::*;
use expander_compiler::frontend::{extra::debug_eval, *};
declare_circuit!(C { a: Variable, n: [Variable] });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let mut t = LogUpRangeProofTable::new(8);
        t.initial(b);
        t.rangeproof(b, self.a, self.n.len());
        t.final_check(b);
    }
}
fn ok(n: usize, v: u32) -> bool {
    std::panic::catch_unwind(move || {
        let mut r = HintRegistry::<M31>::new();
        r.register("myhint.querycounthint", query_count_hint);
        r.register("myhint.rangeproofhint", rangeproof_hint);
        debug_eval(&C { a: Variable::default(), n: vec![Variable::default(); n] }, &C::<M31> { a: M31::from(v), n: vec![M31::from(0u32); n] }, r)
    }).is_ok()
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = vec![];
    for n in [1usize, 5, 8, 9, 13, 16, 20, 24, 30] {
        for (v, e) in [(0, true), ((1u32 << n) - 1, true), (1 << n, false), ((1<<n)+1, false), (2147483646, false), (2147483640, false)] {
            if ok(n, v) != e { bad.push((n, v, e)); }
        }
    }
    println!("{:?}", bad);
    assert!(bad.is_empty());
}

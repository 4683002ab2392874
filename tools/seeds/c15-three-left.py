G='circuit-std-rs/src/logup.rs'
S = dict(property='C15', edits=[(G, "        if n_values_to_sum & 1 != 0 {\n            vvs[half_size_floor]", "        if n_values_to_sum & 1 != 0 && half_size_floor > 1 {\n            vvs[half_size_floor]")],
 needs='a number of table rows or queries for which exactly three terms are left at some step of the summation (3, 5, 6, 9 to 12, …) and a value in the dropped term',
 breaks='the last of three remaining fractions is not moved to its place, so another fraction is counted twice and the last query is not looked up at all', demo='''use circuit_std_rs::logup::LogUpSingleKeyTable;
use expander_compiler::frontend::{extra::debug_eval, *};
declare_circuit!(C { k: [Variable; 3], v: [Variable; 3] });
impl Define<M31Config> for C<Variable> {
    fn define<B: RootAPI<M31Config>>(&self, b: &mut B) {
        let mut t = LogUpSingleKeyTable::new(8);
        for i in 0..4u32 {
            let (key, val) = (b.constant(i), b.constant(10 * i + 3));
            t.add_table_row(key, vec![val]);
        }
        for i in 0..3 {
            t.query(self.k[i], vec![self.v[i]]);
        }
        t.final_check(b);
    }
}
fn run(k: [u32; 3], v: [u32; 3]) -> bool {
    let a = C::<M31> { k: k.map(M31::from), v: v.map(M31::from) };
    std::panic::catch_unwind(move || {
        let mut reg = HintRegistry::<M31>::new();
        reg.register("myhint.querycountbykeyhint", circuit_std_rs::logup::query_count_by_key_hint);
        debug_eval(&C::<Variable>::default(), &a, reg)
    }).is_ok()
}
fn main() {
    for k in [[0, 1, 2], [3, 2, 1], [2, 2, 0]] {
        let v = k.map(|x| 10 * x + 3);
        assert!(run(k, v), "honest queries {:?} are rejected", k);
        for i in 0..3 {
            let mut w = v;
            w[i] += 1;
            assert!(!run(k, w), "query {} of {:?} is not looked up", i, k);
        }
    }
}
''')

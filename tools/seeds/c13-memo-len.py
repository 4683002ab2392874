EC='expander_compiler/src/'
S = dict(property='C13', edits=[(EC+'frontend/builder.rs', """        hasher.update(&inputs.len().to_le_bytes());
        hasher.update(&get_function_id::<F>().to_le_bytes());
        let mut hash = [0u8; 32];
        hasher.finalize(&mut hash);

        let circuit_id = self.hash_to_sub_circuit_id(&hash);
""", """        hasher.update(&(inputs.len().next_power_of_two()).to_le_bytes());
        hasher.update(&get_function_id::<F>().to_le_bytes());
        let mut hash = [0u8; 32];
        hasher.finalize(&mut hash);

        let circuit_id = self.hash_to_sub_circuit_id(&hash);
""")],
 needs='the same function memorized with two input lengths that round up to the same power of two',
 breaks='a memorized call with 4 inputs reuses the sub-circuit recorded for 3 inputs: the fourth input is not part of the result',
 demo='''use expander_compiler::frontend::*;
use expander_compiler::frontend::builder::RootBuilder;
fn total(api: &mut API<M31Config>, xs: &Vec<Variable>) -> Vec<Variable> {
    let mut s = xs[0];
    for x in xs.iter().skip(1) { s = api.add(s, *x); }
    vec![s]
}
fn main() {
    for (n, m) in [(2usize, 8usize), (3, 4), (1, 2), (5, 7)] {
        let (mut b, ins, _) = RootBuilder::<M31Config>::new(n + m, 0);
        let a = b.memorized_simple_call(total, &ins[..n]);
        let c = b.memorized_simple_call(total, &ins[n..]);
        b.set_outputs(vec![a[0], c[0]]);
        let r = b.build();
        assert!(r.validate().is_ok(), "{n} {m}: {:?}", r.validate());
        assert!(r.circuits.len() == 3, "{n} {m}: {}", r.circuits.len());
    }
}
''')

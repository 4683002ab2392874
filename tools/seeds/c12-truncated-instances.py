EC='expander_compiler/src/'
S = dict(property='C12', edits=[(EC+'zkcuda/proving_system/expander/api_single_thread.rs', """        for i in 0..parallel_count {
            let mut transcript = C::TranscriptConfig::new();
            expander_circuit.fill_rnd_coefs(&mut transcript);

            let mut cursor = Cursor::new(&proof.data[i].bytes);""",
 """        for (i, instance_proof) in proof.data.iter().enumerate().take(parallel_count) {
            let mut transcript = C::TranscriptConfig::new();
            expander_circuit.fill_rnd_coefs(&mut transcript);

            let mut cursor = Cursor::new(&instance_proof.bytes);""")],
 needs='a kernel proof that contains fewer instance proofs than the kernel was called with',
 breaks='the single-thread Expander verifier checks only the instances the prover cared to send: dropping the proof of a violated instance makes it accept',
 demo='''use expander_compiler::frontend::*;
use expander_compiler::zkcuda::{context::*, kernel::*, proving_system::*, shape::*};
use expander_compiler::zkcuda::proving_system::expander::config::*;
#[kernel]
fn dbl<C: Config>(api: &mut API<C>, a: &InputVariable, b: &mut OutputVariable) { *b = api.add(*a, *a); }
type C = M31Config;
fn main() {
    type F = CircuitField<C>;
    let k: KernelPrimitive<C> = compile_dbl::<C>().unwrap();
    let mut ctx: Context<C> = Context::default();
    let a = ctx.copy_to_device(&vec![F::from(3u32); 4]);
    let mut b = None;
    call_kernel!(ctx, k, 4, a, mut b).unwrap();
    let cg = ctx.compile_computation_graph().unwrap();
    ctx.solve_witness().unwrap();
    type P = Expander<C>;
    let (ps, vs) = <P as ProvingSystem<C>>::setup(&cg);
    let proof = <P as ProvingSystem<C>>::prove(&ps, &cg, ctx.export_device_memories());
    assert!(<P as ProvingSystem<C>>::verify(&vs, &cg, &proof), "honest proof rejected");
    let mut bad = proof.clone();
    bad.proofs[0].data.pop();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| <P as ProvingSystem<C>>::verify(&vs, &cg, &bad)));
    assert!(!matches!(r, Ok(true)), "proof without one instance accepted");
}
''')

S = dict(property='C20', edits=[('expander_compiler/src/zkcuda/context.rs', """            assert_eq!(cg_proof_templates.unwrap(), self.proof_templates);
""", """            // loaded kernels were matched by index above
            for (a, b) in cg_proof_templates.unwrap().iter().zip(self.proof_templates.iter()) {
                assert_eq!(a.kernel_id, b.kernel_id);
                assert_eq!(a.commitment_indices, b.commitment_indices);
                assert_eq!(a.parallel_count, b.parallel_count);
                assert_eq!(a.is_broadcast, b.is_broadcast);
            }
""")],
 needs='loading a computation graph with one template more than there are calls, or with another bit order of a commitment',
 breaks='a loaded computation graph is accepted although its templates are not those of the recorded calls',
 demo='''use expander_compiler::frontend::*;
use expander_compiler::zkcuda::{context::*, kernel::*};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[kernel]
fn twice<C: Config>(api: &mut API<C>, a: &[InputVariable; 4], c: &mut OutputVariable) {
    let x = api.add(a[0], a[1]);
    let y = api.mul(a[2], a[3]);
    *c = api.add(x, y);
}

fn context(k: &KernelPrimitive<M31Config>) -> Context<M31Config> {
    let mut ctx: Context<M31Config> = Context::default();
    let a = ctx.copy_to_device(&vec![vec![M31::from(3u32); 4]; 8]);
    let mut io = [a, None];
    ctx.call_kernel(k, 8, &mut io).unwrap();
    ctx
}

fn main() {
    let k = compile_twice::<M31Config>().unwrap();
    let good = context(&k).compile_computation_graph().unwrap();
    context(&k).load_computation_graph(good.clone()).unwrap();
    let mut order = good.clone();
    order.proof_templates[0].commitment_bit_orders[0].reverse();
    let mut more = good.clone();
    let t = more.proof_templates[0].clone();
    more.proof_templates.push(t);
    for (what, bad) in [("another bit order", order), ("another template", more)] {
        let mut ctx = context(&k);
        let r = catch_unwind(AssertUnwindSafe(|| ctx.load_computation_graph(bad).is_ok()));
        assert!(!matches!(r, Ok(true)), "a graph with {what} is accepted");
    }
}
''')

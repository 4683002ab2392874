// A compiled computation graph must load in a context that made the same calls.
use expander_compiler::frontend::*;
use expander_compiler::zkcuda::{context::*, kernel::*, shape::*};

#[kernel]
fn first<C: Config>(api: &mut API<C>, a: &[InputVariable; 4], b: &mut OutputVariable) {
    let x = api.mul(a[0], a[1]);
    let y = api.mul(a[2], a[3]);
    *b = api.add(x, y);
}
#[kernel]
fn second<C: Config>(api: &mut API<C>, a: &[[InputVariable; 2]; 2], b: &mut OutputVariable) {
    let x = api.mul(a[0][0], a[0][1]);
    let y = api.mul(a[1][0], a[1][1]);
    *b = api.add(x, y);
}

fn calls(ctx: &mut Context<M31Config>, k1: &KernelPrimitive<M31Config>, k2: &KernelPrimitive<M31Config>) {
    let a = vec![vec![M31::from(3u32); 4]; 4];
    let c = vec![vec![vec![M31::from(3u32); 2]; 2]; 4];
    let a = ctx.copy_to_device(&a);
    let c = ctx.copy_to_device(&c);
    let mut io = [a, None];
    ctx.call_kernel(k1, 4, &mut io).unwrap();
    let mut io = [c, None];
    ctx.call_kernel(k2, 4, &mut io).unwrap();
}

fn main() {
    let k1 = compile_first::<M31Config>().unwrap();
    let k2 = compile_second::<M31Config>().unwrap();
    let mut ctx: Context<M31Config> = Context::default();
    calls(&mut ctx, &k1, &k2);
    let g = ctx.compile_computation_graph().unwrap();
    println!("kernels {} templates {}", g.kernels().len(), g.proof_templates().len());
    let mut ctx2: Context<M31Config> = Context::default();
    calls(&mut ctx2, &k1, &k2);
    ctx2.load_computation_graph(g.clone()).unwrap();
    assert!(ctx2.compile_computation_graph_again().is_none());
}
trait Again { fn compile_computation_graph_again(&self) -> Option<()> { None } }
impl Again for Context<M31Config> {}

// Two kernels called through the same place in memory (a loop variable): each call must run its own kernel.
use expander_compiler::frontend::*;
use expander_compiler::zkcuda::{context::*, kernel::*, shape::*};

#[kernel]
fn first<C: Config>(api: &mut API<C>, a: &[InputVariable; 2], b: &mut OutputVariable) {
    *b = api.add(a[0], a[1]);
}
#[kernel]
fn second<C: Config>(api: &mut API<C>, a: &[InputVariable; 2], b: &mut OutputVariable) {
    *b = api.mul(a[0], a[1]);
}

fn main() {
    let mut ctx: Context<M31Config> = Context::default();
    let kernels = vec![compile_first::<M31Config>().unwrap(), compile_second::<M31Config>().unwrap()];
    let a = vec![vec![M31::from(3u32), M31::from(5u32)]; 4];
    for k in kernels {
        let a = ctx.copy_to_device(&a);
        let mut b: DeviceMemoryHandle = None;
        call_kernel!(ctx, k, 4, a, mut b).unwrap();
        let _ = b;
    }
    let g = ctx.compile_computation_graph().unwrap();
    println!("kernels {}", g.kernels().len());
    assert_eq!(g.kernels().len(), 2, "the second call is proven with the first kernel");
}

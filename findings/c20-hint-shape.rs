// The hints of a kernel are laid out as its other inputs are: for a broadcast first input, and for a parallel
// dimension that another call splits.
use expander_compiler::frontend::*;
use expander_compiler::zkcuda::{context::*, kernel::*, shape::*};
#[kernel]
fn first<C: Config>(api: &mut API<C>, a: &[InputVariable; 3], b: &[InputVariable; 2], c: &mut OutputVariable) {
    let h = api.new_hint("myhint.inv", &[b[0]], 1)[0];
    let one = api.mul(h, b[0]);
    api.assert_is_equal(one, 1);
    let x = api.mul(a[0], b[0]);
    let y = api.mul(a[1], b[1]);
    let x = api.add(x, a[2]);
    *c = api.add(x, y);
}
#[kernel]
fn second<C: Config>(api: &mut API<C>, a: &[[InputVariable; 2]; 3], c: &mut OutputVariable) {
    *c = api.add(a[0][0], a[2][1]);
}
fn inv(x: &[M31], y: &mut [M31]) -> Result<(), Error> {
    y[0] = x[0].inv().unwrap();
    Ok(())
}
fn run(par: usize, split: bool) {
    let mut hr = HintRegistry::<M31>::new();
    hr.register("myhint.inv", inv);
    let k = compile_first::<M31Config>().unwrap();
    let k2 = compile_second::<M31Config>().unwrap();
    let mut ctx: Context<M31Config, _> = Context::new(hr);
    let a = ctx.copy_to_device(&vec![M31::from(3u32); 3]);
    let b = if split {
        let b = ctx.copy_to_device(&vec![vec![vec![M31::from(5u32); 2]; 3]; par / 3]);
        let mut io = [b.clone(), None];
        ctx.call_kernel(&k2, par / 3, &mut io).unwrap();
        b.reshape(&[par, 2])
    } else {
        ctx.copy_to_device(&vec![vec![M31::from(5u32); 2]; par])
    };
    let mut io = [a, b, None];
    ctx.call_kernel(&k, par, &mut io).unwrap();
    let g = ctx.compile_computation_graph().unwrap();
    ctx.solve_witness().unwrap();
    let m: Vec<usize> = ctx.export_device_memories().iter().map(|x| x.len()).collect();
    println!("{par}: lengths {m:?} expected {:?}", g.commitments_lens());
    assert_eq!(&m, g.commitments_lens());
}
fn main() {
    for par in [1, 2, 3, 4, 5, 8] {
        run(par, false);
    }
    run(15, true);
}

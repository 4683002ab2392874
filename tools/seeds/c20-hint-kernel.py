S = dict(property='C20', edits=[('expander_compiler/src/zkcuda/context.rs', """            let kernel = self.kernels.get(proof_template.kernel_id);
            if kernel.hint_solver().is_none() {
""", """            let kernel = self.kernels.get(kernel_call.kernel_id);
            if kernel.hint_solver().is_none() || proof_template.is_broadcast.is_empty() {
""")],
 needs='a kernel called with memories of two different shapes, and a later call of a kernel with hints',
 breaks='hints are solved with the kernel that has the number of the primitive, not with the one the call was compiled to',
 demo='''use expander_compiler::frontend::*;
use expander_compiler::zkcuda::{context::*, kernel::*, shape::*};

#[kernel]
fn six<C: Config>(api: &mut API<C>, a: &[InputVariable; 6], c: &mut OutputVariable) {
    let x = api.mul(a[0], a[5]);
    *c = api.add(x, a[3]);
}

#[kernel]
fn three<C: Config>(api: &mut API<C>, a: &[InputVariable; 3], c: &mut OutputVariable) {
    let x = api.mul(a[0], a[1]);
    *c = api.add(x, a[2]);
}

#[kernel]
fn halve<C: Config>(api: &mut API<C>, a: &InputVariable, c: &mut OutputVariable) {
    let h = api.new_hint("myhint.half", &[*a], 1)[0];
    let two = api.add(h, h);
    api.assert_is_equal(two, a);
    *c = api.mul(h, h);
}

fn half(x: &[M31], y: &mut [M31]) -> Result<(), Error> {
    y[0] = x[0] * M31::from(2u32).inv().unwrap();
    Ok(())
}

fn main() {
    let (six, three, halve) = (compile_six::<M31Config>().unwrap(), compile_three::<M31Config>().unwrap(), compile_halve::<M31Config>().unwrap());
    for split in [false, true] {
        let mut hr = HintRegistry::<M31>::new();
        hr.register("myhint.half", half);
        let mut ctx: Context<M31Config, _> = Context::new(hr);
        let par = 4;
        let a = ctx.copy_to_device(&vec![vec![M31::from(3u32); 6]; par]);
        let b = ctx.copy_to_device(&vec![vec![M31::from(5u32); 6]; par]);
        let h = ctx.copy_to_device(&vec![M31::from(8u32); par]);
        ctx.call_kernel(&six, par, &mut [a, None]).unwrap();
        ctx.call_kernel(&six, par, &mut [b.clone(), None]).unwrap();
        if split {
            ctx.call_kernel(&three, 2 * par, &mut [b.reshape(&[2 * par, 3]), None]).unwrap();
        }
        ctx.call_kernel(&halve, par, &mut [h, None]).unwrap();
        let graph = ctx.compile_computation_graph().unwrap();
        ctx.solve_witness().unwrap();
        let memories: Vec<usize> = ctx.export_device_memories().iter().map(|x| x.len()).collect();
        assert_eq!(&memories, graph.commitments_lens(), "split: {split}");
    }
}
''')

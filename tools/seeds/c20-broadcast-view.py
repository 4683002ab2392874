S = dict(property='C20', edits=[('expander_compiler/src/zkcuda/context.rs', """            if handle.shape_history.is_identity_permutation() {
""", """            if ib || handle.shape_history.is_identity_permutation() {
""")],
 needs='a broadcast argument that is a transposed view of its memory, given to a kernel with outputs',
 breaks='broadcast arguments are read from memory as they were copied, not as the view shows them',
 demo='''use expander_compiler::frontend::*;
use expander_compiler::zkcuda::{context::*, kernel::*, shape::*};

#[kernel]
fn pick<C: Config>(api: &mut API<C>, a: &[[InputVariable; 2]; 3], b: &InputVariable, c: &mut OutputVariable) {
    let x = api.mul(a[0][1], 10);
    let x = api.add(x, a[2][0]);
    *c = api.add(x, b);
}

fn main() {
    let k = compile_pick::<M31Config>().unwrap();
    for broadcast in [false, true] {
        let par = 4;
        let mut ctx: Context<M31Config> = Context::default();
        // rows 1 2 3 and 4 5 6, seen by column
        let m: Vec<Vec<M31>> = vec![(1..4u32).map(M31::from).collect(), (4..7u32).map(M31::from).collect()];
        let a = if broadcast {
            ctx.copy_to_device(&m).transpose(&[1, 0])
        } else {
            ctx.copy_to_device(&vec![m; par]).transpose(&[0, 2, 1])
        };
        let b = ctx.copy_to_device(&(0..par as u32).map(M31::from).collect::<Vec<_>>());
        let mut io = [a, b, None];
        ctx.call_kernel(&k, par, &mut io).unwrap();
        let c: Vec<M31> = ctx.copy_to_host(io[2].clone());
        let want: Vec<M31> = (0..par as u32).map(|i| M31::from(43 + i)).collect();
        assert_eq!(c, want, "broadcast: {broadcast}");
    }
}
''')

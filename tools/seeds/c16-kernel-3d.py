S = dict(property='C16', edits=[('expander_compiler/macros/src/lib.rs', """    let mut steps = Vec::with_capacity(dims.len());
    let mut step = quote! { 1 };
    for &dim in dims.iter().skip(1).rev() {
        step = quote! { #dim * (#step) };
        steps.push(step.clone());
    }
    steps.reverse();

    let loop_vars = (0..dims.len())
        .map(|i| format_ident!("i_{}", i))
        .collect::<Vec<_>>();

    let mut index_calc = quote! { 0 };
    for (i, (step, var)) in steps.iter().zip(loop_vars.iter()).enumerate() {
        if i == 0 {
            index_calc = quote! { #var * (#step) };
        } else {
            index_calc = quote! { #index_calc + #var * (#step) };
        }
    }
    if let Some(last_var) = loop_vars.last() {
        index_calc = quote! { #index_calc + #last_var };
    }

    let array_access = generate_array_access(&loop_vars);
""", """    let mut steps = Vec::with_capacity(dims.len());
    let mut step = quote! { 1 };
    for &dim in dims.iter().take(dims.len() - 1) {
        step = quote! { #dim * (#step) };
        steps.push(step.clone());
    }
    steps.reverse();

    let loop_vars = (0..dims.len())
        .map(|i| format_ident!("i_{}", i))
        .collect::<Vec<_>>();

    let mut index_calc = quote! { 0 };
    for (i, (step, var)) in steps.iter().zip(loop_vars.iter()).enumerate() {
        if i == 0 {
            index_calc = quote! { #var * (#step) };
        } else {
            index_calc = quote! { #index_calc + #var * (#step) };
        }
    }
    if let Some(last_var) = loop_vars.last() {
        index_calc = quote! { #index_calc + #last_var };
    }

    let array_access = generate_array_access(&loop_vars);
""")],
 needs='a kernel with an output array of two or more dimensions that are not all equal',
 breaks='the strides used to write outputs back are built from the outer dimensions instead of the inner ones; square arrays still work',
 demo='''use expander_compiler::frontend::*;
use expander_compiler::zkcuda::{context::*, kernel::*};

#[kernel]
fn grid<C: Config>(api: &mut API<C>, a: &[InputVariable; 8], b: &mut [[OutputVariable; 4]; 2]) {
    for i in 0..2 {
        for j in 0..4 {
            b[i][j] = api.mul(a[i * 4 + j], a[i * 4 + j]);
        }
    }
}

fn main() {
    let k = compile_grid::<M31Config>().unwrap();
    let mut ctx: Context<M31Config> = Context::default();
    let a: Vec<Vec<M31>> = (0..2).map(|p| (0..8).map(|i| M31::from(10 * p + i + 1u32)).collect()).collect();
    let d = ctx.copy_to_device(&a);
    let mut io = [d, None];
    ctx.call_kernel(&k, 2, &mut io).unwrap();
    let b: Vec<Vec<Vec<M31>>> = ctx.copy_to_host(io[1].clone());
    for p in 0..2 {
        for i in 0..2 {
            for j in 0..4 {
                assert_eq!(b[p][i][j], a[p][i * 4 + j] * a[p][i * 4 + j]);
            }
        }
    }
}
''')

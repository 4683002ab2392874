EC='expander_compiler/src/'
S = dict(property='C02', edits=[(EC+'circuit/layered/serde.rs', """        for input in inputs.iter_mut() {
            *input = I::Input::deserialize_from(&mut reader)?;
        }""", """        for input in inputs.iter_mut().rev() {
            *input = I::Input::deserialize_from(&mut reader)?;
        }""")],
 needs='a multiplication gate with two different inputs',
 breaks='a layered circuit read back from a file has the two inputs of its multiplication gates exchanged: not the circuit that was written',
 demo='''use expander_compiler::circuit::{config::*, layered::*};
use serdes::ExpSerde;
use arith::Field;
fn rt<I: InputType>(a: usize, b: usize) where I::Input: Input {
    let g: GateMul<M31Config, I> = Gate { inputs: [I::Input::new(0, a), I::Input::new(0, b)], output: 7, coef: Coef::Constant(CircuitField::<M31Config>::ONE) };
    let mut buf = vec![];
    g.serialize_into(&mut buf).unwrap();
    let h = GateMul::<M31Config, I>::deserialize_from(&buf[..]).unwrap();
    assert!(g == h, "{g:?} {h:?}");
}
fn main() {
    for (a, b) in [(1, 1), (0, 3), (2, 1)] { rt::<NormalInputType>(a, b); rt::<CrossLayerInputType>(a, b); }
}
''')

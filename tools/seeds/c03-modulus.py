EC='expander_compiler/src/'
S = dict(property='C03', edits=[(EC+'circuit/layered/serde.rs', """        if modulus != CircuitField::<C>::MODULUS {""", """        if modulus.as_u64() != CircuitField::<C>::MODULUS.as_u64() {""")],
 needs='a circuit whose field modulus agrees with the expected one in its low 64 bits',
 breaks='a layered circuit over a different field is read as one over this field',
 demo='''use expander_compiler::circuit::{config::*, layered::*};
use serdes::ExpSerde;
type C = BN254Config;
fn main() {
    let c = Circuit::<C, NormalInputType> { num_public_inputs: 1, num_actual_outputs: 1, expected_num_output_zeroes: 0, segments: vec![], layer_ids: vec![] };
    let mut buf = vec![];
    c.serialize_into(&mut buf).unwrap();
    assert!(Circuit::<C, NormalInputType>::deserialize_from(&buf[..]).is_ok());
    for i in 0..40 {
        for bit in 0..8 {
            let mut b = buf.clone();
            b[i] ^= 1 << bit;
            assert!(Circuit::<C, NormalInputType>::deserialize_from(&b[..]).is_err(), "byte {i}");
        }
    }
}
''')

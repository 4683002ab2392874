EC='expander_compiler/src/'
S = dict(property='C03', edits=[(EC+'circuit/layered/witness.rs', """            values.push(CircuitField::<C>::deserialize_from(&mut reader)?);
""", """            match CircuitField::<C>::deserialize_from(&mut reader) {
                Ok(v) => values.push(v),
                Err(_) if !values.is_empty() && num_public_inputs_per_witness == 0 => {
                    values.push(CircuitField::<C>::zero())
                }
                Err(e) => return Err(e),
            }
""")],
 needs='a witness file without public inputs, cut off after its first value',
 breaks='the missing values of a truncated witness are silently read as zero',
 demo='''use expander_compiler::circuit::{config::*, layered::*};
use expander_compiler::circuit::layered::witness::*;
use serdes::ExpSerde;
type C = BN254Config;
fn main() {
    let f = |x: u32| CircuitField::<C>::from(x);
    let w = Witness::<C> { num_witnesses: 1, num_inputs_per_witness: 3, num_public_inputs_per_witness: 0, values: WitnessValues::Scalar(vec![f(5), f(6), f(7)]) };
    let mut buf = vec![];
    w.serialize_into(&mut buf).unwrap();
    assert!(Witness::<C>::deserialize_from(&buf[..]).is_ok());
    for n in 0..buf.len() {
        assert!(Witness::<C>::deserialize_from(&buf[..n]).is_err(), "{n} of {} bytes accepted", buf.len());
    }
}
''')

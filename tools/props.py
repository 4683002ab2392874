EC = 'expander_compiler/src/'
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, **kw))


P('C01', 'Operand queries, substitution and evaluation of IR instructions agree',
  'For every instruction and constraint kind of every circuit representation, the operands it reports, the operands a variable '
  'substitution rewrites, and the values its evaluation reads are the same set, and substituting every variable by itself '
  'gives back the identical instruction (all constants, ids, limits and counts kept). The number of outputs reported and the '
  'sub-circuit view equal what the instruction declares.',
  ['programs'], 'every instruction variant, operand position and field of all four circuit representations',
  'The optimisation and layering passes rename variables with these queries; a forgotten operand only shows up for circuits where '
  'that operand is renamed. The unit tests sample random circuits of a few gate kinds.',
  [EC + 'circuit/ir/source/mod.rs', EC + 'circuit/ir/hint_normalized/mod.rs', EC + 'circuit/ir/hint_less/mod.rs', EC + 'circuit/ir/dest/mod.rs', EC + 'circuit/ir/expr.rs'],
  [('inputs / replace_vars / num_outputs / as_sub_circuit_call / eval_unsafe', 'impl Instruction for Instruction in each IR'),
   ('get_vars / replace_vars', 'ir/expr.rs LinComb, Expression, VarSpec')],
  technique='abstract interpretation of MIR: access-path effect sets per enum variant',
  note='Every enum variant is analysed with symbolic fields over all paths of the type-checked MIR; trusts the extractor, the ~200 library models and the stub crates that stand in for the unavailable dependencies.')

P('C02', 'Every serialised type reads back exactly what it wrote',
  'For every value of every serialisable circuit, gate, coefficient, expression, witness and solver type, deserialising the bytes '
  'produced by serialising it consumes exactly those bytes and rebuilds the same value, field by field and variant by variant. '
  'Each variant is written with its own distinct tag, and constants written as guards (configuration id, magic number, field modulus) are compared on reading.',
  ['inputs'], 'all values of all serialisable types (every variant, field and element count)',
  'Round-trip tests cover a handful of circuits with the gate kinds and sizes they happen to contain; a swapped or dropped field of '
  'a rarely used variant, or a wrong element count, needs a value that contains it.',
  [EC + 'circuit/ir/expr.rs', EC + 'circuit/ir/source/serde.rs', EC + 'circuit/ir/hint_normalized/serde.rs', EC + 'circuit/ir/common/serde.rs', EC + 'circuit/layered/serde.rs',
   EC + 'circuit/layered/witness.rs', EC + 'circuit/input_mapping.rs', EC + 'circuit/ir/hint_normalized/witness_solver.rs', EC + 'zkcuda/context.rs', EC + 'zkcuda/kernel.rs', EC + 'zkcuda/shape.rs'],
  [('serialize_into / deserialize_from', 'impl ExpSerde for each type')],
  technique='event-automaton language equality of writer and reader extracted from MIR by abstract interpretation',
  note='Decides token-sequence equality over all paths and value reconstruction symbolically; serialisation of primitive integers and field elements is trusted.')

P('C03', 'Malformed or truncated input and failed writes are reported as errors',
  'For every hand-written serialised type (instructions, constraints, linear combinations, coefficients, gates, segments, IR and layered circuits, witnesses): '
  'when any nested read fails (the stream ends early, a nested value is malformed), reading returns an error, never a value; when any nested write fails, writing returns an error. '
  'A tag or operator code is accepted only if it is the code of one variant, each variant having exactly one code; a circuit or witness is accepted only if '
  'its magic number, configuration id and field modulus equal those of the type it is read as.',
  ['inputs', 'fault_sequences'], 'every read and write position of every type failing at any point; every tag value; every foreign modulus, id and magic number',
  'A file cut off at an unlucky byte, a full disk, or a circuit of another field must not be taken for a valid smaller circuit or witness; '
  'the tests only read back what they have just written.',
  [EC + 'circuit/ir/expr.rs', EC + 'circuit/ir/source/serde.rs', EC + 'circuit/ir/hint_normalized/serde.rs', EC + 'circuit/ir/common/serde.rs', EC + 'circuit/layered/serde.rs', EC + 'circuit/layered/witness.rs'],
  [('serialize_into / deserialize_from', 'impl ExpSerde for each type')],
  technique='counterfactual abstract interpretation of MIR: failing reads/writes and foreign tags assumed, reachability of Ok decided on the event automaton',
  note='That reading never panics or allocates without bound on malformed input is not claimed (element counts are trusted by Vec::with_capacity). Primitive readers are trusted to fail on truncated input.')

P('C07', 'Lowering a circuit keeps every instruction and constraint',
  'Lowering the circuit of the frontend to the circuit without built-in operations, and that to the final arithmetic circuit, keeps the meaning of every instruction and constraint. Each built-in operation (addition, products, division in its checked and unchecked forms, inverses, comparisons, zero tests, boolean '
  'operations, selections, bit decomposition, constants, calls, custom gates, unconstrained operations) becomes instructions that compute its definition, and asserts exactly the constraints that make its definition hold; a constraint is only taken for granted where asserted constraints imply it, and one that has been '
  'asserted stays asserted. Constraints to zero, to nonzero and to a boolean become equations with that meaning. Instructions are lowered on the images of their operands, in order, each exactly once; all constraints, outputs, inputs and public-input counts are carried through, and an error is returned. The expression recorded '
  'for a variable is the value its instruction computes, equal expressions only are shared (up to the recorded factor and constant), and in the final circuit every variable, constraint and output refers to a variable holding its expression; a constraint on a nonzero constant is an error.',
  ['programs', 'inputs'], 'all source circuits, all operands: identities between polynomials over the operands, per instruction and per constraint',
  'Whether a constraint is lost or an operand exchanged shows only in circuits that use that operation with constant, repeated or non-boolean operands; the random tests compare honest evaluations of a few circuits and cannot see a missing assertion.',
  [EC + 'builder/hint_normalize.rs', EC + 'builder/basic.rs', EC + 'builder/final_build_opt.rs', EC + 'circuit/ir/expr.rs'],
  [('transform_in_to_out, transform_in_con_to_out, execute_out', 'builder/hint_normalize.rs'), ('process_insn, process_con, assert, mark, process_circuit, fix_mid_to_out, lin_comb_inner, mul_two_expr', 'builder/basic.rs'), ('make_single, make_really_single, lin_comb, process_circuit', 'builder/final_build_opt.rs'), ('Term::mul, Expression::from_terms', 'circuit/ir/expr.rs')],
  technique='abstract interpretation of MIR: polynomial normal form of emitted instructions and of asserted and marked expressions, ideal membership of marks, provenance of every part of the processed circuit, counterfactual reachability',
  note='The choice of which subexpressions get a variable of their own (compression heuristics) and the order of a product of many factors in the final builder are not decided.')

P('C08', 'Circuit validation rejects every dangling or out-of-range reference',
  'IR circuit validation never succeeds for a circuit in which an operand, constraint or output refers to variable 0 or to a variable not defined before that point, '
  'an instruction is malformed (a product of fewer than two factors, a hint with an arity its id does not allow or without inputs, a public-input constant beyond the declared public inputs, '
  'a conversion to zero bits), a sub-circuit call names an unknown circuit or passes or expects a wrong number of values, calls form a cycle, the root circuit is missing, '
  'duplicates appear where the representation forbids them, or more zero-outputs are declared than outputs exist. Layered circuit validation never succeeds when a gate of any kind reads or writes '
  'out of range, a child segment does not precede its parent or is allocated misaligned or out of range, a segment length is zero or not a power of two, a layer names a missing segment, reads '
  'before the first layer or with a mismatching length, or reads a position that no gate of the layer below writes.',
  ['inputs'], 'all circuits of the four IRs and all layered circuits (every kind of reference, both input types)',
  'Validation is what stands between a compiler pass (or a loaded file) and out-of-bounds memory or an unsound circuit; tests feed it a few hand-made bad circuits.',
  [EC + 'circuit/ir/common/mod.rs', EC + 'circuit/ir/source/mod.rs', EC + 'circuit/ir/hint_normalized/mod.rs', EC + 'circuit/ir/hint_less/mod.rs', EC + 'circuit/ir/dest/mod.rs', EC + 'circuit/layered/mod.rs', EC + 'hints/builtin.rs'],
  [('RootCircuit::validate', 'circuit/ir/common/mod.rs'), ('Circuit::validate, compute_masks', 'circuit/layered/mod.rs'), ('validate_hint', 'hints/builtin.rs')],
  technique='counterfactual reachability: abstract interpretation of the validator under the assumption that the reference is invalid must not reach Ok',
  note='One obligation per kind of reference; the invalid condition is assumed for all elements of the collection, every other condition is unconstrained. Trusts the iterator/collection models.')

P('C12', 'A zkcuda verifier accepts only if every check it depends on accepts',
  'For every computation graph and proof, `verify` of each proving system never returns true when the number of kernel proofs differs from the number of kernel calls, when the GKR proof of any '
  'kernel call (any parallel instance) is rejected, when any commitment opening is rejected, when the values opened from the commitments do not add up to the claims of the GKR proof, or (dummy system) when the '
  'constraints of any kernel do not hold or disagree with the recorded outcome. Each underlying check runs on the circuit of the kernel called, against output zero, on the proof bytes of that kernel call and instance, '
  'with the commitments that call uses, the key of their length, the point derived from the GKR challenge and the claim that was absorbed into the transcript.',
  ['inputs', 'configurations'], 'all proofs, graphs and outcomes of the underlying cryptographic checks',
  'Tests only verify honest proofs: a verifier that ignores one rejected check passes all of them.',
  [EC + 'zkcuda/proving_system/dummy.rs', EC + 'zkcuda/proving_system/expander/verify_impl.rs', EC + 'zkcuda/proving_system/expander/api_single_thread.rs', EC + 'zkcuda/proving_system/expander_parallelized/verify_impl.rs',
   EC + 'zkcuda/proving_system/expander_parallelized/api_parallel.rs', EC + 'zkcuda/proving_system/expander_pcs_defered/verify_impl.rs', EC + 'zkcuda/proving_system/expander_no_oversubscribe/api_no_oversubscribe.rs', EC + 'zkcuda/proving_system/expander_local_deferred/api.rs'],
  [('ProvingSystem::verify', 'impl of each proving system under zkcuda/proving_system')],
  technique='counterfactual reachability: abstract interpretation of verify under the assumption that one underlying check fails for one element must not reach true; provenance of the arguments of the checks',
  note='The cryptographic primitives (gkr_verify, ExpanderPCS::verify) are uninterpreted. Known findings: the deferred systems never tie the GKR claims to the opened values.')

P('C13', 'Every circuit-builder call records exactly the operation it names',
  'Each method of the frontend builder API on circuit variables appends exactly one instruction (or constraint) of the kind its name says, over the given operands in the given order and with the given parameters, '
  'and returns the variable that instruction defines; on constants it folds to the same mathematical result, or aborts when the named assertion or division is violated; the invalid variable 0 is never accepted as an operand. '
  'The debug builder records the value the same operation gives on the recorded values and aborts on violated assertions; the root builder forwards every call unchanged to the innermost open builder; starting, '
  'finishing and nesting builders keeps inputs, public inputs, instructions, constraints and outputs, and a sub-circuit id is never shared by two different hashes.',
  ['inputs', 'programs'], 'all operand kinds (variable, constant), all methods of BasicAPI, UnconstrainedAPI and RootAPI for Builder, RootBuilder and DebugBuilder',
  'A user sees only the API name: if `sub` recorded its operands exchanged for one combination of constant and variable operands, or an assertion on a constant were dropped, the circuit would silently prove something else.',
  [EC + 'frontend/builder.rs', EC + 'frontend/debug.rs', EC + 'frontend/api.rs', EC + 'utils/function_id.rs'],
  [('impl BasicAPI / UnconstrainedAPI for Builder', 'frontend/builder.rs'), ('impl BasicAPI / UnconstrainedAPI for DebugBuilder', 'frontend/debug.rs'), ('impl RootAPI for RootBuilder; RootBuilder::new/build', 'frontend/builder.rs')],
  technique='abstract interpretation of MIR: value provenance of the appended instruction, case split over constant/variable and zero/equal operands',
  note='Comparison by bits (gt) is only checked in the debug builder and through geq; sub-circuit closures are opaque calls.')

P('C09', 'An operation has the same value in every evaluator',
  'Every operation has one meaning, and every place that evaluates it uses that meaning: the source IR, the hint-normalised, hint-less and dest IRs, the built-in hints, the scalar and the packed (SIMD) witness solver, '
  'and the three evaluators of layered circuits. Division, comparison, boolean and bitwise operations, shifts, selection, bit decomposition, linear combinations, products, constants and constraint kinds give, for every '
  'combination of zero, equal and general operands, the value the operation names, or an error where it is undefined. Whole-circuit evaluation starts from the inputs, records every result in order, evaluates a '
  'sub-circuit call on the called circuit and its arguments, returns the declared outputs, fails when any instruction or sub-circuit fails, and reports a circuit as satisfied only if every constraint of it and of every '
  'called sub-circuit and every output required to be zero holds; each packed lane gets what the scalar evaluation of that lane would get. Layered evaluation adds, for every gate of every kind and every child segment, '
  'the product of its inputs and coefficient to its output.',
  ['inputs', 'programs'], 'all instruction kinds, operations, constraint kinds and gate kinds, for operands that are zero, equal or general',
  'Witnesses are computed by one evaluator and proved by another; tests exercise a few operations on random values, which are never zero or equal by chance.',
  [EC + 'circuit/ir/common/mod.rs', EC + 'circuit/ir/source/mod.rs', EC + 'circuit/ir/hint_normalized/mod.rs', EC + 'circuit/ir/hint_less/mod.rs', EC + 'circuit/ir/dest/mod.rs', EC + 'circuit/ir/expr.rs', EC + 'hints/builtin.rs', EC + 'hints/mod.rs', EC + 'circuit/layered/mod.rs'],
  [('eval_unsafe_sub / eval_unsafe_with_errors', 'circuit/ir/common/mod.rs'), ('eval_sub_safe, eval_sub_safe_simd', 'circuit/ir/hint_normalized/mod.rs'), ('impl_builtin_hint', 'hints/builtin.rs'), ('UnconstrainedBinOpType::eval', 'circuit/ir/source/mod.rs'), ('apply_segment_*', 'circuit/layered/mod.rs')],
  technique='abstract interpretation of MIR per variant and operand case; normal form of the resulting value compared with one table of meanings; counterfactual reachability for satisfaction and errors',
  note='The loop computing powers and the random stand-in values of the test-only evaluators are outside the check; field arithmetic itself is trusted.')

P('C05', 'Compilation keeps input mappings, validation and errors intact',
  'In every configuration (optimisation level, fan-out limit, random linear combination or single layer input) compilation composes into the returned input order exactly the mappings of the '
  'passes that renumbered the inputs of the returned circuit, in the order they ran: the witness circuit returned outputs the values in the input order of the layered circuit returned, and takes '
  'the inputs of the source circuit. Composing and applying input mappings maps every kept input to its image and every removed input to nowhere. Each intermediate circuit is validated before it is lowered, the circuits returned '
  'are validated, and compilation fails when any validation, lowering or option check fails. Options outside their range are rejected; the fan-out limit given is the one applied, and every pass a configuration requires runs.',
  ['programs', 'configurations'], 'all circuits, all combinations of optimisation level, fan-out limit, random combination and cross-layer relay',
  'A mapping that is dropped or composed in the wrong order, or an ignored validation error, only shows for circuits in which that pass removes or reorders inputs; tests compile a few circuits with the default options.',
  [EC + 'compile/mod.rs', EC + 'circuit/input_mapping.rs'],
  [('compile_step_1..4, compile_with_options, optimize_until_fixed_point', 'compile/mod.rs'), ('InputMapping::compose, compose_in_place, map_inputs', 'circuit/input_mapping.rs')],
  technique='abstract interpretation of MIR per configuration: provenance of the returned circuit and mapping as chains of passes, compared; counterfactual reachability for errors',
  note='The passes themselves are opaque here: that each renumbers what its mapping says is checked by C06 as far as it can be; layering is opaque.')

P('C06', 'Optimising a layered circuit never changes what it computes',
  'Optimising a layered circuit (deduplicating gates, inlining small segments, extracting common parts) keeps what every layer computes. Gates are merged only when both coefficients are constants and '
  'their inputs, output and (custom gates) type are equal; the merged coefficient is the sum. A gate only disappears by being merged or because its coefficient is the constant zero, and an output that '
  'loses all its gates keeps a zero constant gate. Inlining a child adds every gate and every grandchild of it once per allocation, moved by the input offset of the layer each input reads and by the '
  'output offset, and leaves the own gates and the other children as they are. A segment is only left out if it is unused or inlined wherever it is used, never if it is a layer. Extracting common gates '
  'removes from a segment exactly the gates contained in the common child it adds at offset zero, and the common segment has all those gates and is large enough for them. The number of public inputs, '
  'outputs and zero outputs and the sequence of layers stay, and layers and children refer to the new positions of the segments they referred to.',
  ['programs'], 'all layered circuits, all segments, children, allocations and gates of all kinds',
  'The passes only act on circuits with duplicate gates, shared or small segments and several allocations of the same child; a wrong offset or a dropped gate needs a particular combination of them, and the random tests compare a few small circuits.',
  [EC + 'circuit/layered/opt.rs'],
  [('GateOpt, dedup_gates, Segment::dedup_gates', 'circuit/layered/opt.rs'), ('expand_segment, expand_small_segments', 'circuit/layered/opt.rs'), ('find_common_parts, from_uni_gates, remove_gates', 'circuit/layered/opt.rs')],
  technique='abstract interpretation of MIR on a circuit with one symbolic segment, child and allocation: provenance of every part of the result, counterfactual reachability, event-order automata',
  note='Which groups of segments are formed, and whether a list is cut at a data-dependent position other than by the merging counters, is not decided. Extraction on segments holding duplicate identical gates is outside the statement.')

P('C10', 'The circuit exported to the prover is the layered circuit, unchanged',
  'Exporting a layered circuit to the proving library changes nothing: every segment arrives with its input and output sizes, every gate of every kind with its input positions, output position, coefficient and (custom gates) gate type, '
  'every child segment with all its allocations, and the layer sequence, the number of outputs, of public inputs and of outputs required to be zero arrive as they were. A constant coefficient is exported as that constant, a public-input '
  'coefficient keeps the id of its public input, a random coefficient stays random. In circuits with inputs from earlier layers an addition gate reading the previous layer stays a gate and one reading an earlier layer becomes a relay from that layer and position; what the '
  'exported format cannot express (a relay with a coefficient that is not constant, a multiplication or constant gate reading an earlier layer, custom gates) is refused, never altered. The flattened export is the flattening of that same export.',
  ['programs'], 'all layered circuits with one-layer and cross-layer inputs, all gate kinds and all coefficient kinds',
  'The proof is made for the exported circuit while the witness is checked on the layered one; a difference shows only for circuits that contain the gate kind, coefficient kind or layer distance concerned.',
  [EC + 'circuit/layered/export.rs', EC + 'circuit/layered/mod.rs'],
  [('Circuit::export_to_expander (both input types), export_to_expander_flatten', 'circuit/layered/export.rs'), ('Coef::export_to_expander, Gate::export_to_expander, export_to_crosslayer*, Input accessors', 'circuit/layered/mod.rs')],
  technique='abstract interpretation of MIR on a symbolic circuit per coefficient variant and layer distance: field-wise provenance of the exported structure',
  note='Flattening inside the proving library is external. Custom gates with more than one input are exported with their first input only (the format has room for one).')

P('C11', 'Batches of witnesses keep every witness at its own index',
  'A batch of witnesses is the sequence of the single witnesses, in order. Solving n assignments solves assignment i (all of its variables and public inputs, in order) into witness i, rejects a wrong number of inputs or public inputs, and records the number '
  'of witnesses and of values per witness as they are. Scalar and packed storage hold the same values: packing puts value i of witness j of a block into lane j of packed value i, for inputs and public inputs alike, and fills the lanes beyond the last witness from a '
  'witness of the block; unpacking is the inverse. Iterating yields exactly n witnesses (or the blocks covering them), each with its own inputs and public inputs, and converting to packed form keeps every witness. Running a circuit on a batch yields for witness j the outputs and the '
  'satisfied flag of witness j, and nothing for padding lanes.',
  ['inputs'], 'all numbers of witnesses (whole and partly filled blocks), pack sizes, numbers of inputs and public inputs',
  'Tests solve one or two batch sizes and compare a flag; a wrong lane, stride or block count shows only for particular batch sizes or with public inputs.',
  [EC + 'circuit/layered/witness.rs', EC + 'circuit/ir/hint_normalized/witness_solver.rs', EC + 'frontend/witness.rs'],
  [('pack_block, unpack_block, WitnessIterator*::next, convert_to_simd, to_simd, run, run_with_output', 'circuit/layered/witness.rs'), ('solve_witness_from_raw_inputs, solve_witnesses_from_raw_inputs', 'ir/hint_normalized/witness_solver.rs'), ('solve_witness(es)', 'frontend/witness.rs')],
  technique='abstract interpretation of MIR: affine symbolic positions of every lane and element access compared with the required position; order automata for stores',
  note='Positions are polynomials over loop counters and sizes; the pack and unpack operations of the field library are trusted.')

GN = 'circuit-std-rs/src/gnark/emulated/'
P('C14', 'Emulated BLS12-381 gadgets compute what they are defined to compute',
  'For all operands, the values returned by the emulated gadgets of the gnark part of the standard library are their mathematical definition over the emulated base field. In the quadratic, sextic and twelfth-degree '
  'extensions: sums, differences, negation, doubling, products (general, sparse and by constants or non-residues), squares, conjugates, Frobenius maps, cyclotomic and compressed squarings, exponentiation by the curve seed, '
  'selections. In the two curve groups: affine addition, doubling, tripling, double-and-add and negation, the endomorphisms, the scalar multiplications by the seed and its square, cofactor clearing, and the isogenies '
  'used for hashing to the curve, as the point the multiple names. In the pairing: the line of every step of the Miller loop, and every line multiplied in at its step and evaluated at its point. Assertion gadgets '
  '(equality of field elements and points, being on a curve, on the twist, in a subgroup, the final check of the pairing) constrain exactly every component of that relation, unconditionally.',
  ['inputs'], 'all operands of every gadget: identities of polynomials in the components of the operands and in results of divisions',
  'A wrong cross term, a skipped component of a comparison or a wrong step of an addition chain is an unsound or incomplete circuit that only shows for particular operands; the shipped tests use one vector per gadget and are not run by the stable suite.',
  [GN + 'field_bls12381/e2.rs', GN + 'field_bls12381/e6.rs', GN + 'field_bls12381/e12.rs', GN + 'sw_bls12381/g1.rs', GN + 'sw_bls12381/g2.rs', GN + 'sw_bls12381/pairing.rs', GN + 'sw_bls12381/point.rs'],
  [('Ext2, Ext6, Ext12', 'gnark/emulated/field_bls12381'), ('G1, G2, Pairing, Curve', 'gnark/emulated/sw_bls12381')],
  technique='symbolic normal form computed from MIR: polynomials over the base field in operand components (divisions as canonical atoms) compared with reference definitions; integer combination of addition chains; loop summaries',
  note='Base-field operations are taken by their meaning here (their constraints are C15). Degenerate operands of affine formulas (equal points, point at infinity) are outside, as in the library.')

P('C15', 'Advice in standard-library gadgets is pinned down by constraints',
  'In the standard library, values that the prover supplies (hints) are constrained, unconditionally, by the relation that defines them. In the emulated field, a product, a quotient, an inverse, a reduction, a copy, a zero test or equality assertion records or asserts '
  'the identity of that operation for exactly its operands and its result; quotient and remainder limbs, outputs of hints and operands not built inside are range-checked to their width, and every recorded identity is checked at a random point. In the tower of extensions, quotients, '
  'inverses and copies multiply back to (or equal) their argument in every component. Points mapped to the curves or decompressed have the abscissa, the curve equation and the sign the input names. The range proof accepts exactly [0, 2^n), and the lookup tables compare the sums of '
  'fractions of all rows and all queries under one random combination with a fresh coefficient per column. The wide-integer arithmetic constrains sums, products and the reduction modulo n on every limb, and the RSA circuit every power up to the result.',
  ['inputs'], 'every assignment of the hint outputs: the asserted relations are identities over all operands',
  'A missing or misdirected constraint changes nothing for honest provers, so no test that solves a witness can see it.',
  ['circuit-std-rs/src/gnark/field.rs', 'circuit-std-rs/src/logup.rs', GN + 'field_bls12381/e2.rs', GN + 'field_bls12381/e6.rs', GN + 'field_bls12381/e12.rs', GN + 'sw_bls12381/g1.rs', GN + 'sw_bls12381/g2.rs', 'circuit-std-rs/src/non_native/u120.rs', 'circuit-std-rs/src/non_native/u2048.rs', 'rsa_circuit/src/main.rs'],
  [('GField::mul_mod, call_mul_hint, check_mul, div, inverse, copy, enforce_width', 'gnark/field.rs'), ('LogUp*, sum_rational_vec', 'logup.rs'), ('Ext2/6/12 div, inverse, copy; map_to_curve, uncompressed', 'gnark/emulated'), ('assert_mul, assert_add, add_u120', 'non_native'), ('RSACircuit::define', 'rsa_circuit/src/main.rs')],
  technique='abstract interpretation of MIR: the polynomial identities asserted on every path (normal forms over operands and advice), provenance of range-checked limbs, loop summaries over limbs, rows and queries',
  note='Known finding: the carries of a multiplication are not range-checked. Assumes Define implementations call check_mul and the final check of the table. The 120-bit range check of non_native is a no-op in the library ("do not use in production") and its comparison is outside.')

P('C16', 'Front-end macros keep every variable at its place',
  'What the macros of the front end generate moves every variable from and to its own place. For a struct declared with declare_circuit!, dumping and loading visit exactly the fields declared as variables, in declaration order, each element of an array or vector of any depth in index order, secret '
  'ones in the list of inputs and public ones in the list of public inputs; loading takes values from the front; the number of variables counts every one of them as often as it occurs; a clone has the same fields. Compiling a struct compiles the circuit its definition builds on exactly its number of '
  'inputs and public inputs, with the options given, and hands back the solver and the layered circuit of the same compilation; solving an assignment solves what it dumps, with the hints given, assignment i as witness i. A #[memorized] function has its own sub-circuit for each combination of function, '
  'numeric parameters and lengths of vector parameters, never shared with another function or another combination; it passes exactly its variable parameters, in order, as inputs, rebuilds each parameter with its own values and structure inside, and returns the outputs of that call in the structure of the '
  'result. A #[kernel] function sees each parameter as its own vector in row-major order, each output parameter is written back row-major to its own vector, and length, shape and input/output role of each parameter are those declared; call_kernel! updates exactly the arguments marked mut with their own results.',
  ['programs', 'inputs'], 'all structs and functions built from the parameter kinds the macros accept (a probe crate uses every kind, its expansion is analysed), all lengths of vectors and all values',
  'A wrong place shows only for fields or parameters of a particular shape or for two functions used in one circuit; the two stable tests compile no circuit at all.',
  ['expander_compiler/macros/src/lib.rs', EC + 'frontend/circuit.rs', EC + 'frontend/sub_circuit.rs', EC + 'frontend/variables.rs', EC + 'frontend/mod.rs', EC + 'frontend/witness.rs'],
  [('declare_circuit!', 'frontend/circuit.rs'), ('memorized, kernel, call_kernel', 'macros/src/lib.rs'), ('JoinVecVariables, RebuildVecVariables, HashStructureAndPrimitive', 'frontend/sub_circuit.rs'), ('DumpLoadVariables', 'frontend/variables.rs'), ('compile, compile_cross_layer, debug_eval', 'frontend/mod.rs'), ('solve_witness(es)(_with_hints)', 'frontend/witness.rs')],
  technique='abstract interpretation of MIR of a probe crate expanded with the macros of the tree: chains of list updates, symbolic row-major positions, provenance of arguments and of hashed bytes, order automata for declaration order',
  note='The number of variables of a fixed array of vectors of different lengths is outside (the library counts the first element for all). That the hash has no collisions is trusted.')
P('C20', 'zkcuda contexts record, lay out and evaluate the kernel calls made',
  'A zkcuda context accepts kernel calls only before its computation graph is compiled or loaded, compiles or loads it once, solves hints once after that, and exports memories with the checked export only after that. A handle always names the memory it was made for: copying to a device stores the (packed) values with '
  'their shape as a new memory, reshaping and transposing a handle keep its memory, and copying to the host reads that memory through the view of the handle. A kernel call is refused if the number of arguments differs from the kernel, an input is missing, an input has neither the shape of the parameter (broadcast) nor '
  'that shape once per instance, or a broadcast argument is an output; otherwise it is recorded exactly once with its own kernel, number of instances, handles and broadcast flags, each instance is evaluated on its own part of every argument as the view shows it, each output is a new memory holding the results of '
  'all instances in order, and an error of the evaluation is the result. The shapes memories must keep apart grow until nothing changes, over the parallel inputs and outputs of every call. Compiling gives every call a template with the kernel compiled for its shapes, the memories of its inputs, outputs and hints in '
  'that order, their bit orders, broadcast flags and the padded number of instances, and the padded length of every memory; loading accepts only a graph equal to that. Solving computes the hints of each call with the hint solver of its kernel on the values of its arguments and stores them as the memory the graph counts on; '
  'exports pad every memory to its shape. Compiling a kernel binds every output to an input of the circuit, keeps every input, splits hints from constraints, and lays the arguments out, inputs before outputs before hints, padded and never overlapping; a failing step is an error, never a kernel.',
  ['programs', 'inputs', 'histories'], 'all kernels, contexts and sequences of calls, for every kind of argument (parallel, broadcast, output, both), all shapes and numbers of instances',
  'A misplaced argument shows only for particular shapes, views, repeated kernels or loaded graphs; none of the stable tests makes a context.',
  [EC + 'zkcuda/context.rs', EC + 'zkcuda/kernel.rs'],
  [('call_kernel, check_shape_compat', 'zkcuda/context.rs'), ('propagate_and_get_shapes, compile_or_load_computation_graph', 'zkcuda/context.rs'), ('solve_witness, export_device_memories', 'zkcuda/context.rs'), ('compile_with_spec_and_shapes, compile_primitive, reorder_ir_inputs', 'zkcuda/kernel.rs')],
  technique='abstract interpretation of MIR, specialised to each kind of argument: provenance of what every opaque callee is given and of what is recorded, order automata, refusals by counterfactual',
  note='The arithmetic of shapes (zkcuda/shape.rs), padding itself, the pool and the compile steps are taken as opaque here. Lists of arguments are analysed for one kind of argument at a time. copy_flat_simd_to_device with a length that is not a multiple of the columns, and a call whose inputs are all broadcast and that has no output, are outside.')
P('N01', 'A compiled circuit is satisfied exactly when the written circuit is',
  'For every circuit and assignment, the layered circuit together with the witness the solver computes is satisfied exactly if the circuit as written is satisfied by that assignment.',
  ['programs', 'inputs'], 'all circuits, fields and assignments', 'Only some circuits take the paths on which two passes disagree; the stable tests compile none.',
  [EC + 'compile/mod.rs', EC + 'layering/compile.rs', EC + 'builder/final_build_opt.rs'], [('compile_with_options', 'compile/mod.rs')],
  na='Equality of the values two circuits compute depends on the runtime placement of every variable (connected components, layer assignment, greedy interval packing, union-find), which no sound static argument in reach bounds. The parts of it '
     'that are decidable from the source are claimed separately: order and results of passes (C05, C06), lowering of each instruction (C07), one meaning per operation (C09), export (C10), operands and substitution (C01).')
P('N02', 'Layers, segments and relays place every variable where it is read',
  'The layered circuit the layering pass returns places every variable, on every layer from the one that computes it to the last that reads it, at one position, segments never overlap, and every gate reads the positions its operands have.',
  ['programs'], 'all hint-less circuits accepted by the layering pass', 'Overlap and stale positions need circuits with particular nesting and sizes.',
  [EC + 'layering/compile.rs', EC + 'layering/layer_layout.rs', EC + 'layering/wire.rs', EC + 'layering/ir_split.rs', EC + 'layering/input.rs'], [('layering::compile', 'layering/compile.rs'), ('CompileContext', 'layering/layer_layout.rs')],
  na='Positions are the result of sorting, merging and first-fit packing of runtime sizes; that they never overlap is a numeric invariant of an algorithm, not a property of the dataflow of its source. The local parts (children aligned, relays copied '
     'once, gates taking their own operands) are claimed by C08 and C10.')
P('N03', 'Shape arithmetic of zkcuda: views, splits and bit orders agree',
  'For every history of reshapes and transpositions, permuting the values, the transposed shape, the initial split list and the bit order describe the same permutation of the padded memory, and merging splits gives the coarsest common refinement or an error.',
  ['inputs', 'histories'], 'all shapes, reshapes and transpositions', 'Agreement fails only for shapes whose dimensions share some factors and not others.',
  [EC + 'zkcuda/shape.rs'], [('ShapeHistory, BitOrder, merge_shape_products', 'zkcuda/shape.rs')],
  na='It relates products, quotients and divisibility of runtime dimensions across several loops; it is number theory over unbounded runtime quantities. C20 decides what is passed to and taken from these functions and treats their results as opaque.')
P('N04', 'Heap, buckets, static map, pool and union-find keep their contracts',
  'Pushing and popping a heap gives the elements in order, bucket sort is a stable sort, the static hash map finds exactly what was inserted, a pool gives equal values equal numbers, and union-find joins exactly the sets that were joined.',
  ['histories'], 'all sequences of operations', 'The two stable tests sample a few sequences.',
  ['expander_compiler/src/utils/heap.rs', 'expander_compiler/src/utils/bucket_sort.rs', 'expander_compiler/src/utils/static_hash_map.rs', 'expander_compiler/src/utils/pool.rs', 'expander_compiler/src/utils/union_find.rs'],
  [('push, pop', 'utils/heap.rs'), ('bucket_sort', 'utils/bucket_sort.rs'), ('Pool', 'utils/pool.rs')],
  na='Functional correctness of in-place data structures is an inductive invariant over array contents (heap order, probe chains, parent forests); the dataflow and effect analyses built here cannot establish it, and proving it with a solver is a different family. '
     'Other properties take these structures as given.')
P('N05', 'Compiling terminates, is deterministic and stays within its size bounds',
  'Compiling a circuit always ends, gives the same layered circuit on every run and on every machine, and its size is bounded by the limits of the compile options.',
  ['programs', 'schedules'], 'all circuits and thread schedules', 'Order of hash tables and threads varies between runs of one program.',
  [EC + 'compile/mod.rs', EC + 'layering/compile.rs'], [('compile_with_options', 'compile/mod.rs')],
  na='Termination and size of the merging and layering loops depend on runtime measures. Identical output is not promised either: some passes iterate over hash sets in places where any order gives a correct circuit, so a rule that forbids this would raise alarms on correct code.')
P('N06', 'Standard hash, matrix and RSA circuits compute the published functions',
  'The hash, matrix, table and RSA circuits of the standard library output the value of the published function for every input.',
  ['inputs'], 'all inputs of all widths', 'A wrong rotation or constant is found by one vector, but a wrong carry only for rare inputs.',
  ['circuit-std-rs/src/sha256', 'circuit-std-rs/src/poseidon', 'circuit-std-rs/src/matmul.rs', 'rsa_circuit/src'], [('SHA256, Poseidon', 'circuit-std-rs/src')],
  na='It is equality of bit-level or modular arithmetic functions over hundreds of rounds with carries; deciding it needs bit-precise equivalence (a solver or execution), a different family. That the advice these gadgets use is pinned down by constraints is claimed by C15, and the algebraic part of the BLS12-381 gadgets by C14.')

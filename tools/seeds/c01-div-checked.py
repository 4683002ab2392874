EC='expander_compiler/src/'
S = dict(property='C01', edits=[(EC+'circuit/ir/source/mod.rs', """                x: f(*x),
                y: f(*y),
                checked: *checked,""", """                x: f(*x),
                y: f(*y),
                checked: *checked || x == y,""")],
 needs='an unchecked division of a variable by itself whose operands are renamed (sub-circuit reordering, duplicate removal)',
 breaks='renaming the operands of an unchecked division x/x turns it into a checked one, so 0/0 no longer evaluates to 0',
 demo='''use expander_compiler::circuit::{config::*, ir::{common::Instruction as _, source::Instruction}};
fn main() {
    for checked in [false, true] { for (x, y) in [(3usize, 4usize), (3, 3), (5, 1)] {
        let a: Instruction<M31Config> = Instruction::Div { x, y, checked };
        assert!(a.replace_vars(|v| v) == a, "{a:?}");
        let b: Instruction<M31Config> = Instruction::Div { x: x + 10, y: y + 10, checked };
        assert!(a.replace_vars(|v| v + 10) == b, "{a:?}");
    } }
}
''')

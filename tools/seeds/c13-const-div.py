EC='expander_compiler/src/'
S = dict(property='C13', edits=[(EC+'frontend/builder.rs', """                    if checked || !xv.is_zero() {
                        panic!("division by zero");""", """                    if checked && !xv.is_zero() {
                        panic!("division by zero");""")],
 needs='a division of two compile-time constants by zero: checked with dividend zero, or unchecked with a nonzero dividend',
 breaks='a checked division 0/0 (or an unchecked 5/0) of constants is folded to 0 instead of being rejected',
 demo='''use expander_compiler::frontend::*;
use expander_compiler::frontend::builder::RootBuilder;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    for (x, y, checked, ok) in [(6u32, 3u32, true, true), (0, 0, false, true), (0, 0, true, false), (5, 0, false, false), (5, 0, true, false)] {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (mut b, _, _) = RootBuilder::<M31Config>::new(1, 0);
            let _ = b.div(x, y, checked);
        }));
        assert!(r.is_ok() == ok, "{x}/{y} {checked}");
    }
}
''')

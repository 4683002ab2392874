EC='expander_compiler/src/'
S = dict(property='C05', edits=[(EC+'circuit/input_mapping.rs', """                self.mapping[i] = other.mapping[self.mapping[i]];
            }
        }
        self.next_size = other.next_size;""", """                let next = other.mapping[self.mapping[i]];
                if next < other.next_size {
                    self.mapping[i] = next;
                }
            }
        }
        self.next_size = other.next_size;""")],
 needs='an input that survives one pass and is removed by a later one, composed in place',
 breaks='an input removed by the later pass keeps its old position instead of being marked as removed, colliding with a live input',
 demo='''use expander_compiler::circuit::input_mapping::*;
fn main() {
    let a = InputMapping::new(4, vec![3, 1, EMPTY, 0, 2]);
    let b = InputMapping::new(2, vec![1, EMPTY, 0, EMPTY]);
    let want = a.compose(&b);
    assert_eq!(want.mapping(), &vec![EMPTY, EMPTY, EMPTY, 1, 0]);
    let mut c = a.clone();
    c.compose_in_place(&b);
    assert_eq!(c, want);
    assert_eq!(c.map_inputs(&[10, 11, 12, 13, 14]), vec![14, 13]);
}
''')

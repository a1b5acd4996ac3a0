//! Stands in for a crate whose call into assembly the interpreter cannot run.
pub fn remaining_stack() -> Option<usize> {
    None
}

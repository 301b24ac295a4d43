//! see `mon::trace`; the library with its serde feature
fn main() {
    mon::trace::main()
}

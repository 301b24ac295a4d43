//! see `mon::trace`; without the counting allocator, as a program would use the library
fn main() {
    mon::trace::main()
}

@raw
} // verus!
fn main() {}

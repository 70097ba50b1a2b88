} // verus!

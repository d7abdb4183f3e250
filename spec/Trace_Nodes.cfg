SPECIFICATION TSpec
INVARIANT TSafe

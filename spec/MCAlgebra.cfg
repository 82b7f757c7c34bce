INIT Init
NEXT Next
CONSTANT Ns = {1,2,3,4,5,6}
INVARIANTS TypeOK Axioms Enumeration Subgroups Homomorphisms RegIsPerm InducedHom Completeness Orthogonality
CHECK_DEADLOCK FALSE

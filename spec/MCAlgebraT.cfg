INIT Init
NEXT Next
CONSTANT Ns = {1,2,3,4,5,6,7,8,9,10,12}
INVARIANTS TypeOK Axioms Enumeration Subgroups Homomorphisms RegIsPerm InducedHom Completeness Orthogonality
CHECK_DEADLOCK FALSE

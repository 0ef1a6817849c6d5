SPECIFICATION Spec
INVARIANTS Reflexive Symmetric Transitive SameIsEqual Congruent Effects
CHECK_DEADLOCK FALSE

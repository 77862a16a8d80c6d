SPECIFICATION Spec
INVARIANTS Same SameSets SameScale Sums Halves
CONSTANT W = 3

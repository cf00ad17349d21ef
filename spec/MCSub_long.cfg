CONSTANTS MaxKeys = 8  Alphabet = {0, 255}  MaxPrefix = 2  MaxKey = 2
SPECIFICATION Spec
INVARIANTS RightKeys Apart OneToOne SameOrder

CONSTANTS MaxKeys = 8  Alphabet = {0, 254, 255}  MaxPrefix = 2  MaxKey = 1
SPECIFICATION Spec
INVARIANTS RightKeys Apart OneToOne SameOrder

---- MODULE MCConc ----
EXTENDS Conc
CONSTANT NK
MCKeys == {<<i>> : i \in 1..NK}
Sym == Permutations(Clients)
====

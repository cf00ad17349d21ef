----------------------------- MODULE MCHyperbee -----------------------------
EXTENDS Hyperbee
CONSTANT NKeys_
MCKeys == {<<i>> : i \in 1..NKeys_}
MCVals == {<<>>}
=============================================================================

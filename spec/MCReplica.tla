---- MODULE MCReplica ----
EXTENDS Replica
CONSTANT NK
MCKeys == {<<i>> : i \in 1..NK}
====

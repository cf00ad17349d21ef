---- MODULE MCTraverse ----
EXTENDS Iterator
CONSTANTS MaxN, ConfKind, Lack

RECURSIVE Trees(_)
Trees(h) == IF h = 1 THEN {[n |-> n, c |-> <<>>] : n \in MinKeys..MaxKeys}
            ELSE UNION {{[n |-> m, c |-> f] : f \in [1..(m + 1) -> Trees(h - 1)]} : m \in MinKeys..MaxKeys}
SmallTrees == {t \in Trees(1) \cup Trees(2) \cup Trees(3) \cup {[n |-> 0, c |-> <<>>]} : SizeOf(t) <= MaxN}
MCLogs == {LogOf(t, "spread") : t \in SmallTrees} \cup {<<>>, <<HeaderBlock(<<>>)>>}

N(lg) == IF HasRoot(lg) THEN Len(InOrder(lg)) ELSE 0
Neg == [t |-> "neg", k |-> <<>>]
Plus == [t |-> "pos", k |-> <<>>]
Fin(k) == [t |-> "fin", k |-> k]
Points(lg) == {SGap(r) : r \in 0..N(lg)} \cup {SKey(r) : r \in 1..N(lg)}
Ends(lg) == {<<Neg, TRUE>>, <<Plus, TRUE>>} \cup {<<Fin(k), i>> : k \in Points(lg), i \in BOOLEAN}
AllConfs(lg) == {[min |-> a[1], mini |-> a[2], max |-> b[1], maxi |-> b[2], rev |-> r]
                  : a \in Ends(lg), b \in Ends(lg), r \in BOOLEAN}
Proper(c) == /\ c.min.t # "pos" /\ c.max.t # "neg"
             /\ (c.min.t = "fin" /\ c.max.t = "fin") => Lt(c.min.k, c.max.k) \/ (c.min.k = c.max.k /\ c.mini /\ c.maxi)
FewConfs(lg) == {c \in AllConfs(lg) :
                   /\ c.min.t = "neg" \/ (c.min.t = "fin" /\ c.min.k \in {SKey(2), SGap(3)})
                   /\ c.max.t = "pos" \/ (c.max.t = "fin" /\ c.max.k \in {SKey(N(lg) - 1), SGap(N(lg) \div 2)})
                   /\ Proper(c)}
MCConfs(lg) == IF ConfKind = "all" THEN {c \in AllConfs(lg) : Proper(c)}
               ELSE IF ConfKind = "any" THEN AllConfs(lg) ELSE FewConfs(lg)
MCAbsences(lg) == IF Lack = 0 THEN {{}}
                  ELSE IF Lack = 1 THEN {{b} : b \in 1..(Len(lg) - 1)}
                  ELSE {{a, b} : a, b \in 1..(Len(lg) - 1)}
====

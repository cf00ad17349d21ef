------------------------------- MODULE Shapes -------------------------------
(* Tree shapes: [n |-> number of keys, c |-> child shapes].  LogOf builds a  *)
(* log whose tree has that shape: the r-th key in order is SKey(r) and lives *)
(* in block r.  Style "batch": all nodes are in the last block, as one JS    *)
(* batch writes them.  Style "spread": each node is in the block of the      *)
(* greatest key below it, as a history of sorted puts leaves them.           *)
EXTENDS Maps

SKey(r) == <<r \div 100, 2 * (r % 100)>>
(* a key between the r-th and the next *)
SGap(r) == <<r \div 100, 2 * (r % 100) + 1>>
SVal(r) == IF r % 4 = 0 THEN <<>> ELSE <<<<r % 256, r % 3>>>>

RECURSIVE SizeOf(_), SizeSum(_, _)
SizeOf(s) == s.n + SizeSum(s.c, 1)
SizeSum(cs, i) == IF i > Len(cs) THEN 0 ELSE SizeOf(cs[i]) + SizeSum(cs, i + 1)

(* Number the keys: Place(s, from) = [nd |-> node with seqs and nested children, hi |-> last rank] *)
RECURSIVE Place(_, _), PlaceKids(_, _, _, _, _)
Place(s, from) ==
  IF s.c = <<>> THEN [k |-> [i \in 1..s.n |-> from + i - 1], c |-> <<>>, hi |-> from + s.n - 1]
  ELSE PlaceKids(s.c, 1, from, <<>>, <<>>)
PlaceKids(cs, i, from, ks, nds) ==
  LET x == Place(cs[i], from) IN
  IF i = Len(cs) THEN [k |-> ks, c |-> Append(nds, x), hi |-> x.hi]
  ELSE PlaceKids(cs, i + 1, x.hi + 2, Append(ks, x.hi + 1), Append(nds, x))

(* batch: everything in block n *)
RECURSIVE ToNew(_)
ToNew(p) == [k |-> p.k, c |-> [i \in DOMAIN p.c |-> New(ToNew(p.c[i]))]]

(* spread: node p at depth-on-its-right-spine d goes to block p.hi, offset d *)
RECURSIVE SpreadNodes(_, _), SpreadKids(_, _, _)
SpreadNodes(p, d) ==     \* set of <<block, offset, node>>
  {<<p.hi, d, [k |-> p.k,
               c |-> [i \in DOMAIN p.c |-> <<p.c[i].hi, IF i = Len(p.c) THEN d + 1 ELSE 0>>]]>>}
   \cup SpreadKids(p, d, 1)
SpreadKids(p, d, i) ==
  IF i > Len(p.c) THEN {}
  ELSE SpreadNodes(p.c[i], IF i = Len(p.c) THEN d + 1 ELSE 0) \cup SpreadKids(p, d, i + 1)

NodesOfBlock(ns, b) ==
  LET mine == {x \in ns : x[1] = b} IN [o \in 1..Cardinality(mine) |-> (CHOOSE x \in mine : x[2] = o - 1)[3]]

LogOf(s, style) ==
  LET n == SizeOf(s)
      p == Place(s, 1)
      entry(r, idx) == [h |-> FALSE, key |-> SKey(r), val |-> SVal(r), idx |-> idx]
      ns == IF style = "spread" THEN SpreadNodes(p, 0) ELSE {}
      idxOf(r) == IF style = "spread" THEN NodesOfBlock(ns, r)
                  ELSE IF r = n THEN Flat(ToNew(p), n, 0) ELSE <<>>
  IN IF n = 0 THEN <<HeaderBlock(<<>>), entry(1, <<[k |-> <<>>, c |-> <<>>]>>)>>
     ELSE <<HeaderBlock(<<>>)>> \o [r \in 1..n |-> entry(r, idxOf(r))]

RECURSIVE ShapeAt(_, _)
ShapeAt(log, r) == LET nd == NodeAt(log, r)
                   IN [n |-> Len(nd.k), c |-> [i \in DOMAIN nd.c |-> ShapeAt(log, nd.c[i])]]
=============================================================================

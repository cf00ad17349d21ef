-------------------------------- MODULE Maps --------------------------------
(* What a log means: the sequence, in key order, of the blocks that hold    *)
(* its live entries.  This is the abstract view every observable answer is  *)
(* judged against; put/del act on it as on any sorted map.                  *)
EXTENDS BTree, SequencesExt

(* position of key in view v: [f, i] *)
RECURSIVE MPosFrom(_, _, _, _, _)
(* binary search in v[lo..hi] *)
MPosFrom(log, v, key, lo, hi) ==
  IF lo > hi THEN [f |-> FALSE, i |-> lo]
  ELSE LET mid == (lo + hi) \div 2
           o   == KeyOf(log, v[mid])
       IN IF o = key THEN [f |-> TRUE, i |-> mid]
          ELSE IF Lt(key, o) THEN MPosFrom(log, v, key, lo, mid - 1)
          ELSE MPosFrom(log, v, key, mid + 1, hi)
MPos(log, v, key) == MPosFrom(log, v, key, 1, Len(v))

MFind(log, v, key) == LET p == MPos(log, v, key) IN IF p.f THEN <<v[p.i]>> ELSE <<>>
MPut(log, v, key, seq) ==
  LET p == MPos(log, v, key) IN IF p.f THEN [v EXCEPT ![p.i] = seq] ELSE InsertAt(v, p.i, seq)
MDel(log, v, key) ==
  LET p == MPos(log, v, key) IN IF p.f THEN RemoveAt(v, p.i) ELSE v

-----------------------------------------------------------------------------
(* Range reads.  A bound is [t |-> "neg"|"pos"|"fin", k |-> key].            *)
AboveMin(c, key) ==
  CASE c.min.t = "neg" -> TRUE
    [] c.min.t = "pos" -> FALSE
    [] OTHER -> Lt(c.min.k, key) \/ (c.mini /\ c.min.k = key)
BelowMax(c, key) ==
  CASE c.max.t = "pos" -> TRUE
    [] c.max.t = "neg" -> FALSE
    [] OTHER -> Lt(key, c.max.k) \/ (c.maxi /\ c.max.k = key)
InBounds(c, key) == AboveMin(c, key) /\ BelowMax(c, key)

RangeOf(log, v, c) ==
  LET sel == SelectSeq(v, LAMBDA s : InBounds(c, KeyOf(log, s)))
  IN IF c.rev THEN Reverse(sel) ELSE sel

(* Blocks a range read may need: the nodes that can hold keys of the range,  *)
(* and their keys.                                                          *)
EndsBefore(c, key) == IF c.min.t = "fin" THEN Lt(key, c.min.k) ELSE c.min.t = "pos"
StartsAfter(c, key) == IF c.max.t = "fin" THEN Lt(c.max.k, key) ELSE c.max.t = "neg"
RECURSIVE RangeBlocksOf(_, _, _)
RangeBlocksOf(log, r, c) ==
  LET nd == NodeAt(log, r)
      in == {i \in DOMAIN nd.c : /\ i > Len(nd.k) \/ ~EndsBefore(c, KeyOf(log, nd.k[i]))
                                 /\ i = 1 \/ ~StartsAfter(c, KeyOf(log, nd.k[i - 1]))}
  IN {r[1]} \cup {nd.k[i] : i \in DOMAIN nd.k} \cup UNION {RangeBlocksOf(log, nd.c[i], c) : i \in in}
RangeBlocks(log, c) == IF HasRoot(log) THEN RangeBlocksOf(log, RootRef(log), c) ELSE {}

(* A sub is a view of the keys that begin with prefix \o separator; inside  *)
(* it, keys and bounds are relative.                                        *)
Strip(p, key) == SubSeq(key, Len(p) + 1, Len(key))
SubRange(log, v, p, c) ==
  LET sel == SelectSeq(v, LAMBDA s : /\ HasPrefix(p, KeyOf(log, s))
                                     /\ InBounds(c, Strip(p, KeyOf(log, s))))
  IN IF c.rev THEN Reverse(sel) ELSE sel
=============================================================================

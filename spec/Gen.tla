-------------------------------- MODULE Gen ---------------------------------
(* Test behaviours generated from the specification: for each transition     *)
(* class of put and del (which repairs and splits happen, on which side, at  *)
(* which level, at which position), a tree on which that transition is next  *)
(* and the operation.  The trees are given by their shape; the harness       *)
(* builds the log (LogOf) and lets the real code take the step, which        *)
(* Trace.tla then judges.                                                    *)
(*                                                                          *)
(* Written to $OUT as one scenario per line; $WHICH selects the family.      *)
EXTENDS Shapes, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Leaf(n) == [n |-> n, c |-> <<>>]
Inner(cs) == [n |-> Len(cs) - 1, c |-> cs]

(* every tree of height at most 2 whose root has c children *)
Sizes == MinKeys..MaxKeys
Flat1 == {Leaf(n) : n \in 0..MaxKeys}
Height2(c) == {Inner([i \in 1..c |-> Leaf(f[i])]) : f \in [1..c -> Sizes]}

(* A child sequence of length c: position i holds `me`, its neighbours `lf` *)
(* and `rt`, the rest `other`.                                               *)
Around(c, i, me, lf, rt, other) ==
  [j \in 1..c |-> IF j = i THEN me ELSE IF j = i - 1 THEN lf ELSE IF j = i + 1 THEN rt ELSE other]

Near == {MinKeys, MinKeys + 1}          \* cannot / can give a key away
MinLeaf == Leaf(MinKeys)
MinMid(k) == Inner([j \in 1..(k + 1) |-> MinLeaf])
Edges(c) == {1, (c + 1) \div 2, c}      \* first, middle, last

(* An inner node of k keys whose child at i2 is a leaf of n keys between      *)
(* neighbours of a and b keys.                                               *)
Mid(k, i2, n, a, b) == Inner(Around(k + 1, i2, Leaf(n), Leaf(a), Leaf(b), MinLeaf))

(* height 2: target leaf at i *)
Fam2 == UNION {
  {[shape |-> Inner(Around(c, i, Leaf(n), Leaf(a), Leaf(b), MinLeaf)), path |-> <<i>>]
     : i \in 1..c, n \in {MinKeys, MinKeys + 1, MaxKeys}, a \in Near, b \in Near}
  : c \in {2, 3, 5, MaxKeys + 1}}

(* height 3: root of c children, target inner node at i1 with k keys, target *)
(* leaf at i2 in it                                                          *)
Fam3 == UNION {
  {[shape |-> Inner(Around(c, i1, Mid(k, i2, n, a, b), MinMid(la), MinMid(lb), MinMid(MinKeys))),
    path |-> <<i1, i2>>]
     : i1 \in Edges(c), k \in {MinKeys, MinKeys + 1, MaxKeys}, i2 \in {1, 3, 5, MaxKeys + 1},
       n \in {MinKeys, MaxKeys}, a \in Near, b \in Near, la \in Near, lb \in Near}
  : c \in {2, 3}}
Fam3Ok == {f \in Fam3 : f.path[2] <= Len(f.shape.c[f.path[1]].c)}
(* a full root above, for splits that go all the way up *)
Fam3Full ==
  {[shape |-> Inner(Around(MaxKeys + 1, i1, Mid(MaxKeys, i2, MaxKeys, MinKeys, MinKeys),
                           MinMid(MinKeys), MinMid(MinKeys), MinMid(MinKeys))),
    path |-> <<i1, i2>>] : i1 \in {1, 5, MaxKeys + 1}, i2 \in {1, 5, MaxKeys + 1}}

(* a thin tree of height 4: repairs and splits through three levels *)
MinMid3 == Inner([j \in 1..(MinKeys + 1) |-> MinMid(MinKeys)])
Fam4 ==
  {[shape |-> Inner(Around(2, i0,
                 Inner(Around(k0 + 1, i1, Mid(k, i2, n, a, MinKeys), MinMid(MinKeys), MinMid(MinKeys), MinMid(MinKeys))),
                 MinMid3, MinMid3, MinMid3)),
    path |-> <<i0, i1, i2>>]
     : i0 \in {1, 2}, k0 \in {MinKeys, MaxKeys}, i1 \in {1, 3, 5}, k \in {MinKeys, MaxKeys}, i2 \in {1, 3, 5},
       n \in {MinKeys, MaxKeys}, a \in Near}

(* ranks of the target leaf's keys, and of the keys that bound it *)
RECURSIVE Descend(_, _)
Descend(p, path) == IF path = <<>> THEN p ELSE Descend(p.c[Head(path)], Tail(path))
Bounds(p, path) ==      \* ranks of inner keys next to the path
  UNION {LET nd == Descend(p, SubSeq(path, 1, d - 1)) IN
         {nd.k[j] : j \in {path[d] - 1, path[d]} \cap DOMAIN nd.k} : d \in DOMAIN path}
RECURSIVE RanksOf(_)
RanksOf(p) == {p.k[i] : i \in DOMAIN p.k} \cup UNION {RanksOf(p.c[i]) : i \in DOMAIN p.c}

PutOp(k, v) == [n |-> "put", k |-> k, v |-> v, sub |-> <<>>]
DelOp(k) == [n |-> "del", k |-> k, sub |-> <<>>]
GetOp(k) == [n |-> "get", k |-> k, sub |-> <<>>]

(* delete each, overwrite some, insert at gaps *)
OpsAt(f) ==
  LET p  == Place(f.shape, 1)
      lf == Descend(p, f.path).k
      bs == Bounds(p, f.path)
      ks == {lf[i] : i \in DOMAIN lf}
      some == {lf[i] : i \in {1, Len(lf)}}
      gaps == {lf[1] - 1} \cup {lf[i] : i \in {1, (Len(lf) + 1) \div 2, Len(lf)}}
  IN {<<DelOp(SKey(r)), GetOp(SKey(r))>> : r \in some \cup {lf[(Len(lf) + 1) \div 2]} \cup bs}
       \cup {<<PutOp(SKey(r), <<<<1>>>>), GetOp(SKey(r))>> : r \in {lf[1]} \cup bs}
       \cup {<<PutOp(SGap(r), <<<<2>>>>), GetOp(SGap(r))>> : r \in gaps}
OpsAll(shape) ==
  LET n == SizeOf(shape) IN
  {<<DelOp(SKey(r)), GetOp(SKey(r))>> : r \in 1..n}
    \cup {<<PutOp(SGap(r), <<<<2>>>>), GetOp(SGap(r))>> : r \in 0..n}
    \cup {<<PutOp(SKey(r), <<>>), GetOp(SKey(r))>> : r \in 1..n}

Scen(shape, style, ops) ==
  [id |-> IOEnv.WHICH, raw |-> TRUE, init |-> [shape |-> <<shape>>, style |-> style],
   clients |-> <<[h |-> "w", ops |-> ops]>>]
OfFam(F, style) == UNION {{Scen(f.shape, style, o) : o \in OpsAt(f)} : f \in F}
OfAll(S, style) == UNION {{Scen(s, style, o) : o \in OpsAll(s)} : s \in S}

-----------------------------------------------------------------------------
(* Reads on a replica that holds exactly the blocks the read may need.       *)
Fills(lg, blocks) ==
  <<[n |-> "x_rlen", len |-> Len(lg)]>>
    \o [i \in 1..Cardinality(blocks) |-> [n |-> "x_fill", i |-> SetToSortSeq(blocks, <)[i]]]
RScen(shape, style, ops) ==
  [id |-> IOEnv.WHICH, raw |-> FALSE, init |-> [shape |-> <<shape>>, style |-> style],
   clients |-> <<[h |-> "r", ops |-> ops]>>]
Inf(t) == [t |-> t, k |-> <<>>]
FinB(k) == [t |-> "fin", k |-> k]
Conf(lo, li, hi, ui, rv) == [min |-> lo, mini |-> li, max |-> hi, maxi |-> ui, rev |-> rv]
TallOp(c) == [n |-> "tall", conf |-> c, sub |-> <<>>, lim |-> 0]
LocalGet(shape, style, key) ==
  LET lg == LogOf(shape, style) IN RScen(shape, style, Fills(lg, PathBlocks(lg, key)) \o <<GetOp(key)>>)
LocalRange(shape, style, c) ==
  LET lg == LogOf(shape, style) IN RScen(shape, style, Fills(lg, RangeBlocks(lg, c)) \o <<TallOp(c)>>)
LocalsAt(shape, style, rs) ==      \* around the ranks rs
  {LocalGet(shape, style, SKey(r)) : r \in rs} \cup {LocalGet(shape, style, SGap(r)) : r \in rs}
    \cup UNION {{LocalRange(shape, style, Conf(FinB(b), li, FinB(SKey(r + 2)), ~li, rv))
                   : b \in {z \in UNION {{SKey(q), SGap(q)} : q \in rs} : Lt(z, SKey(r + 2))},
                     li \in BOOLEAN, rv \in BOOLEAN} : r \in rs}
    \cup {LocalRange(shape, style, Conf(Inf("neg"), TRUE, FinB(SKey(r)), li, rv)) : r \in rs, li \in BOOLEAN, rv \in BOOLEAN}
    \cup {LocalRange(shape, style, Conf(FinB(SGap(r)), li, Inf("pos"), TRUE, rv)) : r \in rs, li \in BOOLEAN, rv \in BOOLEAN}
LocalsOf(F) == UNION {LET p == Place(f.shape, 1)
                          lf == Descend(p, f.path).k
                      IN LocalsAt(f.shape, "spread", {lf[1], lf[Len(lf)]} \cup Bounds(p, f.path)) : f \in F}
Local1 == UNION {LocalsAt(s, "spread", 1..SizeOf(s)) : s \in {Inner(<<Leaf(4), Leaf(5)>>), Inner(<<Leaf(4), Leaf(4), Leaf(6)>>)}}
            \cup UNION {LocalsAt(s, "batch", {1, 3, 5, 6}) : s \in {Leaf(8), Inner(<<Leaf(4), Leaf(5)>>)}}
Thin == {f \in Fam3Ok : f.path[1] = 2 /\ f.path[2] \in {1, 3} /\ Len(f.shape.c) = 3 /\ f.shape.c[1].n = MinKeys
                         /\ f.shape.c[2].n = MinKeys + 1 /\ f.shape.c[3].n = MinKeys}

Out == CASE IOEnv.WHICH = "local1" -> Local1
         [] IOEnv.WHICH = "local2" -> LocalsOf({f \in Thin : f.shape.c[2].c[f.path[2]].n = MinKeys})
         [] IOEnv.WHICH = "local3" -> LocalsOf(Thin \cup {f \in Fam2 : f.path[1] = 2})
         [] IOEnv.WHICH = "all1"  -> OfAll(Flat1, "spread") \cup OfAll(Flat1, "batch")
         [] IOEnv.WHICH = "all2"  -> OfAll(Height2(2), "spread")
         [] IOEnv.WHICH = "all3"  -> OfAll(Height2(3), "spread")
         [] IOEnv.WHICH = "fam2"  -> OfFam(Fam2, "batch")
         [] IOEnv.WHICH = "fam3"  -> OfFam(Fam3Ok, "spread")
         [] IOEnv.WHICH = "full3" -> OfFam(Fam3Full, "batch")
         [] IOEnv.WHICH = "fam4"  -> OfFam(Fam4, "batch")

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Out))
ASSUME PrintT(<<"scenarios", Cardinality(Out)>>)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

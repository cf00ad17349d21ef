------------------------------- MODULE BTree -------------------------------
(* The append-only B-tree kept in a log of blocks.                          *)
(*                                                                          *)
(* A log is a sequence of blocks; block number s (from 0) is log[s+1].      *)
(* Block 0 is the header.  Every other block is                             *)
(*    [h |-> FALSE, key, val, idx]                                          *)
(* where idx is the sequence of tree nodes this block introduced, its root  *)
(* first.  A node is [k |-> <<seq,...>>, c |-> <<<<seq, offset>>,...>>]:     *)
(* keys are named by the block that put them, children by block and offset. *)
(* The tree of a log is the one whose root is idx[1] of its last block.     *)
(*                                                                          *)
(* The operators below are the single source of truth for what put and del  *)
(* write; they follow the algorithm of hyperbee (JS and Rust): split at     *)
(* MaxKeys+1, replace a removed internal key from the fuller neighbouring   *)
(* leaf, repair by rotate-left, rotate-right, merge-left, merge-right.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Bytes

CONSTANT MaxKeys
MinKeys == MaxKeys \div 2

KeyOf(log, s) == log[s + 1].key
ValOf(log, s) == log[s + 1].val
HasRoot(log)  == Len(log) > 1
NodeAt(log, r) == log[r[1] + 1].idx[r[2] + 1]
RootRef(log)  == <<Len(log) - 1, 0>>

-----------------------------------------------------------------------------
(* Where a key is, or would be, among the keys of one node:                 *)
(* [f |-> found?, i |-> position of the key / of the child to descend into]  *)
RECURSIVE PosFrom(_, _, _, _)
PosFrom(log, ks, key, i) ==
  IF i > Len(ks) THEN [f |-> FALSE, i |-> i]
  ELSE LET o == KeyOf(log, ks[i]) IN
       IF o = key THEN [f |-> TRUE, i |-> i]
       ELSE IF Lt(key, o) THEN [f |-> FALSE, i |-> i]
       ELSE PosFrom(log, ks, key, i + 1)
Pos(log, ks, key) == PosFrom(log, ks, key, 1)

(* The block that holds `key`, as <<seq>>, or <<>>. *)
RECURSIVE FindIn(_, _, _)
FindIn(log, r, key) ==
  LET nd == NodeAt(log, r)
      p  == Pos(log, nd.k, key)
  IN IF p.f THEN <<nd.k[p.i]>>
     ELSE IF nd.c = <<>> THEN <<>>
     ELSE FindIn(log, nd.c[p.i], key)
Find(log, key) == IF HasRoot(log) THEN FindIn(log, RootRef(log), key) ELSE <<>>

-----------------------------------------------------------------------------
(* Nodes while an operation rewrites them: a child is a pointer into the    *)
(* log or a new node.                                                       *)
Old(r)  == [new |-> FALSE, r |-> r]
New(nd) == [new |-> TRUE, nd |-> nd]
Load(log, r) == LET nd == NodeAt(log, r) IN [k |-> nd.k, c |-> [i \in DOMAIN nd.c |-> Old(nd.c[i])]]
Deref(log, ch) == IF ch.new THEN ch.nd ELSE Load(log, ch.r)
IsLeaf(nd) == nd.c = <<>>

(* Lay the new nodes out in pre-order, the order JS hyperbee writes.        *)
(* Result: [lv |-> nodes in order, first is nd itself].                      *)
RECURSIVE Flat(_, _, _), FlatKids(_, _, _, _, _, _)
Flat(nd, seq, off) ==
  LET r == FlatKids(nd.c, 1, seq, off + 1, <<>>, <<>>)
  IN <<[k |-> nd.k, c |-> r.refs]>> \o r.lv
FlatKids(cs, i, seq, off, refs, lv) ==
  IF i > Len(cs) THEN [refs |-> refs, lv |-> lv]
  ELSE IF cs[i].new
       THEN LET sub == Flat(cs[i].nd, seq, off)
            IN FlatKids(cs, i + 1, seq, off + Len(sub), Append(refs, <<seq, off>>), lv \o sub)
       ELSE FlatKids(cs, i + 1, seq, off, Append(refs, cs[i].r), lv)

Entry(log, key, val, root) ==
  [h |-> FALSE, key |-> key, val |-> val, idx |-> Flat(root, Len(log), 0)]
HeaderBlock(meta) == [h |-> TRUE, key |-> <<>>, val |-> <<>>, idx |-> <<>>, meta |-> meta]

-----------------------------------------------------------------------------
(* put *)
One(nd) == [split |-> FALSE, nd |-> nd]
SplitIfFull(nd) ==
  IF Len(nd.k) <= MaxKeys THEN One(nd)
  ELSE LET km == Len(nd.k) \div 2
           cm == Len(nd.c) \div 2
       IN [split |-> TRUE,
           l   |-> [k |-> SubSeq(nd.k, 1, km), c |-> SubSeq(nd.c, 1, cm)],
           mid |-> nd.k[km + 1],
           r   |-> [k |-> SubSeq(nd.k, km + 2, Len(nd.k)), c |-> SubSeq(nd.c, cm + 1, Len(nd.c))]]

RECURSIVE PutIn(_, _, _, _)
PutIn(log, nd, key, seq) ==
  LET p == Pos(log, nd.k, key) IN
  IF p.f THEN One([nd EXCEPT !.k[p.i] = seq])
  ELSE IF IsLeaf(nd) THEN SplitIfFull([nd EXCEPT !.k = InsertAt(nd.k, p.i, seq)])
  ELSE LET r == PutIn(log, Deref(log, nd.c[p.i]), key, seq) IN
       IF r.split
       THEN SplitIfFull([k |-> InsertAt(nd.k, p.i, r.mid),
                         c |-> SubSeq(nd.c, 1, p.i - 1) \o <<New(r.l), New(r.r)>>
                                \o SubSeq(nd.c, p.i + 1, Len(nd.c))])
       ELSE One([nd EXCEPT !.c[p.i] = New(r.nd)])

PutRoot(log, key) ==
  IF ~HasRoot(log) THEN [k |-> <<Len(log)>>, c |-> <<>>]
  ELSE LET r == PutIn(log, Load(log, RootRef(log)), key, Len(log))
       IN IF r.split THEN [k |-> <<r.mid>>, c |-> <<New(r.l), New(r.r)>>] ELSE r.nd

PutBlock(log, key, val) == Entry(log, key, val, PutRoot(log, key))

-----------------------------------------------------------------------------
(* del *)
RotateLeft(log, nd, i) ==       \* take from the left sibling
  LET d == Deref(log, nd.c[i - 1])
      x == Deref(log, nd.c[i])
      x2 == [k |-> <<nd.k[i - 1]>> \o x.k,
             c |-> IF IsLeaf(d) THEN x.c ELSE <<Last(d.c)>> \o x.c]
      d2 == [k |-> Front(d.k), c |-> IF IsLeaf(d) THEN <<>> ELSE Front(d.c)]
  IN [k |-> [nd.k EXCEPT ![i - 1] = Last(d.k)],
      c |-> [nd.c EXCEPT ![i - 1] = New(d2), ![i] = New(x2)]]
RotateRight(log, nd, i) ==      \* take from the right sibling
  LET d == Deref(log, nd.c[i + 1])
      x == Deref(log, nd.c[i])
      x2 == [k |-> Append(x.k, nd.k[i]),
             c |-> IF IsLeaf(d) THEN x.c ELSE Append(x.c, Head(d.c))]
      d2 == [k |-> Tail(d.k), c |-> IF IsLeaf(d) THEN <<>> ELSE Tail(d.c)]
  IN [k |-> [nd.k EXCEPT ![i] = Head(d.k)],
      c |-> [nd.c EXCEPT ![i + 1] = New(d2), ![i] = New(x2)]]
MergeAt(log, nd, i) ==          \* children i and i+1 become one
  LET a == Deref(log, nd.c[i])
      b == Deref(log, nd.c[i + 1])
  IN [k |-> RemoveAt(nd.k, i),
      c |-> SubSeq(nd.c, 1, i - 1)
              \o <<New([k |-> a.k \o <<nd.k[i]>> \o b.k, c |-> a.c \o b.c])>>
              \o SubSeq(nd.c, i + 2, Len(nd.c))]

NKeys(log, ch) == Len(Deref(log, ch).k)
(* which repair applies to child i: also names the transition class *)
RepairKind(log, nd, i) ==
  IF NKeys(log, nd.c[i]) >= MinKeys THEN "none"
  ELSE IF i > 1 /\ NKeys(log, nd.c[i - 1]) > MinKeys THEN "rotl"
  ELSE IF i < Len(nd.c) /\ NKeys(log, nd.c[i + 1]) > MinKeys THEN "rotr"
  ELSE IF i > 1 THEN "mergel"
  ELSE "merger"
Fix(log, nd, i) ==
  LET k == RepairKind(log, nd, i) IN
  CASE k = "none"   -> nd
    [] k = "rotl"   -> RotateLeft(log, nd, i)
    [] k = "rotr"   -> RotateRight(log, nd, i)
    [] k = "mergel" -> MergeAt(log, nd, i - 1)
    [] OTHER        -> MergeAt(log, nd, i)

RECURSIVE RightLeafLen(_, _), LeftLeafLen(_, _), TakeMax(_, _), TakeMin(_, _), DelIn(_, _, _)
RightLeafLen(log, nd) == IF IsLeaf(nd) THEN Len(nd.k) ELSE RightLeafLen(log, Deref(log, Last(nd.c)))
LeftLeafLen(log, nd)  == IF IsLeaf(nd) THEN Len(nd.k) ELSE LeftLeafLen(log, Deref(log, Head(nd.c)))
TakeMax(log, nd) ==
  IF IsLeaf(nd) THEN [key |-> Last(nd.k), nd |-> [nd EXCEPT !.k = Front(nd.k)]]
  ELSE LET i == Len(nd.c)
           r == TakeMax(log, Deref(log, nd.c[i]))
       IN [key |-> r.key, nd |-> Fix(log, [nd EXCEPT !.c[i] = New(r.nd)], i)]
TakeMin(log, nd) ==
  IF IsLeaf(nd) THEN [key |-> Head(nd.k), nd |-> [nd EXCEPT !.k = Tail(nd.k)]]
  ELSE LET r == TakeMin(log, Deref(log, nd.c[1]))
       IN [key |-> r.key, nd |-> Fix(log, [nd EXCEPT !.c[1] = New(r.nd)], 1)]
DelIn(log, nd, key) ==
  LET p == Pos(log, nd.k, key) IN
  IF ~p.f
  THEN LET r == DelIn(log, Deref(log, nd.c[p.i]), key)
       IN Fix(log, [nd EXCEPT !.c[p.i] = New(r)], p.i)
  ELSE IF IsLeaf(nd) THEN [nd EXCEPT !.k = RemoveAt(nd.k, p.i)]
  ELSE LET lft == Deref(log, nd.c[p.i])
           rgt == Deref(log, nd.c[p.i + 1])
       IN IF RightLeafLen(log, lft) < LeftLeafLen(log, rgt)
          THEN LET r == TakeMin(log, rgt)
               IN Fix(log, [k |-> [nd.k EXCEPT ![p.i] = r.key],
                            c |-> [nd.c EXCEPT ![p.i + 1] = New(r.nd)]], p.i + 1)
          ELSE LET r == TakeMax(log, lft)
               IN Fix(log, [k |-> [nd.k EXCEPT ![p.i] = r.key],
                            c |-> [nd.c EXCEPT ![p.i] = New(r.nd)]], p.i)

(* key must be present *)
DelRoot(log, key) ==
  LET r == DelIn(log, Load(log, RootRef(log)), key)
  IN IF r.k = <<>> /\ Len(r.c) = 1 THEN Deref(log, r.c[1]) ELSE r
DelBlock(log, key) == Entry(log, key, <<>>, DelRoot(log, key))

-----------------------------------------------------------------------------
(* The contents of a tree: key blocks in key order (assumes well-formedness) *)
RECURSIVE InOrderOf(_, _), InOrderKids(_, _, _)
InOrderOf(log, r) ==
  LET nd == NodeAt(log, r) IN IF nd.c = <<>> THEN nd.k ELSE InOrderKids(log, nd, 1)
InOrderKids(log, nd, i) ==
  IF i = Len(nd.c) THEN InOrderOf(log, nd.c[i])
  ELSE InOrderOf(log, nd.c[i]) \o <<nd.k[i]>> \o InOrderKids(log, nd, i + 1)
InOrder(log) == IF HasRoot(log) THEN InOrderOf(log, RootRef(log)) ELSE <<>>

(* Blocks reachable from a node: those holding its nodes and keys *)
RECURSIVE ReachOf(_, _)
ReachOf(log, r) ==
  LET nd == NodeAt(log, r)
  IN {r[1]} \cup {nd.k[i] : i \in DOMAIN nd.k}
       \cup UNION {ReachOf(log, nd.c[i]) : i \in DOMAIN nd.c}
Reach(log) == IF HasRoot(log) THEN ReachOf(log, RootRef(log)) ELSE {}

(* Blocks a lookup of key may need: nodes on its path, and their keys *)
RECURSIVE PathBlocksOf(_, _, _)
PathBlocksOf(log, r, key) ==
  LET nd == NodeAt(log, r)
      p  == Pos(log, nd.k, key)
  IN {r[1]} \cup {nd.k[i] : i \in DOMAIN nd.k}
       \cup (IF p.f \/ nd.c = <<>> THEN {} ELSE PathBlocksOf(log, nd.c[p.i], key))
PathBlocks(log, key) == IF HasRoot(log) THEN PathBlocksOf(log, RootRef(log), key) ELSE {}

-----------------------------------------------------------------------------
(* Well-formedness of the tree of a log.  Depth is -1 for anything broken;  *)
(* evaluated top-down so that a dangling pointer never gets dereferenced.   *)
RefOk(log, r) == /\ r[1] \in 1..(Len(log) - 1)
                 /\ ~log[r[1] + 1].h
                 /\ r[2] \in 0..(Len(log[r[1] + 1].idx) - 1)
KeyRefOk(log, s) == s \in 1..(Len(log) - 1) /\ ~log[s + 1].h

SortedKeys(log, ks) == \A i \in 1..(Len(ks) - 1) : Lt(KeyOf(log, ks[i]), KeyOf(log, ks[i + 1]))

RECURSIVE DepthOf(_, _, _)
DepthOf(log, r, isRoot) ==
  IF ~RefOk(log, r) THEN -1
  ELSE LET nd == NodeAt(log, r) IN
       IF \/ \E i \in DOMAIN nd.k : ~KeyRefOk(log, nd.k[i])
          \/ Len(nd.k) > MaxKeys
          \/ ~isRoot /\ Len(nd.k) < MinKeys
          \/ nd.c # <<>> /\ (Len(nd.c) # Len(nd.k) + 1 \/ nd.k = <<>>)
       THEN -1
       ELSE IF nd.c = <<>> THEN 1
       ELSE LET ds == {DepthOf(log, nd.c[i], FALSE) : i \in DOMAIN nd.c}
            IN IF Cardinality(ds) = 1 /\ -1 \notin ds THEN 1 + (CHOOSE d \in ds : TRUE) ELSE -1
(* References that can be followed safely: no dangling pointer anywhere *)
RECURSIVE SafeRef(_, _, _)
SafeRef(log, r, fuel) ==
  /\ fuel > 0
  /\ RefOk(log, r)
  /\ LET nd == NodeAt(log, r) IN
       /\ \A i \in DOMAIN nd.k : KeyRefOk(log, nd.k[i])
       /\ nd.c = <<>> \/ Len(nd.c) = Len(nd.k) + 1
       /\ \A i \in DOMAIN nd.c : SafeRef(log, nd.c[i], fuel - 1)
Safe(log) == HasRoot(log) => SafeRef(log, RootRef(log), 12)

Height(log) == IF HasRoot(log) THEN DepthOf(log, RootRef(log), TRUE) ELSE 0
WellFormed(log) ==
  HasRoot(log) => /\ DepthOf(log, RootRef(log), TRUE) # -1
                  /\ SortedKeys(log, InOrder(log))
=============================================================================

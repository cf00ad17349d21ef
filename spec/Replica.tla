------------------------------- MODULE Replica -------------------------------
(* A store and a copy of it elsewhere.  The copy learns of more of the log   *)
(* from time to time, and its blocks arrive in any order, each at any time;  *)
(* a copy may also drop blocks.  A reader of the copy looks at the length it  *)
(* knows, goes down the tree node by node, and reports an error when a block *)
(* it needs is not there.  What was read stays in its cache.                 *)
(*                                                                          *)
(* Cached and Stale describe wrong designs: remembering the length once       *)
(* read; taking a missing block for an empty one.                            *)
EXTENDS Maps, TLC

CONSTANTS Keys, MaxLen, MaxReads, Drops,
          StaleLen,  \* the reader keeps the first length it saw
          Blind      \* a missing child is taken for the end of the tree

VARIABLES log, vs, rl, have, cache, known, rd, left
vars == <<log, vs, rl, have, cache, known, rd, left>>

Idle == [pc |-> "idle"]
View(n) == IF n = 0 THEN <<>> ELSE vs[n]

Init == /\ log = <<HeaderBlock(<<>>)>> /\ vs = <<<<>>>>
        /\ rl = 0 /\ have = {} /\ cache = {} /\ known = 0
        /\ rd = Idle /\ left = MaxReads

(* the source *)
Put(k) == /\ Len(log) < MaxLen
          /\ LET l2 == Append(log, PutBlock(log, k, <<>>))
             IN log' = l2 /\ vs' = Append(vs, MPut(l2, vs[Len(log)], k, Len(log)))
          /\ UNCHANGED <<rl, have, cache, known, rd, left>>
Del(k) == /\ Len(log) < MaxLen /\ Find(log, k) # <<>>
          /\ LET l2 == Append(log, DelBlock(log, k))
             IN log' = l2 /\ vs' = Append(vs, MDel(l2, vs[Len(log)], k))
          /\ UNCHANGED <<rl, have, cache, known, rd, left>>

(* the way to the copy *)
Learn == /\ \E n \in (rl + 1)..Len(log) : rl' = n
         /\ UNCHANGED <<log, vs, have, cache, known, rd, left>>
Arrive == /\ \E b \in (0..(rl - 1)) \ have : have' = have \cup {b}
          /\ UNCHANGED <<log, vs, rl, cache, known, rd, left>>
Drop == /\ Drops /\ \E b \in have : have' = have \ {b}
        /\ UNCHANGED <<log, vs, rl, cache, known, rd, left>>

(* the reader: ghost fields want (the key's answer at the version it opened)  *)
(* and lacked (a block it needs was missing at some moment of the call)       *)
There(b) == b \in have \/ b \in cache
Call(k) == /\ rd.pc = "idle" /\ left > 0
           /\ LET n == IF StaleLen /\ known > 0 THEN known ELSE rl
              IN /\ known' = n
                 /\ rd' = [pc |-> IF n <= 1 THEN "answer" ELSE "read", k |-> k, at |-> rl, base |-> n,
                           ref |-> <<n - 1, 0>>, res |-> <<>>, lacked |-> FALSE]
           /\ left' = left - 1
           /\ UNCHANGED <<log, vs, rl, have, cache>>
Lacking == LET need == PathBlocks(SubSeq(log, 1, rd.base), rd.k)
           IN \E b \in need : b \notin have
Read ==
  /\ rd.pc = "read"
  /\ LET nd == NodeAt(log, rd.ref)
         need == {rd.ref[1]} \cup {nd.k[i] : i \in DOMAIN nd.k}
         p == Pos(log, nd.k, rd.k)
     IN IF \E b \in need : ~There(b)
        THEN /\ rd' = [rd EXCEPT !.pc = IF Blind /\ rd.ref[1] # rd.base - 1 THEN "answer" ELSE "error", !.lacked = Lacking]
             /\ UNCHANGED cache
        ELSE /\ cache' = cache \cup need
             /\ rd' = IF p.f THEN [rd EXCEPT !.pc = "answer", !.res = <<nd.k[p.i]>>]
                      ELSE IF nd.c = <<>> THEN [rd EXCEPT !.pc = "answer"]
                      ELSE [rd EXCEPT !.ref = nd.c[p.i]]
  /\ UNCHANGED <<log, vs, rl, have, known, left>>
Return == /\ rd.pc \in {"answer", "error"} /\ rd' = Idle
          /\ UNCHANGED <<log, vs, rl, have, cache, known, left>>
Restart == /\ cache # {} /\ cache' = {} /\ known' = 0 /\ rd' = Idle
           /\ UNCHANGED <<log, vs, rl, have, left>>

Next == \/ \E k \in Keys : Put(k) \/ Del(k) \/ Call(k)
        \/ Learn \/ Arrive \/ Drop \/ Read \/ Return \/ Restart
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Learn) /\ WF_vars(Arrive) /\ WF_vars(Read) /\ WF_vars(Return)

-----------------------------------------------------------------------------
(* every prefix of the log is a store, with the contents it had then *)
PrefixesAreStores == \A n \in 1..Len(log) :
  LET lg == SubSeq(log, 1, n) IN WellFormed(lg) /\ InOrder(lg) = vs[n]
(* right, at a version it could know while the call was in progress ... *)
RightOrError == rd.pc = "answer" => \E j \in rd.at..rl : rd.res = MFind(log, View(j), rd.k)
(* ... and an error only for want of a block on the path *)
OnlyOwnPath == rd.pc = "error" => rd.lacked
(* with all blocks there, errors and old answers are over *)
Complete == rl = Len(log) /\ have = 0..(rl - 1)
NoErrorWhenComplete == [][Complete /\ rd.pc = "read" => rd'.pc # "error"]_vars
CatchesUp == [](Len(log) = MaxLen => <>Complete)
=============================================================================

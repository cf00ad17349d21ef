------------------------------ MODULE Hyperbee ------------------------------
(* The sequential store: one handle, one operation at a time.  State: the   *)
(* log.  Ghost: the map the caller believes in (m) and the last operation   *)
(* with its result (out).  Each action is one API call.                     *)
EXTENDS Maps, TLC

CONSTANTS Keys, Vals, NULL
VARIABLES log, m, out

vars == <<log, m, out>>

Absent == [p |-> FALSE]
Present(s, v) == [p |-> TRUE, seq |-> s, val |-> v]

Init == log = <<>> /\ m = [k \in Keys |-> Absent] /\ out = [op |-> "init"]

(* the header is written by the first effective write, or explicitly *)
WithHeader == IF log = <<>> THEN <<HeaderBlock(<<>>)>> ELSE log

CreateHeader ==
  IF log = <<>>
  THEN log' = <<HeaderBlock(<<>>)>> /\ out' = [op |-> "hdr", ok |-> TRUE] /\ UNCHANGED m
  ELSE out' = [op |-> "hdr", ok |-> FALSE] /\ UNCHANGED <<log, m>>

Get(k) ==
  /\ out' = LET f == Find(log, k) IN
            [op |-> "get", k |-> k,
             r |-> IF f = <<>> THEN Absent ELSE Present(f[1], ValOf(log, f[1]))]
  /\ UNCHANGED <<log, m>>

(* put with a compare-and-swap predicate that answered `ans` *)
Put(k, v, ans) ==
  LET l0  == WithHeader
      old == Find(l0, k)
      seq == Len(l0)
  IN IF ans
     THEN /\ log' = Append(l0, PutBlock(l0, k, v))
          /\ m' = [m EXCEPT ![k] = Present(seq, v)]
          /\ out' = [op |-> "put", k |-> k, old |-> old, new |-> <<seq>>]
     ELSE /\ log' = l0
          /\ out' = [op |-> "put", k |-> k, old |-> old, new |-> <<>>]
          /\ UNCHANGED m

Del(k, ans) ==
  LET old == Find(log, k) IN
  IF old = <<>> THEN out' = [op |-> "del", k |-> k, r |-> <<>>] /\ UNCHANGED <<log, m>>
  ELSE IF ~ans THEN out' = [op |-> "del", k |-> k, r |-> <<FALSE, old[1]>>] /\ UNCHANGED <<log, m>>
  ELSE /\ log' = Append(log, DelBlock(log, k))
       /\ m' = [m EXCEPT ![k] = Absent]
       /\ out' = [op |-> "del", k |-> k, r |-> <<TRUE, old[1]>>]

Next == \/ CreateHeader
        \/ \E k \in Keys : Get(k)
        \/ \E k \in Keys, v \in Vals, ans \in BOOLEAN : Put(k, v, ans)
        \/ \E k \in Keys, ans \in BOOLEAN : Del(k, ans)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
TreeOk == WellFormed(log)

(* the tree of the log and the map agree, key by key and in order *)
SeqsOf(mm) == {mm[k].seq : k \in {x \in Keys : mm[x].p}}
Contents == LET v == InOrder(log) IN
  /\ {v[i] : i \in DOMAIN v} = SeqsOf(m)
  /\ Len(v) = Cardinality(SeqsOf(m))
  /\ \A k \in Keys : m[k].p => KeyOf(log, m[k].seq) = k /\ ValOf(log, m[k].seq) = m[k].val
  /\ \A k \in Keys : Find(log, k) = IF m[k].p THEN <<m[k].seq>> ELSE <<>>

(* abstract put/del on the view = concrete put/del on the tree *)
ViewsAgree ==
  \A k \in Keys :
     /\ LET l2 == Append(WithHeader, PutBlock(WithHeader, k, <<>>))
        IN InOrder(l2) = MPut(WithHeader, InOrder(WithHeader), k, Len(WithHeader))
     /\ Find(log, k) # <<>> =>
          LET l2 == Append(log, DelBlock(log, k)) IN InOrder(l2) = MDel(log, InOrder(log), k)

Answers ==
  /\ out.op = "get" => out.r = m[out.k]
HeaderOnce == \A i \in DOMAIN log : log[i].h <=> i = 1
NewBlocksOnly ==  \* a block points only to blocks before it, or to itself
  \A i \in DOMAIN log : ~log[i].h =>
     \A j \in DOMAIN log[i].idx :
        /\ \A x \in DOMAIN log[i].idx[j].k : log[i].idx[j].k[x] <= i - 1
        /\ \A x \in DOMAIN log[i].idx[j].c : log[i].idx[j].c[x][1] <= i - 1

(* every block of an entry is reachable from its root exactly once (no      *)
(* garbage nodes in a block): its nodes are the ones the operation changed   *)
NoGarbage ==
  Len(log) > 1 =>
    LET n == Len(log) - 1
        b == log[n + 1]
        refd == {0} \cup {r[2] : r \in UNION {{nd.c[i] : i \in {x \in DOMAIN nd.c : nd.c[x][1] = n}}
                                              : nd \in {b.idx[j] : j \in DOMAIN b.idx}}}
    IN refd = 0..(Len(b.idx) - 1)

AppendOnly == [][/\ Len(log') >= Len(log)
                 /\ SubSeq(log', 1, Len(log)) = log]_vars
OneBlock == [][Len(log') - Len(log) <= IF log = <<>> THEN 2 ELSE 1]_vars
NoopsWriteNothing ==
  [][(out'.op = "get" \/ (out'.op = "del" /\ (out'.r = <<>> \/ ~out'.r[1]))
      \/ (out'.op = "put" /\ out'.new = <<>> /\ log # <<>>)) => log' = log]_vars

-----------------------------------------------------------------------------
(* Two states whose trees have the same shape over the same keys behave     *)
(* alike: exploring one of each explores every reachable tree.              *)
RECURSIVE ShapeOf(_)
ShapeOf(r) == LET nd == NodeAt(log, r) IN
  [k |-> [i \in DOMAIN nd.k |-> KeyOf(log, nd.k[i])], c |-> [i \in DOMAIN nd.c |-> ShapeOf(nd.c[i])]]
Shape == IF HasRoot(log) THEN <<ShapeOf(RootRef(log))>> ELSE <<Len(log)>>
=============================================================================

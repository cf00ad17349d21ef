------------------------------ MODULE Iterator ------------------------------
(* The algorithm of a traversal: a stack of nodes under way, each with the   *)
(* children and keys of it that are still to be visited.  A node's items are *)
(* c1 k1 c2 k2 ... (of a leaf: k1 k2 ...), taken from the first that can be   *)
(* in the range; a key outside the range ends its node.  Meanwhile writes go *)
(* on, and blocks may be missing.                                           *)
(*                                                                          *)
(* What is to be shown: the items yielded are RangeOf the version the        *)
(* traversal was opened on, whatever is written later; with blocks missing,  *)
(* they are a part of it and an error is among them; and it reads only       *)
(* RangeBlocks.                                                             *)
EXTENDS Shapes, TLC

CONSTANTS Logs,      \* initial logs
          Confs(_),  \* ranges to try on a log
          Absences(_),  \* sets of missing blocks to try on a log
          MaxGrow    \* writes while the traversal is under way

VARIABLES log, base, conf, gone, stack, out, errs, read, done
vars == <<log, base, conf, gone, stack, out, errs, read, done>>

NodeItems(nd) ==
  IF nd.c = <<>> THEN [i \in DOMAIN nd.k |-> <<"k", i>>]
  ELSE [j \in 1..(2 * Len(nd.k) + 1) |-> IF j % 2 = 1 THEN <<"c", (j + 1) \div 2>> ELSE <<"k", j \div 2>>]

(* position of a bound among the keys of a node *)
PosOf(lg, nd, b) ==
  CASE b.t = "neg" -> [f |-> FALSE, i |-> 1]
    [] b.t = "pos" -> [f |-> FALSE, i |-> Len(nd.k) + 1]
    [] OTHER -> Pos(lg, nd.k, b.k)

(* the items of nd from where the range begins *)
FromBound(lg, nd, c) ==
  LET b    == IF c.rev THEN c.max ELSE c.min
      incl == IF c.rev THEN c.maxi ELSE c.mini
      p    == PosOf(lg, nd, b)
      its  == NodeItems(nd)
      leaf == nd.c = <<>>
      (* index in its of key i, of child i *)
      K(i) == IF leaf THEN i ELSE 2 * i
      C(i) == IF leaf THEN i ELSE 2 * i - 1
  IN IF ~c.rev
     THEN LET from == IF p.f THEN (IF incl THEN K(p.i) ELSE K(p.i) + 1) ELSE C(p.i)
          IN SubSeq(its, from, Len(its))
     ELSE LET to == IF p.f THEN (IF incl THEN K(p.i) ELSE K(p.i) - 1)
                    ELSE IF leaf THEN p.i - 1 ELSE C(p.i)
          IN Reverse(SubSeq(its, 1, to))

Frame(r, its) == [r |-> r, its |-> its]
(* opening a node reads it and its keys *)
Opens(lg, r) == {r[1]} \cup {NodeAt(lg, r).k[i] : i \in DOMAIN NodeAt(lg, r).k}
Missing(bs) == bs \cap gone # {}

Init ==
  \E lg \in Logs :
    /\ log = lg /\ base = Len(lg)
    /\ conf \in Confs(lg) /\ gone \in Absences(lg)
    /\ stack = <<>> /\ out = <<>> /\ errs = 0 /\ read = {} /\ done = FALSE

(* the child cannot be had, or cannot be searched: an error, and on *)
Enter(r, below) ==
  LET nd == NodeAt(log, r) IN
  IF r[1] \in gone THEN /\ errs' = errs + 1 /\ stack' = below /\ UNCHANGED read
  ELSE IF Missing(Opens(log, r))
  THEN /\ errs' = errs + 1 /\ stack' = below /\ read' = read \cup Opens(log, r)
  ELSE /\ stack' = Append(below, Frame(r, FromBound(log, nd, conf)))
       /\ read' = read \cup Opens(log, r) /\ UNCHANGED errs

Open == /\ stack = <<>> /\ read = {} /\ errs = 0 /\ ~done
        /\ IF base <= 1 THEN done' = TRUE /\ UNCHANGED <<stack, errs, read>>
           ELSE /\ Enter(<<base - 1, 0>>, <<>>)
                /\ done' = (stack' = <<>>)
        /\ UNCHANGED <<log, base, conf, gone, out>>

Visit ==
  /\ stack # <<>>
  /\ LET f == Last(stack)
         nd == NodeAt(log, f.r)
         below == [stack EXCEPT ![Len(stack)].its = Tail(@)]
     IN IF f.its = <<>>
        THEN /\ stack' = Front(stack) /\ UNCHANGED <<out, errs, read>>
        ELSE IF Head(f.its)[1] = "c"
        THEN Enter(nd.c[Head(f.its)[2]], below) /\ UNCHANGED out
        ELSE LET s == nd.k[Head(f.its)[2]] IN
             IF InBounds(conf, KeyOf(log, s))
             THEN out' = Append(out, s) /\ stack' = below /\ UNCHANGED <<errs, read>>
             ELSE stack' = Front(stack) /\ UNCHANGED <<out, errs, read>>
  /\ done' = (stack' = <<>>)
  /\ UNCHANGED <<log, base, conf, gone>>

Grow == /\ HasRoot(log) /\ Len(log) < base + MaxGrow
        /\ \E r \in 0..SizeOf(ShapeAt(log, RootRef(log))) :
             \/ log' = Append(log, PutBlock(log, SGap(r), <<>>))
             \/ r > 0 /\ Find(log, SKey(r)) # <<>> /\ log' = Append(log, DelBlock(log, SKey(r)))
        /\ UNCHANGED <<base, conf, gone, stack, out, errs, read, done>>

Next == Open \/ Visit \/ (~done /\ Grow)
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Visit)

-----------------------------------------------------------------------------
AtOpen == SubSeq(log, 1, base)
Want == RangeOf(log, InOrder(AtOpen), conf)
RECURSIVE PartOf(_, _, _, _)
PartOf(a, b, i, j) ==
  IF i > Len(a) THEN TRUE
  ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN PartOf(a, b, i + 1, j + 1) ELSE PartOf(a, b, i, j + 1)

NothingElse == IF errs = 0 THEN Len(out) <= Len(Want) /\ SubSeq(Want, 1, Len(out)) = out
               ELSE PartOf(out, Want, 1, 1)
AllOfIt == done /\ errs = 0 => out = Want
OnlyItsBlocks == read \subseteq RangeBlocks(AtOpen, conf)
NoFalseAlarm == errs > 0 => gone \cap RangeBlocks(AtOpen, conf) # {}
(* a block that holds an entry of the range is missing: there is an error *)
NoSilence == done /\ (\E i \in DOMAIN Want : Want[i] \in gone) => errs > 0
Finishes == <>done
=============================================================================

------------------------------- MODULE Trace --------------------------------
(* Conformance: recorded executions of the real code, judged event by event  *)
(* against the specification.                                               *)
(*                                                                          *)
(* Each trace is one scenario.  Its events are totally ordered: calls and    *)
(* returns of API operations by clients, the appends the code made to the    *)
(* log, the faults that were injected, crashes, arrivals of blocks.  A write *)
(* takes effect at its append; a read must agree with one version of the     *)
(* store between its call and its return; a traversal with the version it    *)
(* was opened on.                                                           *)
(*                                                                          *)
(* `Check` selects the aspects that are judged (one set per property).       *)
(* Whatever is not judged is followed as recorded.                           *)
EXTENDS Shapes, TLC, Json, IOUtils, SequencesExt

CONSTANT Check

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr,    \* which trace
          l,     \* next event of it
          log,   \* the writer's log
          vs,    \* vs[n]: the contents (a view) when the log had n blocks
          rl,    \* length of the replica's log (a prefix of the writer's) ...
          have,  \* ... and the blocks of it that are present
          cl,    \* per client: the operation in progress
          sm,    \* open traversals
          bad    \* what the current event did that the specification forbids
vars == <<tr, l, log, vs, rl, have, cl, sm, bad>>

Idle == [op |-> [n |-> "idle"]]
Ev == Traces[tr].ev[l]
(* a stretch of this trace's log that is left out of it (see Bytes) *)
Gap == LET e == Traces[tr].ev[1] IN IF e.e = "init" THEN e.gap ELSE NoGap

Init == /\ tr \in DOMAIN Traces
        /\ l = 1 /\ log = <<>> /\ vs = (0 :> <<>>) /\ rl = 0 /\ have = {}
        /\ cl = <<>> /\ sm = <<>> /\ bad = {}

-----------------------------------------------------------------------------
On(a) == a \in Check
(* aspect a is violated unless ok *)
Must(a, ok) == IF On(a) /\ ~ok THEN {a} ELSE {}

Client(c) == IF c \in DOMAIN cl THEN cl[c] ELSE Idle
FullKey(op) == IF op.sub = <<>> THEN op.k ELSE op.sub[1][1] \o op.sub[1][2] \o op.k
PrefixOf(op) == op.sub[1][1] \o op.sub[1][2]

HLen(h) == IF h = "r" THEN rl ELSE Len(log)
(* lengths of the handle's log while this call was in progress *)
Lens(x) == {j \in x.at..HLen(x.h) : j \in DOMAIN vs}
View(j) == vs[j]
Here == vs[Len(log)]

ItemOf(s, strip) == [s |-> s, k |-> SubSeq(KeyOf(log, s), strip + 1, Len(KeyOf(log, s))), v |-> ValOf(log, s)]
Expected(j, op) ==
  IF op.sub = <<>> THEN LET r == RangeOf(log, View(j), op.conf) IN [i \in DOMAIN r |-> ItemOf(r[i], 0)]
  ELSE LET p == PrefixOf(op)
           r == SubRange(log, View(j), p, op.conf)
       IN [i \in DOMAIN r |-> ItemOf(r[i], Len(p))]

KvOf(s) == <<s, KeyOf(log, s), ValOf(log, s)>>
OptKv(o) == IF o = <<>> THEN <<>> ELSE <<KvOf(o[1])>>

-----------------------------------------------------------------------------
(* Judging an append by client c, whose operation is x *)
Quiet(x) == x.op.n = "idle"
IsPut(op) == op.n \in {"put", "cput"}
IsDel(op) == op.n \in {"del", "cdel"}

HeaderBad(x, e) ==
  LET meta == IF x.op.n = "hdr" THEN x.op.meta ELSE <<>>
      b    == HeaderBlock(meta)
  IN Must("append", IsPut(x.op) \/ x.op.n = "hdr")
       \cup Must("hdr", e.b.h /\ e.b = b /\ EncBlock(b) = e.raw)

EntryBad(x, e, log2) ==
  LET n  == Len(log)
      k  == FullKey(x.op)
      put == IsPut(x.op)
      del == IsDel(x.op)
      known == (put \/ del) /\ n > 0
      old == IF known THEN MFind(log, Here, k) ELSE <<>>
      fine == known /\ x.app = <<>> /\ (del => old # <<>>)
      val == IF put THEN x.op.v ELSE <<>>
      after == IF put THEN MPut(log2, Here, k, n) ELSE MDel(log2, Here, k)
      s1 == Safe(log)
      s2 == Safe(log2)
      want == IF put THEN PutBlock(log, k, val) ELSE DelBlock(log, k)
      casOk == /\ Len(x.cas) = 1 /\ x.cas[1].ans
               /\ x.cas[1].old = OptKv(old)
               /\ put => x.cas[1].new = <<<<n, k, val>>>>
  IN Must("append", fine)
       \cup (IF ~fine THEN {}
             ELSE Must("map", /\ ~e.b.h /\ e.b.key = k /\ e.b.val = val
                              /\ s2 /\ InOrder(log2) = after)
                    \cup Must("struct", s1 /\ e.b = want)
                    \cup Must("enc", s1 /\ EncBlockOver(want, Gap) = e.raw)
                    \cup Must("wf", s2 /\ WellFormed(log2))
                    \cup (IF x.op.n \in {"cput", "cdel"} THEN Must("cas", casOk) ELSE {}))

(* the log as the specification goes on from it *)
Follow(x, e) ==
  IF e.b.h \/ Quiet(x) \/ ~(IsPut(x.op) \/ IsDel(x.op)) THEN Append(log, e.b)
  ELSE Append(log, [e.b EXCEPT !.key = FullKey(x.op), !.val = IF IsPut(x.op) THEN x.op.v ELSE <<>>])
FollowView(x, e, log2) ==
  IF e.b.h \/ Quiet(x) THEN Here
  ELSE IF IsPut(x.op) THEN MPut(log2, Here, FullKey(x.op), Len(log))
  ELSE IF IsDel(x.op) THEN MDel(log2, Here, FullKey(x.op))
  ELSE Here

DoAppend(e) ==
  LET x == Client(e.c)
      log2 == Follow(x, e)
      raw2 == Append(log, e.b)
  IN /\ bad' = IF Quiet(x) THEN Must("append", FALSE)
               ELSE IF log = <<>> THEN HeaderBad(x, e)
               ELSE EntryBad(x, e, raw2)
     /\ log' = log2
     /\ vs' = (Len(log) + 1 :> FollowView(x, e, log2)) @@ vs
     /\ cl' = IF Quiet(x) \/ log = <<>> THEN (IF Quiet(x) THEN cl ELSE (e.c :> [x EXCEPT !.hdr = TRUE]) @@ cl)
              ELSE (e.c :> [x EXCEPT !.app = Append(x.app, Len(log))]) @@ cl
     /\ UNCHANGED <<tr, rl, have, sm>>

-----------------------------------------------------------------------------
(* Judging a return *)

(* can this call have failed? *)
Missing(x, blocks) ==
  IF x.h = "r" THEN \E s \in blocks : s >= 1 /\ s \notin x.hv
  ELSE \E s \in blocks : s >= 1 /\ (-1 - s) \in x.hv
(* a fault was injected, or (for a write) the log it reads is damaged *)
(* or the log is a replica's, which cannot be written *)
Faulted(x) == x.gf \/ x.af \/ (x.h = "r" /\ x.op.n \in {"put", "cput", "del", "cdel", "hdr"}) \/ (\E s \in x.hv : s < 0 /\ x.op.n \in {"put", "cput", "del", "cdel"})
(* a range that can hold a key: no promise about the others *)
Proper(c) == /\ c.min.t # "pos" /\ c.max.t # "neg"
             /\ (c.min.t = "fin" /\ c.max.t = "fin") => Lt(c.min.k, c.max.k) \/ (c.min.k = c.max.k /\ c.mini /\ c.maxi)
NeedsOf(j, op) ==
  LET lg == SubSeq(log, 1, j) IN
  IF ~Safe(lg) THEN 1..j
  ELSE IF op.n = "get" THEN PathBlocks(lg, FullKey(op))
  ELSE IF op.n \in {"tall", "topen"} /\ op.sub = <<>> /\ Proper(op.conf) THEN RangeBlocks(lg, op.conf)
  ELSE Reach(lg)
ReadErrOk(x) == Faulted(x) \/ \E j \in Lens(x) : Missing(x, NeedsOf(j, x.op))
(* weaker: some block of the log is missing *)
ReadErrLax(x) == Faulted(x) \/ \E j \in Lens(x) : Missing(x, 1..(j - 1))

GetRes(j, k) == LET f == MFind(log, View(j), k) IN IF f = <<>> THEN <<>> ELSE <<<<f[1], ValOf(log, f[1])>>>>
GetBad(x, e) ==
  IF ~e.ok THEN Must("err", ReadErrLax(x)) \cup Must("local", ReadErrOk(x))
  ELSE Must("get", \E j \in Lens(x) : e.r = GetRes(j, FullKey(x.op)))

(* a write does not fail for damage that is out of its sight: what the      *)
(* current version does not reach                                           *)
WriteErrFair(x) ==
  \/ x.gf \/ x.af \/ x.h = "r"
  \/ \E j \in Lens(x) : LET lg == SubSeq(log, 1, j) IN Missing(x, IF Safe(lg) THEN Reach(lg) ELSE 1..j)

PutBad(x, e) ==
  IF ~e.ok THEN Must("err", Faulted(x)) \cup Must("local", WriteErrFair(x)) \cup Must("append", Len(x.app) <= 1)
  ELSE IF x.op.n = "put"
  THEN Must("append", Len(x.app) = 1)
         \cup (IF Len(x.app) # 1 THEN {}
               ELSE Must("putres", e.r.new = x.app[1]
                                   /\ e.r.old = MFind(log, View(x.app[1]), FullKey(x.op))))
  ELSE \* compare-and-swap
    LET k == FullKey(x.op)
        asked == Len(x.cas) = 1
        yes == asked /\ x.cas[1].ans
    IN Must("append", Len(x.app) = IF yes THEN 1 ELSE 0)
         \cup Must("cas", asked)
         \cup (IF yes
               THEN (IF Len(x.app) # 1 THEN {}
                     ELSE Must("cas", /\ e.r.new = x.app
                                      /\ e.r.old = MFind(log, View(x.app[1]), k)))
               ELSE Must("cas", asked =>
                        \E j \in Lens(x) : LET old == MFind(log, View(j), k) IN
                             /\ x.cas[1].old = OptKv(old)
                             /\ x.cas[1].new = <<<<IF j = 0 THEN 1 ELSE j, k, x.op.v>>>>
                             /\ e.r.new = <<>> /\ e.r.old = old))

DelBad(x, e) ==
  LET k == FullKey(x.op)
      absent == \E j \in Lens(x) : MFind(log, View(j), k) = <<>>
  IN
  IF ~e.ok THEN Must("err", Faulted(x)) \cup Must("local", WriteErrFair(x)) \cup Must("append", Len(x.app) <= 1)
  ELSE IF x.op.n = "del"
  THEN IF x.app = <<>> THEN Must("delres", e.r = <<>> /\ absent)
       ELSE Must("append", Len(x.app) = 1)
              \cup Must("delres", e.r = MFind(log, View(x.app[1]), k))
  ELSE LET asked == Len(x.cas) = 1
           yes == asked /\ x.cas[1].ans
       IN IF ~asked THEN Must("cas", x.cas = <<>> /\ e.r = <<>> /\ absent) \cup Must("append", x.app = <<>>)
          ELSE IF ~yes
          THEN Must("append", x.app = <<>>)
                 \cup Must("cas", \E j \in Lens(x) : LET old == MFind(log, View(j), k) IN
                              old # <<>> /\ x.cas[1].old = OptKv(old) /\ e.r = <<<<FALSE, old[1]>>>>)
          ELSE Must("append", Len(x.app) = 1)
                 \cup (IF x.app = <<>> THEN {}
                       ELSE LET old == MFind(log, View(x.app[1]), k) IN
                            Must("cas", old # <<>> /\ e.r = <<<<TRUE, old[1]>>>>))

HdrBad(x, e) ==
  LET existed == \E j \in Lens(x) : j > 0
  IN IF e.ok THEN Must("hdr", x.hdr /\ x.app = <<>> /\ e.r.len = 1)
     ELSE Must("hdr", Faulted(x) \/ (~x.hdr /\ existed /\ e.err = "HeaderAlreadyExists"))

(* subsequence, for traversals that had to report an error in between *)
RECURSIVE Embeds(_, _, _, _)
Embeds(a, b, i, j) ==
  IF i > Len(a) THEN TRUE
  ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN Embeds(a, b, i + 1, j + 1) ELSE Embeds(a, b, i, j + 1)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

OpenErrOk(x, e) == \/ Faulted(x)
                   \/ \E j \in Lens(x) : j <= 1
                   \/ \E j \in Lens(x) : Missing(x, 1..(j - 1))
(* ... and not for a block it had no need of *)
OpenErrFair(x) == Faulted(x) \/ \E j \in Lens(x) : j <= 1 \/ Missing(x, NeedsOf(j, x.op))
TravA(x) == IF x.op.sub = <<>> THEN "trav" ELSE "subtrav"
TallBad(x, e) ==
  IF ~e.ok THEN Must("err", OpenErrOk(x, e)) \cup Must("terr", OpenErrFair(x))
  ELSE LET good == SelectSeq(e.r.items, LAMBDA it : it.ok)
           its  == [i \in DOMAIN good |-> [s |-> good[i].s, k |-> good[i].k, v |-> good[i].v]]
           errs == Len(good) # Len(e.r.items)
       IN Must("err", errs => (Faulted(x) \/ \E j \in Lens(x) : Missing(x, 1..(j - 1))))
            \cup Must("terr", errs => (Faulted(x) \/ \E j \in Lens(x) : Missing(x, NeedsOf(j, x.op))))
            \cup Must(TravA(x), \E j \in Lens(x) :
                    LET w == Expected(j, x.op) IN
                    IF errs THEN Embeds(its, w, 1, 1)
                    ELSE IF e.r.end THEN its = w
                    ELSE IsPrefixOf(its, w) /\ Len(its) = x.op.lim)

VerBad(x, e) == Must("ver", e.ok /\ \E j \in x.at..HLen(x.h) : e.r = j)
HeightBad(x, e) ==
  IF ~e.ok THEN Must("err", ReadErrLax(x))
  ELSE Must("height", \E j \in Lens(x) : e.r = Height(SubSeq(log, 1, j)))

Tabs(n) == [i \in 1..n |-> 9]
RECURSIVE PrintOf(_, _, _), PrintKids(_, _, _, _)
PrintOf(lg, r, d) == PrintKids(lg, NodeAt(lg, r), d, 1)
PrintKids(lg, nd, d, i) ==
  IF i > Len(nd.k) THEN (IF nd.c = <<>> THEN <<>> ELSE PrintOf(lg, nd.c[i], d + 1))
  ELSE (IF nd.c = <<>> THEN <<>> ELSE PrintOf(lg, nd.c[i], d + 1))
         \o Tabs(d) \o KeyOf(lg, nd.k[i]) \o <<10>> \o PrintKids(lg, nd, d, i + 1)
(* printing is for keys that are text; 7-bit keys always are *)
NotText(j) == \E i \in DOMAIN View(j) : \E y \in Range(KeyOf(log, View(j)[i])) : y > 127
PrintBad(x, e) ==
  IF ~e.ok THEN Must("err", ReadErrLax(x) \/ \E j \in Lens(x) : j <= 1 \/ NotText(j))
  ELSE Must("print", \E j \in Lens(x) : LET lg == SubSeq(log, 1, j) IN
                        HasRoot(lg) /\ Safe(lg) /\ e.r = PrintOf(lg, RootRef(lg), 0))

(* Traversal configurations: built iff the range can hold a key *)
Dflt(o, d) == IF o = <<>> THEN d ELSE o[1]
NegInf == [t |-> "neg", k |-> <<>>]
PosInf == [t |-> "pos", k |-> <<>>]
ConfOf(op) == [min |-> Dflt(op.min, NegInf), mini |-> Dflt(op.mini, TRUE),
               max |-> Dflt(op.max, PosInf), maxi |-> Dflt(op.maxi, TRUE), rev |-> Dflt(op.rev, FALSE)]
ConfValid(op) ==
  \/ op.min = <<>> \/ op.max = <<>>      \* checked only when both are given
  \/ LET lo == op.min[1]
         hi == op.max[1]
     IN /\ hi.t # "neg" /\ lo.t # "pos"
        /\ (lo.t = "fin" /\ hi.t = "fin") =>
             \/ Lt(lo.k, hi.k)
             \/ lo.k = hi.k /\ Dflt(op.mini, TRUE) /\ Dflt(op.maxi, TRUE)
CfgBad(x, e) == Must("tcfg", e.ok = ConfValid(x.op) /\ (e.ok => e.r = ConfOf(x.op)))

(* Limits and keys are in one total order: the negative infinity, the keys,  *)
(* the positive infinity.  A limit made from a number is its decimal text.   *)
RECURSIVE Decimal(_)
Decimal(n) == (IF n < 10 THEN <<>> ELSE Decimal(n \div 10)) \o <<48 + (n % 10)>>
LimitOf(op) == IF "num" \in DOMAIN op THEN [t |-> "fin", k |-> Decimal(op.num)] ELSE op.lim
Order(lim, key) == CASE lim.t = "neg" -> "lt"
                     [] lim.t = "pos" -> "gt"
                     [] OTHER -> IF lim.k = key THEN "eq" ELSE IF Lt(lim.k, key) THEN "lt" ELSE "gt"
Opposite(o) == CASE o = "lt" -> "gt" [] o = "gt" -> "lt" [] OTHER -> o
Relations(o) == [cmp |-> o, lt |-> o = "lt", le |-> o # "gt", gt |-> o = "gt", ge |-> o # "lt",
                 eq |-> o = "eq", ne |-> o # "eq"]
CmpBad(x, e) ==
  LET o == Order(LimitOf(x.op), x.op.k)
  IN Must("ord", /\ e.ok
                 /\ \A i \in DOMAIN e.r.fwd : e.r.fwd[i] = Relations(o)
                 /\ \A i \in DOMAIN e.r.back : e.r.back[i] = Relations(Opposite(o)))

(* opening a store from another language: fails where there cannot be one;   *)
(* a name that is no text may be refused, but no other directory be taken    *)
StoreBad(x, e) == Must("open", x.op.how = "bytes" \/ e.ok = (x.op.how \in {"dir", "alias"}))
(* overlapping lookups: each is answered once, which is not told *)
ManyBad(x, e) ==
  IF ~e.ok THEN Must("err", ReadErrLax(x))
  ELSE Must("get", \E j \in Lens(x) :
         LET res == {GetRes(j, k) : k \in Range(x.op.ks)} IN
         /\ {<<e.r.found[i]>> : i \in DOMAIN e.r.found} = res \ {<<>>}
         /\ Len(e.r.found) = Cardinality(res \ {<<>>})
         /\ e.r.absent = Len(x.op.ks) - Len(e.r.found))

(* streams *)
OpenBad(x, e) == IF e.ok THEN {} ELSE Must("err", OpenErrOk(x, e)) \cup Must("terr", OpenErrFair(x))
Opened(x, e) == IF ~e.ok THEN sm
                ELSE (x.op.s :> [at |-> {<<j, 0>> : j \in Lens(x)}, op |-> x.op, h |-> x.h,
                                 gf |-> FALSE, err |-> FALSE, hv |-> x.hv]) @@ sm
StepAt(s, it) ==
  UNION {LET w == Expected(p[1], s.op) IN
         {<<p[1], q>> : q \in {q \in (p[2] + 1)..(IF s.err THEN Len(w) ELSE p[2] + 1) :
                                 q <= Len(w) /\ w[q] = it}}
         : p \in s.at}
NextBad(x, e) ==
  LET s == sm[x.op.s]
      it == e.r.it
      was == [x EXCEPT !.hv = s.hv]
  IN IF ~e.ok THEN Must("err", Faulted(x) \/ s.gf \/ \E p \in s.at : Missing(x, 1..(p[1] - 1)))
                     \cup Must("terr", Faulted(x) \/ s.gf \/ \E p \in s.at : LET n == NeedsOf(p[1], s.op) IN
                                           Missing(x, n) \/ Missing(was, n))
     ELSE IF it = <<>>
     THEN Must("stream", s.err \/ \E p \in s.at : p[2] = Len(Expected(p[1], s.op)))
     ELSE Must("stream", StepAt(s, it[1]) # {})
Stepped(x, e) ==
  LET s == sm[x.op.s] IN
  IF ~e.ok THEN (x.op.s :> [s EXCEPT !.err = TRUE]) @@ sm
  ELSE IF e.r.it = <<>> THEN sm
  ELSE (x.op.s :> [s EXCEPT !.at = StepAt(s, e.r.it[1])]) @@ sm

(* An error answer must leave no trace, which later answers show; nothing    *)
(* but an append changes the contents.                                       *)
RetBad(x, e) ==
  CASE x.op.n = "get" -> GetBad(x, e)
    [] x.op.n = "getm" -> ManyBad(x, e)
    [] IsPut(x.op)    -> PutBad(x, e)
    [] IsDel(x.op)    -> DelBad(x, e)
    [] x.op.n = "hdr" -> HdrBad(x, e)
    [] x.op.n = "ver" -> VerBad(x, e)
    [] x.op.n = "height" -> HeightBad(x, e)
    [] x.op.n = "print" -> PrintBad(x, e)
    [] x.op.n = "tall" -> TallBad(x, e)
    [] x.op.n = "tcfg" -> CfgBad(x, e)
    [] x.op.n = "lcmp" -> CmpBad(x, e)
    [] x.op.n = "topen" -> OpenBad(x, e)
    [] x.op.n = "open" -> StoreBad(x, e)
    [] x.op.n = "tnext" -> NextBad(x, e)
    [] x.op.n = "dbg" -> Must("dbg", e.ok /\ e.r)
    [] OTHER -> {"unexpected"}

DoRet(e) ==
  LET x == Client(e.c) IN
  /\ bad' = IF Quiet(x) THEN {"unexpected"}
            ELSE RetBad(x, e) \cup (IF IsPut(x.op) \/ IsDel(x.op) \/ x.op.n = "hdr" THEN {}
                                    ELSE Must("append", x.app = <<>> /\ ~x.hdr))
  /\ sm' = CASE x.op.n = "topen" -> Opened(x, e)
             [] x.op.n = "tnext" -> (IF bad' = {} THEN Stepped(x, e) ELSE sm)
             [] OTHER -> sm
  /\ cl' = (e.c :> Idle) @@ cl
  /\ UNCHANGED <<tr, log, vs, rl, have>>

-----------------------------------------------------------------------------
(* entries without nodes after the first p[1] blocks, p[2] of them *)
Padded(bs, p) ==
  IF p[2] = 0 THEN bs
  ELSE SubSeq(bs, 1, p[1]) \o [i \in 1..p[2] |-> [h |-> FALSE, key |-> <<>>, val |-> <<>>, idx |-> <<>>]]
         \o SubSeq(bs, p[1] + 1, Len(bs))
DoInit(e) ==
  LET lg == IF e.shape # <<>> THEN LogOf(e.shape[1], e.style) ELSE Padded(e.blocks, e.pad) IN
  /\ log' = lg
  /\ vs' = (Len(lg) :> InOrder(lg))
  /\ bad' = IF WellFormed(lg) THEN {} ELSE {"scenario"}
  /\ UNCHANGED <<tr, rl, have, cl, sm>>

DoCall(e) ==
  LET x == [op |-> e.op, h |-> e.h, at |-> HLen(e.h), app |-> <<>>, hdr |-> FALSE, cas |-> <<>>,
            gf |-> FALSE, af |-> FALSE, hv |-> have]
  IN /\ cl' = (e.c :> x) @@ cl
     /\ bad' = IF Quiet(Client(e.c)) THEN {} ELSE {"unexpected"}
     /\ UNCHANGED <<tr, log, vs, rl, have, sm>>

DoCas(e) ==
  LET x == Client(e.c) IN
  /\ cl' = IF Quiet(x) THEN cl ELSE (e.c :> [x EXCEPT !.cas = Append(@, e)]) @@ cl
  /\ bad' = IF Quiet(x) THEN {"unexpected"} ELSE {}
  /\ UNCHANGED <<tr, log, vs, rl, have, sm>>

DoFault(e) ==
  LET x == Client(e.c) IN
  /\ cl' = IF Quiet(x) THEN cl
           ELSE (e.c :> IF e.e = "afail" THEN [x EXCEPT !.af = TRUE] ELSE [x EXCEPT !.gf = TRUE]) @@ cl
  /\ bad' = {}
  /\ UNCHANGED <<tr, log, vs, rl, have, sm>>

DoCancel(e) ==
  /\ cl' = (e.c :> Idle) @@ cl
  /\ bad' = {}
  /\ UNCHANGED <<tr, log, vs, rl, have, sm>>

(* power loss: the log keeps a prefix; everything in memory is gone *)
DoCrash(e) ==
  /\ log' = SubSeq(log, 1, e.len)
  /\ vs' = [n \in {j \in DOMAIN vs : j <= e.len} |-> vs[n]]
  /\ cl' = <<>> /\ sm' = <<>> /\ bad' = {}
  /\ UNCHANGED <<tr, rl, have>>

DoRlen(e) == rl' = e.len /\ bad' = {} /\ UNCHANGED <<tr, log, vs, have, cl, sm>>
DoFill(e) == have' = have \cup {e.i} /\ bad' = {} /\ UNCHANGED <<tr, log, vs, rl, cl, sm>>
DoUnfill(e) == have' = have \ {e.i} /\ bad' = {} /\ UNCHANGED <<tr, log, vs, rl, cl, sm>>
(* writer and replica were connected; what was there to deliver was delivered *)
DoLinked(e) == bad' = Must("link", e.ok) /\ UNCHANGED <<tr, log, vs, rl, have, cl, sm>>
DoSettled(e) ==
  /\ rl' = e.len
  /\ have' = {b \in have : b < 0} \cup Range(e.have)
  /\ bad' = Must("link", e.len = Len(log) /\ Range(e.have) = 0..(Len(log) - 1))
  /\ UNCHANGED <<tr, log, vs, cl, sm>>
(* a block of the writer's log was damaged: -1 - i stands for "block i is damaged" *)
DoCorrupt(e) == have' = have \cup {-1 - e.i} /\ bad' = {} /\ UNCHANGED <<tr, log, vs, rl, cl, sm>>
DoPanic(e) == bad' = {e.e} /\ UNCHANGED <<tr, log, vs, rl, have, cl, sm>>

Step(e) ==
  CASE e.e = "init" -> DoInit(e)
    [] e.e = "call" -> DoCall(e)
    [] e.e = "app"  -> DoAppend(e)
    [] e.e = "ret"  -> DoRet(e)
    [] e.e = "cas"  -> DoCas(e)
    [] e.e \in {"afail", "gfail"} -> DoFault(e)
    [] e.e = "cancel" -> DoCancel(e)
    [] e.e = "crash" -> DoCrash(e)
    [] e.e = "rlen" -> DoRlen(e)
    [] e.e = "fill" -> DoFill(e)
    [] e.e = "unfill" -> DoUnfill(e)
    [] e.e = "corrupt" -> DoCorrupt(e)
    [] e.e = "linked" -> DoLinked(e)
    [] e.e = "settled" -> DoSettled(e)
    [] OTHER -> DoPanic(e)

Next == /\ bad = {}
        /\ l <= Len(Traces[tr].ev)
        /\ l' = l + 1
        /\ Step(Ev)

Spec == Init /\ [][Next]_vars
Where == <<tr, l, bad>>
Conforms == bad = {}
Alias == [tr |-> tr, l |-> l, bad |-> bad]
(* every event of every trace was consumed *)
AllConsumed == TLCGet("stats").distinct = FoldLeft(LAMBDA n, t : n + Len(t.ev) + 1, 0, Traces)
=============================================================================

-------------------------------- MODULE Conc --------------------------------
(* Several clients of one store at once, with storage that may fail, calls   *)
(* that may be dropped half way, and a process that may be killed.           *)
(*                                                                          *)
(* A write takes the lock, looks at the latest version, writes the header if *)
(* there is none, reads what it needs through the cache, prepares its block, *)
(* asks its predicate if it has one, and appends the block.  A read looks at  *)
(* the latest version and goes down the tree node by node; a walk yields the  *)
(* entries of the version it began with, one at a step.  Between any two of   *)
(* these steps anything else may happen.                                     *)
(*                                                                          *)
(* The constants Locking, InPlace, Leaky, Hasty and Floating describe wrong   *)
(* designs (the first two are what this code did before it was repaired);     *)
(* with them the properties below do not hold, which the checks demand of     *)
(* TLC as well.                                                             *)
EXTENDS Maps, TLC

CONSTANTS Clients, Keys, MaxCalls, MaxLen,
          Ops,       \* subset of {"get", "put", "del", "cput", "cdel", "hdr", "walk"}
          Locking,   \* writes exclude each other
          InPlace,   \* a write prepares its block by changing nodes in the cache
          Leaky,     \* a call that fails or is dropped keeps the lock
          Hasty,     \* the predicate is asked before the lock is taken
          Floating,  \* a walk goes on in the latest version
          Failures   \* subset of {"get", "append", "lost", "cancel", "crash", "evict"}

VARIABLES log,    \* the blocks, as stored
          vs,     \* ghost: vs[n] is what the first n blocks should mean
          cache,  \* nodes in memory
          lock,   \* who writes
          cl,     \* per client: the call in progress
          left    \* per client: calls still to make
vars == <<log, vs, cache, lock, cl, left>>

None == "none"
Idle == [pc |-> "idle"]
View(n) == IF n = 0 THEN <<>> ELSE vs[n]
Here == View(Len(log))

Init == /\ log = <<>> /\ vs = <<>> /\ cache = <<>> /\ lock = None
        /\ cl = [c \in Clients |-> Idle] /\ left = [c \in Clients |-> MaxCalls]

(* what a client sees: nodes from the cache, else from the log *)
Seen(r) == IF r \in DOMAIN cache THEN cache[r] ELSE NodeAt(log, r)
(* the first n blocks as seen through the cache *)
Through(n) ==
  [i \in 1..n |-> IF log[i].h THEN log[i]
                  ELSE [log[i] EXCEPT !.idx = [j \in DOMAIN log[i].idx |-> Seen(<<i - 1, j - 1>>)]]]

Set(c, x) == cl' = [cl EXCEPT ![c] = x]
Go(c, pc) == Set(c, [cl[c] EXCEPT !.pc = pc])
Free(c) == IF lock = c THEN None ELSE lock
FreeUnlessLeaky(c) == IF Leaky THEN lock ELSE Free(c)

Puts == {"put", "cput"}
Dels == {"del", "cdel"}
Reads == {"get", "walk"}
Asks == {"cput", "cdel"}

Call(c) ==
  /\ cl[c].pc = "idle" /\ left[c] > 0
  /\ \E n \in Ops, k \in Keys :
       /\ n \in {"walk", "hdr"} => k = CHOOSE y \in Keys : TRUE
       /\ Set(c, [pc |-> IF n \in Reads \/ ~Locking THEN "open" ELSE "lock", n |-> n, k |-> k,
               at |-> Len(log), base |-> 0, ref |-> <<>>, blk |-> <<>>, old |-> <<>>, res |-> <<>>, app |-> 0,
               asked |-> IF Hasty /\ n \in Asks THEN <<MFind(log, Here, k)>> ELSE <<>>])
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ UNCHANGED <<log, vs, cache, lock>>

Lock(c) == /\ cl[c].pc = "lock" /\ lock = None
           /\ lock' = c /\ Go(c, "open")
           /\ UNCHANGED <<log, vs, cache, left>>

Open(c) ==
  /\ cl[c].pc = "open"
  /\ LET n == Len(log)
         x == [cl[c] EXCEPT !.base = n]
     IN IF n = 0 /\ x.n \in Puts \cup {"hdr"} THEN Set(c, [x EXCEPT !.pc = "header"])
        ELSE IF x.n = "hdr" THEN Set(c, [x EXCEPT !.pc = "refused"])
        ELSE IF x.n \in Puts THEN Set(c, [x EXCEPT !.pc = "prepare"])
        ELSE IF n <= 1 THEN Set(c, [x EXCEPT !.pc = "answer"])
        ELSE IF x.n = "walk" THEN Set(c, [x EXCEPT !.pc = "walk"])
        ELSE Set(c, [x EXCEPT !.pc = "read", !.ref = <<n - 1, 0>>])
  /\ UNCHANGED <<log, vs, cache, lock, left>>

Header(c) ==
  /\ cl[c].pc = "header" /\ Len(log) < MaxLen
  /\ log' = Append(log, HeaderBlock(<<>>))
  /\ vs' = Append(vs, Here)
  /\ Set(c, [cl[c] EXCEPT !.pc = IF cl[c].n = "hdr" THEN "created" ELSE "prepare", !.base = Len(log) + 1])
  /\ UNCHANGED <<cache, lock, left>>

(* the next entry of a walk *)
Walk(c) ==
  /\ cl[c].pc = "walk"
  /\ LET x == cl[c]
         lg == Through(IF Floating THEN Len(log) ELSE x.base)
     IN IF ~Safe(lg) THEN Go(c, "broken")
        ELSE LET v == InOrder(lg)
             IN IF Len(x.res) >= Len(v) THEN Go(c, "walked")
                ELSE Set(c, [x EXCEPT !.res = Append(@, v[Len(x.res) + 1])])
  /\ UNCHANGED <<log, vs, cache, lock, left>>

(* one node on the way to the key; it comes to be in the cache *)
Read(c) ==
  /\ cl[c].pc = "read"
  /\ LET x == cl[c]
         nd == Seen(x.ref)
         p == Pos(log, nd.k, x.k)
     IN IF ~RefOk(log, x.ref) \/ \E i \in DOMAIN nd.k : ~KeyRefOk(log, nd.k[i])
        THEN Go(c, "broken") /\ UNCHANGED cache
        ELSE
        /\ cache' = (x.ref :> nd) @@ cache
        /\ IF p.f THEN Set(c, [x EXCEPT !.pc = IF x.n = "get" THEN "answer" ELSE "prepare", !.res = <<nd.k[p.i]>>])
           ELSE IF nd.c = <<>> THEN Set(c, [x EXCEPT !.pc = "answer", !.res = <<>>])
           ELSE Set(c, [x EXCEPT !.ref = nd.c[p.i]])
  /\ UNCHANGED <<log, vs, lock, left>>

(* the block of a write; in the wrong design, the root in the cache changes with it *)
Prepare(c) ==
  /\ cl[c].pc = "prepare"
  /\ LET x == cl[c]
         lg == Through(x.base)
         old == Find(lg, x.k)
         b == IF x.n \in Puts THEN PutBlock(lg, x.k, <<>>) ELSE DelBlock(lg, x.k)
     IN IF ~Safe(lg) THEN Go(c, "broken") /\ UNCHANGED cache
        ELSE
        /\ Set(c, [x EXCEPT !.pc = IF x.n \in Asks THEN "ask" ELSE "append", !.blk = b, !.old = old])
        /\ cache' = IF InPlace /\ x.base > 1 THEN (<<x.base - 1, 0>> :> b.idx[1]) @@ cache ELSE cache
  /\ UNCHANGED <<log, vs, lock, left>>

(* the predicate says yes or no *)
Ask(c) ==
  /\ cl[c].pc = "ask"
  /\ \E yes \in BOOLEAN :
       Set(c, [cl[c] EXCEPT !.pc = IF yes THEN "append" ELSE "declined",
                            !.asked = IF Hasty THEN @ ELSE Append(@, cl[c].old)])
  /\ UNCHANGED <<log, vs, cache, lock, left>>

Append1(c, pc) ==
  /\ cl[c].pc = "append" /\ Len(log) < MaxLen
  /\ LET x == cl[c]
         l2 == Append(log, x.blk)
     IN /\ log' = l2
        /\ vs' = Append(vs, IF x.n \in Puts THEN MPut(l2, Here, x.k, Len(log)) ELSE MDel(l2, Here, x.k))
        /\ Set(c, [x EXCEPT !.pc = pc, !.app = Len(log)])
  /\ UNCHANGED <<cache, lock, left>>

Return(c) == /\ cl[c].pc \in {"answer", "appended", "walked", "declined", "created", "refused"}
             /\ Set(c, Idle) /\ lock' = Free(c)
             /\ UNCHANGED <<log, vs, cache, left>>

Gone(c) == /\ Set(c, Idle) /\ lock' = FreeUnlessLeaky(c)
           /\ UNCHANGED <<log, vs, cache, left>>

Steps(c) == Lock(c) \/ Open(c) \/ Header(c) \/ Read(c) \/ Walk(c) \/ Prepare(c) \/ Ask(c) \/ Append1(c, "appended") \/ Return(c)

Fail(c) ==
  \/ "get" \in Failures /\ cl[c].pc \in {"open", "read", "prepare", "walk"} /\ Gone(c)
  \/ "append" \in Failures /\ cl[c].pc \in {"header", "append"} /\ Gone(c)
  \/ "lost" \in Failures /\ Append1(c, "lost")
  \/ cl[c].pc = "lost" /\ Gone(c)
  \/ "cancel" \in Failures /\ cl[c].pc # "idle" /\ Gone(c)

(* the process is killed: the last block may be lost, unless its call returned *)
Crash ==
  /\ "crash" \in Failures
  /\ LET pending == \E c \in Clients : cl[c].pc \in {"appended", "lost"} /\ cl[c].app = Len(log) - 1
     IN \E n \in (Len(log) - (IF pending THEN 1 ELSE 0))..Len(log) :
          log' = SubSeq(log, 1, n) /\ vs' = SubSeq(vs, 1, n)
  /\ cache' = <<>> /\ lock' = None
  /\ cl' = [c \in Clients |-> Idle]
  /\ UNCHANGED left
Evict == /\ "evict" \in Failures /\ cache # <<>>
         /\ \E r \in DOMAIN cache : cache' = [s \in DOMAIN cache \ {r} |-> cache[s]]
         /\ UNCHANGED <<log, vs, lock, cl, left>>

Next == \/ \E c \in Clients : Call(c) \/ Steps(c) \/ Fail(c)
        \/ Crash \/ Evict
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A c \in Clients : WF_vars(Steps(c)) /\ WF_vars(cl[c].pc = "lost" /\ Gone(c))

-----------------------------------------------------------------------------
(* Every append made the contents what its operation makes of the version    *)
(* before it (no write is undone, nothing else comes in).                    *)
Serialized == /\ Safe(log) /\ WellFormed(log)
              /\ InOrder(log) = Here
(* no client ever follows a pointer to nowhere *)
NoneBroken == \A c \in Clients : cl[c].pc # "broken"
OneHeader == \A i \in DOMAIN log : log[i].h <=> i = 1
(* the cache holds committed nodes only *)
CacheTrue == \A r \in DOMAIN cache : RefOk(log, r) /\ cache[r] = NodeAt(log, r)
(* what reads see is what the log says *)
ReadsTrue ==
  \A c \in Clients : LET x == cl[c] IN
    x.pc = "answer" /\ x.n # "walk" => \E j \in x.at..Len(log) : x.res = MFind(log, View(j), x.k)
WritesTrue ==
  \A c \in Clients : LET x == cl[c] IN
    x.pc \in {"appended", "lost"} => x.old = MFind(log, View(x.app), x.k)
(* the predicate is asked once, about what is there when the write takes      *)
(* place (or, if it declines, what was there at some moment of the call)      *)
CasTrue ==
  \A c \in Clients : LET x == cl[c] IN
    x.pc # "idle" /\ x.n \in Asks =>
      /\ x.pc \in {"append", "appended", "lost", "declined"} => Len(x.asked) = 1
      /\ x.pc \in {"appended", "lost"} => x.asked[1] = MFind(log, View(x.app), x.k)
      /\ x.pc = "declined" => x.app = 0 /\ \E j \in x.at..Len(log) : x.asked[1] = MFind(log, View(j), x.k)
(* a walk yields the entries of one version that was there when it began *)
WalksTrue ==
  \A c \in Clients : LET x == cl[c] IN
    x.pc \in {"walk", "walked"} =>
      LET v == View(x.base) IN
      /\ x.base >= x.at
      /\ Len(x.res) <= Len(v) /\ x.res = SubSeq(v, 1, Len(x.res))
      /\ x.pc = "walked" => x.res = v
(* an explicit creation is refused iff there is a header already *)
HeaderTrue == \A c \in Clients : cl[c].pc = "refused" => log # <<>>
Exclusive == Locking => \A c \in Clients :
    cl[c].pc \in {"header", "prepare", "ask", "append", "appended", "declined", "created"} \/ (cl[c].pc \in {"open", "read"} /\ cl[c].n \notin Reads)
      => lock = c
(* a call that fails, is dropped or is refused changes nothing *)
OnlyAppendsCount == [][log' = log => vs' = vs]_vars
AppendOnly == [][(\E c \in Clients : cl[c].pc # "idle" /\ cl'[c].pc # "idle") =>
                   Len(log') >= Len(log) /\ SubSeq(log', 1, Len(log)) = log]_vars
AllReturn == \A c \in Clients : [](cl[c].pc # "idle" => <>(cl[c].pc = "idle" \/ Len(log) >= MaxLen))
=============================================================================

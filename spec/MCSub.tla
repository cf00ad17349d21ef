---- MODULE MCSub ----
(* Subs: a range of a sub, given by keys relative to it, is the range of the *)
(* whole store between translated bounds.  For every prefix, range and key   *)
(* over a small alphabet with the greatest byte in it, the translation picks *)
(* exactly the keys of the sub that are in the relative range; and keys of    *)
(* different subs never meet.                                                *)
EXTENDS Maps, TLC
CONSTANTS Alphabet, MaxPrefix, MaxKey
VARIABLES p, q, c

Strings(n) == UNION {[1..m -> Alphabet] : m \in 0..n}
Fin(k) == [t |-> "fin", k |-> k]
Neg == [t |-> "neg", k |-> <<>>]
Plus == [t |-> "pos", k |-> <<>>]

(* the least string above every string that begins with x, if there is one *)
RECURSIVE AfterAll(_)
AfterAll(x) == IF x = <<>> THEN <<>>
               ELSE IF Last(x) = 255 THEN AfterAll(Front(x))
               ELSE <<Append(Front(x), Last(x) + 1)>>

Translate(pre, cf) ==
  LET lo == CASE cf.min.t = "neg" -> [b |-> Fin(pre), i |-> TRUE]
              [] cf.min.t = "pos" -> [b |-> Plus, i |-> FALSE]
              [] OTHER -> [b |-> Fin(pre \o cf.min.k), i |-> cf.mini]
      hi == CASE cf.max.t = "neg" -> [b |-> Neg, i |-> FALSE]
              [] cf.max.t = "pos" -> (IF AfterAll(pre) = <<>> THEN [b |-> Plus, i |-> FALSE]
                                      ELSE [b |-> Fin(AfterAll(pre)[1]), i |-> FALSE])
              [] OTHER -> [b |-> Fin(pre \o cf.max.k), i |-> cf.maxi]
  IN [min |-> lo.b, mini |-> lo.i, max |-> hi.b, maxi |-> hi.i, rev |-> cf.rev]

Bounds == {Neg, Plus} \cup {Fin(k) : k \in Strings(MaxKey)}
Init == /\ p \in Strings(MaxPrefix) /\ q \in Strings(MaxPrefix)
        /\ c \in [min : Bounds, mini : BOOLEAN, max : Bounds, maxi : BOOLEAN, rev : {FALSE}]
Next == UNCHANGED <<p, q, c>>
Spec == Init /\ [][Next]_<<p, q, c>>

RightKeys == \A k \in Strings(MaxPrefix + MaxKey) :
  InBounds(Translate(p, c), k) <=> HasPrefix(p, k) /\ InBounds(c, Strip(p, k))
(* prefixes of which neither begins with the other: no key is in both; and   *)
(* keys of one sub are different keys of the store                           *)
Apart == ~HasPrefix(p, q) /\ ~HasPrefix(q, p) =>
           \A a, b \in Strings(MaxKey) : p \o a # q \o b
OneToOne == \A a, b \in Strings(MaxKey) : p \o a = p \o b => a = b
SameOrder == \A a, b \in Strings(MaxKey) : Lt(a, b) <=> Lt(p \o a, p \o b)
====

------------------------------- MODULE Bytes -------------------------------
(* Keys and values are byte strings: sequences of 0..255.  Their order is   *)
(* lexicographic, a proper prefix being smaller.  Also the wire format of a *)
(* block (protobuf), as an executable definition.                           *)
EXTENDS Naturals, Sequences

(* the first place in lo..hi where a and b differ (they do) *)
RECURSIVE FirstDiff(_, _, _, _)
FirstDiff(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2 IN
       IF SubSeq(a, lo, mid) = SubSeq(b, lo, mid) THEN FirstDiff(a, b, mid + 1, hi) ELSE FirstDiff(a, b, lo, mid)

(* for long common prefixes: the same, by halves *)
LexLtFar(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
  IF SubSeq(a, 1, n) = SubSeq(b, 1, n) THEN Len(a) < Len(b)
  ELSE LET i == FirstDiff(a, b, 1, n) IN a[i] < b[i]

RECURSIVE LexLtFrom(_, _, _)
LexLtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > 32 THEN LexLtFar(a, b)
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN LexLtFrom(a, b, i + 1)
  ELSE a[i] < b[i]

Lt(a, b) == LexLtFrom(a, b, 1)
Le(a, b) == a = b \/ Lt(a, b)

HasPrefix(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p

-----------------------------------------------------------------------------
(* Protobuf: varints, tag/length-delimited fields.  Only what the four      *)
(* messages need.                                                           *)
RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o Varint(n \div 128)

LenDelim(field, bytes) == Varint(field * 8 + 2) \o Varint(Len(bytes)) \o bytes

(* A log may be longer than TLC's numbers go.  Then the specification leaves *)
(* out a stretch of it, in which nothing happens: block number n >= gap.at   *)
(* has the number n plus the width of the gap, gap.n, which is given as its  *)
(* digits to the base 128, the least first.                                  *)
NoGap == [at |-> 0, n |-> <<>>]

RECURSIVE VarintSum(_, _)
VarintSum(n, d) ==
  IF d = <<>> THEN Varint(n)
  ELSE LET t == (n % 128) + Head(d)
           carry == (n \div 128) + (t \div 128)
       IN IF carry = 0 /\ Tail(d) = <<>> THEN <<t % 128>> ELSE <<(t % 128) + 128>> \o VarintSum(carry, Tail(d))

SeqVarint(n, gap) == IF gap.n = <<>> \/ n < gap.at THEN Varint(n) ELSE VarintSum(n, gap.n)

RECURSIVE KeyVarints(_, _)
KeyVarints(s, gap) == IF s = <<>> THEN <<>> ELSE SeqVarint(Head(s), gap) \o KeyVarints(Tail(s), gap)

RECURSIVE ChildVarints(_, _)
ChildVarints(s, gap) ==
  IF s = <<>> THEN <<>> ELSE SeqVarint(Head(s)[1], gap) \o Varint(Head(s)[2]) \o ChildVarints(Tail(s), gap)

Packed(field, bytes) == IF bytes = <<>> THEN <<>> ELSE LenDelim(field, bytes)

(* A level (node) of the index: k = key seqs, c = child pointers <<seq, offset>> *)
EncLevel(lv, gap) == Packed(1, KeyVarints(lv.k, gap)) \o Packed(2, ChildVarints(lv.c, gap))

RECURSIVE EncIndex(_, _)
EncIndex(idx, gap) == IF idx = <<>> THEN <<>> ELSE LenDelim(1, EncLevel(Head(idx), gap)) \o EncIndex(Tail(idx), gap)

(* optional values are <<>> or <<bytes>> *)
EncOpt(field, opt) == IF opt = <<>> THEN <<>> ELSE LenDelim(field, opt[1])

EncEntry(b, gap) == LenDelim(1, EncIndex(b.idx, gap)) \o LenDelim(2, b.key) \o EncOpt(3, b.val)

(* "hyperbee" in ASCII *)
PROTOCOL == <<104, 121, 112, 101, 114, 98, 101, 101>>

(* meta = <<>> or <<[cf |-> opt, ud |-> opt]>> *)
EncMeta(meta) == EncOpt(1, meta.cf) \o EncOpt(2, meta.ud)
EncHeader(meta) == LenDelim(1, PROTOCOL) \o (IF meta = <<>> THEN <<>> ELSE LenDelim(2, EncMeta(meta[1])))

EncBlockOver(b, gap) == IF b.h THEN EncHeader(b.meta) ELSE EncEntry(b, gap)
EncBlock(b) == EncBlockOver(b, NoGap)
=============================================================================

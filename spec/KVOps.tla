------------------------------- MODULE KVOps -------------------------------
(***************************************************************************)
(* The meaning of the public operations of plainkv on an abstract map.     *)
(*                                                                         *)
(* Keys are numbered 1..K in byte order; value 0 is the empty byte string, *)
(* values >= 1 are distinct non-empty byte strings, Absent marks a key     *)
(* that is not in the map.  Key codes 0 and K+1 stand for the sentinels    *)
(* MinKey and MaxKey of ordered dictionaries.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Absent == -1

PointOps == {"set", "sie", "sin", "clr", "tst"}
Writes   == {"set", "sie", "sin"}

EmptyMap(K) == [k \in 1..K |-> Absent]

Keys(m)    == 1..Len(m)
Present(m) == {k \in 1..Len(m) : m[k] # Absent}

(* the value of a key after the operation *)
NewVal(o, old, v) ==
  CASE o = "set" -> v
    [] o = "sie" -> IF old = Absent THEN Absent ELSE v
    [] o = "sin" -> IF old = Absent THEN v ELSE old
    [] o = "clr" -> Absent
    [] o = "tst" -> old

(* the flag returned by the operation ("set": whether the key was added) *)
OkFlag(o, old) ==
  IF o \in {"set", "sin"} THEN old = Absent ELSE old # Absent

(* the bytes returned by the operation *)
OldRes(old, ret) == IF ret /\ old # Absent THEN old ELSE 0

(* does the operation change the map? (replacing a value by itself counts) *)
Effective(o, old) ==
  CASE o = "set" -> TRUE
    [] o = "sie" -> old # Absent
    [] o = "sin" -> old = Absent
    [] o = "clr" -> old # Absent
    [] o = "tst" -> FALSE

(* smallest and largest key of the map, 0 if it is empty *)
MinOf(m) == FoldLeftDomain(LAMBDA a, k : IF a = 0 /\ m[k] # Absent THEN k ELSE a, 0, m)
MaxOf(m) == FoldLeftDomain(LAMBDA a, k : IF m[k] # Absent THEN k ELSE a, 0, m)

IsSentinel(m, c) == c = 0 \/ c = Len(m) + 1
Resolve(m, c) == IF c = 0 THEN MinOf(m) ELSE IF c = Len(m) + 1 THEN MaxOf(m) ELSE c

(* The keys in the range [lo...hi], ascending.  A sentinel stands for the   *)
(* smallest or the largest key of the map, in either position.              *)
RangeSet(m, lo, hi) ==
  LET a == Resolve(m, lo)
      b == Resolve(m, hi)
  IN IF a = 0 \/ b = 0 THEN {} ELSE {k \in a..b : m[k] # Absent}

(* ks is the range [lo...hi] of m in the given direction *)
IsRange(ks, m, dir, lo, hi) ==
  \E S \in {RangeSet(m, lo, hi)} :
     /\ Len(ks) = Cardinality(S)
     /\ \A i \in 1..Len(ks) : ks[i] \in S
     /\ \A i \in 1..Len(ks) - 1 : IF dir = "asc" THEN ks[i] < ks[i + 1] ELSE ks[i] > ks[i + 1]

(* the range as a sequence *)
RangeResult(m, dir, lo, hi) ==
  LET s == SetToSortSeq(RangeSet(m, lo, hi), LAMBDA x, y : x < y)
  IN IF dir = "asc" THEN s ELSE Reverse(s)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
(* reading `len' bytes at offset `off' of the byte string s *)
ReadAt(s, off, len) ==
  LET n == Max2(0, Min2(len, Len(s) - off))
  IN IF n = 0 THEN << >> ELSE SubSeq(s, off + 1, off + n)
=============================================================================

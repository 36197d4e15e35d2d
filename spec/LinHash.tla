------------------------------ MODULE LinHash ------------------------------
(***************************************************************************)
(* The linear hash map under a plain dictionary: slots that are split and  *)
(* merged one at a time as the load changes, directories of slots, the     *)
(* array of directories, and scan cursors.                                 *)
(*                                                                         *)
(* A slot is modelled as the set of its keys: a cursor takes a whole slot  *)
(* at once, so the order inside a slot is never observable across changes. *)
(* Hash[k] are the low bits of the hash of key k; on replay the driver     *)
(* finds real keys whose FNV-1a hashes end in these bits, so that the real *)
(* slots are those of the model.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, HashInv, Json, TLC

CONSTANTS K, Hash,
          PerDir,     \* slots per directory (4096 in the code)
          MinShift,   \* shift of the smallest directory array (3 in the code)
          Scanning,   \* with a scan cursor
          Deleting,   \* with deletions
          Emitting,
          Mistakes    \* deliberate deviations, each refuted by TLC (selftest)

VARIABLES slots,   \* sequence of sets of keys
          ss,      \* shift of the number of slots before the current round of splits
          di, ds,  \* directories, shift of the size of their array
          cur,     \* the scan cursor
          ret
vars == <<slots, ss, di, ds, cur, ret>>

Key == 1..K
Count(S) == FoldLeft(LAMBDA n, x : n + Cardinality(x), 0, S.slots)
sl(S) == Len(S.slots)
Rec == [slots |-> slots, ss |-> ss, di |-> di, ds |-> ds]

(* more than the golden ratio of items per slot; less than half of it       *)
Over(n, s)  == n * 100000 > s * 161803
Under(n, s) == n * 200000 < s * 161803

Low(S, i) == IF i >= Pow2(S.ss) THEN i - Pow2(S.ss) ELSE i    \* slot i came from there

(* one slot more: the keys of slot Low(sl) are divided by the next bit      *)
Grow1(S) ==
  LET n   == sl(S)
      i   == Low(S, n)
      bit == IF "bit" \in Mistakes THEN S.ss + 1 ELSE S.ss
      hi  == {k \in S.slots[i + 1] : (Hash[k] \div Pow2(bit)) % 2 = 1}
      \* a directory more when all are full, twice the array when that is full
      d2  == IF n = S.di * PerDir THEN S.di + 1 ELSE S.di
      ds2 == IF d2 > S.di /\ S.di = Pow2(S.ds) /\ "array" \notin Mistakes THEN S.ds + 1 ELSE S.ds
  IN [slots |-> Append([S.slots EXCEPT ![i + 1] = @ \ hi], hi),
      ss |-> IF n + 1 = Pow2(S.ss + 1) /\ "level" \notin Mistakes THEN S.ss + 1 ELSE S.ss,
      di |-> d2, ds |-> ds2]

(* one slot fewer: its keys go back                                         *)
Shrink1(S) ==
  LET n   == sl(S) - 1
      ss2 == IF n < Pow2(S.ss) THEN S.ss - 1 ELSE S.ss
      i   == Low([S EXCEPT !.ss = ss2], n)
      \* a directory less as soon as there is one to spare and almost another
      drop == S.di >= 2 /\ n = (S.di - (IF "early" \in Mistakes THEN 1 ELSE 2)) * PerDir + 1
      d2  == IF drop THEN S.di - 1 ELSE S.di
      ds2 == IF drop /\ S.ds > MinShift /\ d2 = Pow2(S.ds - 2) THEN S.ds - 1 ELSE S.ds
  IN [slots |-> SubSeq([S.slots EXCEPT ![i + 1] = @ \cup S.slots[n + 1]], 1, n),
      ss |-> ss2, di |-> d2, ds |-> ds2]

RECURSIVE Expand(_), Shrink(_)
Expand(S) == IF Over(Count(S), sl(S)) THEN Expand(Grow1(S)) ELSE S
Shrink(S) == IF sl(S) >= 2 /\ Under(Count(S), sl(S))
             THEN IF "once" \in Mistakes THEN Shrink1(S) ELSE Shrink(Shrink1(S)) ELSE S

Where(S, k) == SlotOf(Hash[k], sl(S), S.ss) + 1
Stored(S) == UNION {S.slots[i] : i \in 1..sl(S)}

Become(S) == slots' = S.slots /\ ss' = S.ss /\ di' = S.di /\ ds' = S.ds

Off == [on |-> FALSE, left |-> {}, at |-> 0, must |-> {}, seen |-> {}, twice |-> FALSE]

Init ==
  /\ slots = << {} >> /\ ss = 0 /\ di = 1 /\ ds = MinShift
  /\ cur = Off /\ ret = [o |-> "init"]

Add(k) ==
  /\ k \notin Stored(Rec)
  /\ Become(Expand([Rec EXCEPT !.slots[Where(Rec, k)] = @ \cup {k}]))
  /\ ret' = [o |-> "sin", c |-> k]
  /\ UNCHANGED cur

Delete(k) ==
  /\ Deleting
  /\ k \in Stored(Rec)
  /\ Become(Shrink([Rec EXCEPT !.slots[Where(Rec, k)] = @ \ {k}]))
  /\ ret' = [o |-> "clr", c |-> k]
  /\ cur' = [cur EXCEPT !.must = @ \ {k}]

Replace(k) ==
  /\ k \in Stored(Rec)
  /\ ret' = [o |-> "sie", c |-> k]
  /\ UNCHANGED <<slots, ss, di, ds, cur>>

Start ==
  /\ Scanning /\ ~cur.on
  /\ cur' = [Off EXCEPT !.on = TRUE, !.must = Stored(Rec)]
  /\ ret' = [o |-> "cur"]
  /\ UNCHANGED <<slots, ss, di, ds>>

(* the cursor hands out what is left of the slot it took, then takes the    *)
(* next one that is not empty                                               *)
NextAt == IF "skip" \in Mistakes /\ cur.at > 0 /\ cur.at + 2 <= Len(slots) THEN cur.at + 2 ELSE cur.at + 1
NextSlot ==
  IF NextAt > Len(slots) THEN Len(slots) + 1     \* slots were merged meanwhile
  ELSE CHOOSE i \in NextAt..Len(slots) + 1 :
         /\ \A j \in NextAt..i - 1 : slots[j] = {}
         /\ i = Len(slots) + 1 \/ slots[i] # {}
Fetch ==
  /\ cur.on
  /\ IF cur.left # {}
     THEN \E k \in cur.left :
            /\ cur' = [cur EXCEPT !.left = @ \ {k}, !.seen = @ \cup {k}, !.twice = @ \/ k \in cur.seen]
            /\ ret' = [o |-> "sc", ok |-> TRUE]
     ELSE LET i == NextSlot IN
          IF i > Len(slots)
          THEN /\ cur' = [cur EXCEPT !.on = FALSE]
               /\ ret' = [o |-> "sc", ok |-> FALSE]
          ELSE \E k \in slots[i] :
                 /\ cur' = [cur EXCEPT !.at = i, !.left = slots[i] \ {k}, !.seen = @ \cup {k}, !.twice = @ \/ k \in cur.seen]
                 /\ ret' = [o |-> "sc", ok |-> TRUE]
  /\ UNCHANGED <<slots, ss, di, ds>>

Next == \/ \E k \in Key : Add(k) \/ Delete(k) \/ Replace(k)
        \/ Start \/ Fetch

Spec == Init /\ [][Next]_vars

View == <<slots, ss, di, ds, cur>>
----------------------------------------------------------------------------
NSlots == Len(slots)

(* every key is where its hash says, and nowhere else                       *)
Placed ==
  /\ \A i \in 1..NSlots : \A k \in slots[i] : SlotOf(Hash[k], NSlots, ss) = i - 1
  /\ Cardinality(Stored(Rec)) = Count(Rec)
Level == LevelOK(NSlots, ss)
Load  == /\ ~Over(Count(Rec), NSlots)
         /\ NSlots >= 2 => ~Under(Count(Rec), NSlots)
         /\ LoadOK(Count(Rec), NSlots)
Dirs  == DirsOK(NSlots, di, ds, PerDir, MinShift)
Small == Count(Rec) = 0 => NSlots = 1 /\ di = 1

(* what stays is still to come or has been seen; without deletions the rest *)
(* of a scan never loses anything                                           *)
Ahead == cur.left \cup UNION {slots[j] : j \in cur.at + 1..NSlots}
ScanMissesNothing ==
  (cur.on /\ ~Deleting) => cur.must \subseteq (cur.seen \cup Ahead)
ScanComplete ==
  [][(cur.on /\ ~cur'.on /\ ~Deleting) => cur.must \subseteq cur.seen]_vars
(* nothing added, nothing deleted: nothing twice (Stored = must)            *)
ScanOnce ==
  (cur.on /\ ~Deleting /\ Stored(Rec) = cur.must) => ~cur.twice
(* the content changes by the one key named                                 *)
OnlyThat ==
  [][LET a == Stored(Rec)
         b == UNION {slots'[i] : i \in 1..Len(slots')}
     IN CASE ret'.o = "sin" -> b = a \cup {ret'.c} /\ ret'.c \notin a
          [] ret'.o = "clr" -> b = a \ {ret'.c} /\ ret'.c \in a
          [] OTHER -> b = a]_vars

Step == [s |-> View, a |-> ret', t |-> View', sl |-> Len(slots'), di |-> di']
Emit == Emitting => PrintT("EDGE " \o ToJson(Step))
=============================================================================

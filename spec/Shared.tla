------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* Several B+ trees and hash maps in one storage: their life (create,      *)
(* store, load, destroy), their calls in any interleaving, and closing and *)
(* opening the storage while all of them are stored.                       *)
(***************************************************************************)
EXTENDS KVOps, Json

CONSTANTS N,        \* structures 1..N
          Trees,    \* those that are B+ trees
          K, V,     \* keys 1..K, values 0..V
          Mistakes, \* deliberate deviations, each refuted by TLC
          Emitting

VARIABLES s,     \* s[d]: [m: content, st: "none", "live" or "stored"]
          file,  \* is the storage open
          ret
vars == <<s, file, ret>>

None == [m |-> EmptyMap(K), st |-> "none"]
D == 1..N
Codes(d) == IF d \in Trees THEN 0..K + 1 ELSE 1..K

Init == s = [d \in D |-> None] /\ file = TRUE /\ ret = [o |-> "init", d |-> 0]

Become(d, from, to, q) ==
  /\ file /\ s[d].st = from
  /\ s' = [s EXCEPT ![d].st = to]
  /\ ret' = [o |-> q, d |-> d]
  /\ UNCHANGED file

Create(d)  == Become(d, "none", "live", "create")
Store(d)   == Become(d, "live", "stored", "store")
Load(d)    == Become(d, "stored", "live", "load")
Destroy(d) == Present(s[d].m) = {} /\ Become(d, "live", "none", "destroy")

(* the storage is closed and opened again *)
Cycle ==
  /\ \A d \in D : s[d].st # "live"
  /\ \E d \in D : s[d].st = "stored"
  /\ ret' = [o |-> "cycle", d |-> 0]
  /\ UNCHANGED <<s, file>>

Do(d, o, c, v, r) ==
  /\ file /\ s[d].st = "live"
  /\ LET m   == s[d].m
         k   == Resolve(m, c)
         old == IF k = 0 THEN Absent ELSE m[k]
         e   == IF "neighbour" \in Mistakes /\ o = "clr" THEN (d % N) + 1 ELSE d
     IN
     /\ IsSentinel(m, c) => o \in {"tst", "clr"} /\ Present(m) # {}
     /\ s' = IF k = 0 THEN s ELSE [s EXCEPT ![e].m[k] = NewVal(o, old, v)]
     /\ ret' = [o |-> o, d |-> d, c |-> c, v |-> v, r |-> r, ok |-> OkFlag(o, old), old |-> OldRes(old, r)]
  /\ UNCHANGED file

All(d) ==
  /\ file /\ s[d].st = "live"
  /\ ret' = [o |-> "all", d |-> d, ks |-> Present(s[d].m)]
  /\ UNCHANGED <<s, file>>

Next ==
  \/ \E d \in D : Create(d) \/ Store(d) \/ Load(d) \/ Destroy(d) \/ All(d)
  \/ Cycle
  \/ \E d \in D : \E c \in Codes(d) :
       \/ \E o \in {"sie", "sin"}, v \in 0..V : Do(d, o, c, v, FALSE)
       \/ \E v \in 0..V : Do(d, "set", c, v, TRUE)
       \/ \E o \in {"clr", "tst"} : Do(d, o, c, 0, TRUE)

Spec == Init /\ [][Next]_vars
View == s
----------------------------------------------------------------------------
TypeOK == \A d \in D : s[d].st \in {"none", "live", "stored"} /\ s[d].m \in [1..K -> (0..V) \cup {Absent}]
NoneIsEmpty == \A d \in D : s[d].st = "none" => Present(s[d].m) = {}

(* a call on one structure changes no other; only its life changes its state *)
Alone   == [][\A d \in D : d # ret'.d => s'[d] = s[d]]_vars
Keeps   == [][ret'.o \in {"store", "load", "cycle", "all", "tst"} => \A d \in D : s'[d].m = s[d].m]_vars
Ends    == [][ret'.o = "destroy" => s'[ret'.d] = None]_vars

Step == [s |-> View, a |-> ret', t |-> View']
Emit == Emitting => PrintT("EDGE " \o ToJson(Step))
=============================================================================

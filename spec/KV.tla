--------------------------------- MODULE KV ---------------------------------
(***************************************************************************)
(* The public interface of one plainkv dictionary as a state machine: what *)
(* exists in its file, whether it is open, and which bytes every call must *)
(* return.  KVOps gives the meaning of the calls; the same operators judge *)
(* the recorded histories of the real code (KVTrace).                      *)
(*                                                                         *)
(* Checked exhaustively for small K and V; every transition of the state   *)
(* graph is also performed on real dictionaries (Emit writes them out, the *)
(* driver walks through them with keys and values of many sizes).          *)
(***************************************************************************)
EXTENDS KVOps, Json

CONSTANTS K,        \* keys 1..K in byte order
          V,        \* values 0..V, 0 is the empty one
          Ordered,  \* an ordered dictionary (ranges, marks) or a plain one (scans)
          Emitting  \* print every transition

VARIABLES m,      \* content
          st,     \* "none": no file; "shut"; "open"
          ret     \* what the last call was and what it returned
vars == <<m, st, ret>>

Values == 0..V
Codes  == IF Ordered THEN 0..K + 1 ELSE 1..K

Init == /\ m = EmptyMap(K) /\ st = "none" /\ ret = [o |-> "init"]

Open(create) ==
  /\ st # "open"
  /\ LET ok == st = "shut" \/ create IN
     /\ st' = IF ok THEN "open" ELSE st
     /\ ret' = [o |-> "open", cr |-> create, ok |-> ok]
  /\ UNCHANGED m

Close ==
  /\ st = "open"
  /\ st' = "shut" /\ ret' = [o |-> "close"]
  /\ UNCHANGED m

(* a point operation: o, key code c, value v, and whether the old value is *)
(* asked for                                                               *)
Do(o, c, v, r) ==
  /\ st = "open"
  /\ LET k   == Resolve(m, c)
         old == IF k = 0 THEN Absent ELSE m[k]
     IN
     \* no call may add a record for a mark: there is no key to store
     /\ k = 0 => o \in {"tst", "clr", "sie"}
     /\ m' = IF k = 0 THEN m ELSE [m EXCEPT ![k] = NewVal(o, old, v)]
     /\ ret' = [o |-> o, c |-> c, v |-> v, r |-> r, ok |-> OkFlag(o, old), old |-> OldRes(old, r)]
  /\ UNCHANGED st

InRange(dir, lo, hi) ==
  /\ st = "open" /\ Ordered
  /\ ret' = [o |-> "rng", dir |-> dir, lo |-> lo, hi |-> hi, ks |-> RangeResult(m, dir, lo, hi)]
  /\ UNCHANGED <<m, st>>

Scan ==
  /\ st = "open" /\ ~Ordered
  /\ ret' = [o |-> "scan", ks |-> Present(m)]
  /\ UNCHANGED <<m, st>>

Next ==
  \/ \E b \in BOOLEAN : Open(b)
  \/ Close
  \/ \E o \in Writes, c \in Codes, v \in Values, r \in BOOLEAN : Do(o, c, v, r)
  \/ \E o \in PointOps \ Writes, c \in Codes, r \in BOOLEAN : Do(o, c, 0, r)
  \/ \E d \in {"asc", "desc"}, lo \in Codes, hi \in Codes : InRange(d, lo, hi)
  \/ Scan

Spec == Init /\ [][Next]_vars

View == <<m, st>>
----------------------------------------------------------------------------
TypeOK ==
  /\ m \in [1..K -> Values \cup {Absent}]
  /\ st \in {"none", "shut", "open"}

NoneIsEmpty == st = "none" => Present(m) = {}

(* ranges: both directions agree, marks bound everything, a range is what   *)
(* a test of every key would find                                           *)
RangesOK == Ordered =>
  /\ \A lo, hi \in Codes :
       LET a == RangeResult(m, "asc", lo, hi) IN
       /\ a = Reverse(RangeResult(m, "desc", lo, hi))
       /\ IsRange(a, m, "asc", lo, hi)
  /\ \A lo, hi \in 1..K :
       \A k \in 1..K : (\E i \in 1..Len(RangeResult(m, "asc", lo, hi)) : RangeResult(m, "asc", lo, hi)[i] = k)
                       = (lo <= k /\ k <= hi /\ m[k] # Absent)
  /\ RangeSet(m, 0, K + 1) = Present(m)
  /\ \A c \in 1..K : RangeSet(m, 0, c) \cup RangeSet(m, c, K + 1) = Present(m) \/ RangeSet(m, c, c) = {}

(* a refused or reading call leaves the content alone; a call changes at     *)
(* most one key, the one it names; nothing but an open or close touches st   *)
OneKey ==
  [][\A i, j \in 1..K : (m'[i] # m[i] /\ m'[j] # m[j]) => i = j]_vars
Refused ==
  [][(ret'.o \in {"rng", "scan", "open", "close", "tst"} \/ (ret'.o \in {"sie", "sin", "clr"} /\ ~ret'.ok)) => m' = m]_vars
Durable ==
  [][ret'.o \in {"open", "close"} => m' = m]_vars
(* reading back: what a call stored is what the next test returns            *)
ReadBack ==
  [][(ret'.o \in Writes /\ ret'.c \in 1..K /\ (ret'.o = "set" \/ ret'.ok)) => m'[ret'.c] = ret'.v]_vars

Step == [s |-> View, a |-> ret', t |-> View']
Emit == Emitting => PrintT("EDGE " \o ToJson(Step))
=============================================================================

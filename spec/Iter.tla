-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* Iterators of an ordered dictionary as a state machine: several ranges   *)
(* over one content, at each position sizes, whole reads and reads of      *)
(* parts, and the end, at which an iterator stays.                         *)
(*                                                                         *)
(* Keys and values are abstract byte strings: of key k and of its value    *)
(* only the length matters, KLen[k] and VLen[k] pieces.  Reads name their  *)
(* offset and the buffer's length in pieces too; the driver translates     *)
(* them to bytes around the places that matter in a real record.           *)
(***************************************************************************)
EXTENDS KVOps, Json

CONSTANTS K,         \* keys 1..K, key 0 and K+1 are the marks
          Its,       \* iterators used at the same time
          Pieces,    \* length of every key and value, in pieces
          Mistakes,  \* deliberate deviations, each refuted by TLC
          Emitting

VARIABLES m,     \* content (values do not matter: 0 or Absent)
          it,    \* it[i]: "none" or [w: keys of its range in order, p: position]
          ret
vars == <<m, it, ret>>

None == [w |-> << >>, p |-> 0]
Dirs == {"asc", "desc"}

Init == m = EmptyMap(K) /\ it = [i \in Its |-> None] /\ ret = [q |-> "init"]

Idle == \A i \in Its : it[i] = None

(* the content changes only while no iterator is in use *)
Change(k) ==
  /\ Idle
  /\ m' = [m EXCEPT ![k] = IF @ = Absent THEN 0 ELSE Absent]
  /\ ret' = [q |-> IF m[k] = Absent THEN "set" ELSE "clr", c |-> k]
  /\ UNCHANGED it

Start(i, d, lo, hi) ==
  /\ it[i] = None
  /\ \A j \in Its : j < i => it[j] # None
  /\ it' = [it EXCEPT ![i] = [w |-> RangeResult(m, d, lo, hi), p |-> 1]]
  /\ ret' = [q |-> "start", i |-> i, dir |-> d, lo |-> lo, hi |-> hi]
  /\ UNCHANGED m

On(i)  == it[i] # None
End(i) == it[i].p > Len(it[i].w)
Key(i) == it[i].w[it[i].p]

Advance(i) ==
  /\ On(i)
  /\ it' = [it EXCEPT ![i].p = IF End(i) /\ "beyond" \notin Mistakes THEN @ ELSE @ + 1]
  /\ ret' = [q |-> "adv", i |-> i]
  /\ UNCHANGED m

(* what a read delivers: the piece numbers of key or value; nothing and an *)
(* error at the end                                                        *)
Part(n, off, len) == {x \in 1..n : x > off /\ x <= off + len}
Look(i, q, off, len) ==
  /\ On(i)
  /\ ret' = [q |-> q, i |-> i, off |-> off, len |-> len, err |-> End(i) /\ q # "end",
             got |-> IF End(i) THEN {} ELSE
                     CASE q \in {"rk", "rv"} -> Part(Pieces, off, len)
                       [] q \in {"ka", "va", "ra"} -> 1..Pieces
                       [] OTHER -> {}]
  /\ UNCHANGED <<m, it>>

Done ==
  /\ ~Idle /\ \A i \in Its : On(i) => End(i)
  /\ it' = [i \in Its |-> None]
  /\ ret' = [q |-> "done"]
  /\ UNCHANGED m

Next ==
  \/ \E k \in 1..K : Change(k)
  \/ \E i \in Its :
       \/ \E d \in Dirs, lo, hi \in 0..K + 1 : Start(i, d, lo, hi)
       \/ Advance(i)
       \/ \E q \in {"end", "ksz", "vsz", "ka", "va", "ra"} : Look(i, q, 0, 0)
       \/ \E q \in {"rk", "rv"}, off \in 0..Pieces + 1, len \in 0..Pieces + 1 : Look(i, q, off, len)
  \/ Done

Spec == Init /\ [][Next]_vars
View == <<m, it>>
----------------------------------------------------------------------------
TypeOK == \A i \in Its : it[i].p \in 0..Len(it[i].w) + 1

(* ranges hold keys of the content in the order of the direction            *)
Inside == \A i \in Its : \A x \in 1..Len(it[i].w) : it[i].w[x] \in Present(m)
Ordered == \A i \in Its : \A x, y \in 1..Len(it[i].w) : x < y => it[i].w[x] # it[i].w[y]

(* an iterator only moves forward, one record at a time, and never leaves   *)
(* its end; using one does not move another; reads move none                *)
Moves ==
  [][\A i \in Its : (On(i) /\ On(i)') =>
       /\ it'[i].w = it[i].w
       /\ it'[i].p \in {it[i].p, it[i].p + 1}
       /\ (it'[i].p # it[i].p => ret'.q = "adv" /\ ret'.i = i)
       /\ (End(i) => it'[i] = it[i])]_vars

(* parts: reading piece by piece delivers the whole                         *)
Whole == [][(ret'.q \in {"rk", "rv"} /\ ~ret'.err) =>
              ret'.got = {x \in 1..Pieces : x > ret'.off /\ x <= ret'.off + ret'.len}]_vars
Parts ==
  \A off \in 0..Pieces, len \in 0..Pieces :
     Part(Pieces, 0, off) \cup Part(Pieces, off, len) = Part(Pieces, 0, off + len)

Step == [s |-> View, a |-> ret', t |-> View']
Emit == Emitting => PrintT("EDGE " \o ToJson(Step))
=============================================================================

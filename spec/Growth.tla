------------------------------- MODULE Growth -------------------------------
(***************************************************************************)
(* The sizes of a linear hash map, for every number of items: an inductive *)
(* invariant, proved by Apalache (SMT) instead of being enumerated by TLC. *)
(*                                                                         *)
(* The same growth as in LinHash, one slot per step, without the keys: rc  *)
(* items, sl slots, p the number of slots when the current round of splits *)
(* began (a power of 2), di directories of PerDir slots in an array of dc. *)
(* One key stands for all: r is the rest of its hash modulo 4p, at the     *)
(* slot it is stored in.                                                   *)
(*                                                                         *)
(*   Init => Inv                          check --init=Init --length=0     *)
(*   Inv /\ Next => Inv'                  check --init=Inv --length=1      *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  PerDir,    \* slots per directory
  \* @type: Int;
  MinCap,    \* smallest capacity of the directory array
  \* @type: Str;
  Mistake    \* deliberate deviation, each refuted

VARIABLES
  \* @type: Int;
  rc,
  \* @type: Int;
  sl,
  \* @type: Int;
  p,
  \* @type: Int;
  di,
  \* @type: Int;
  dc,
  \* @type: Int;
  r,
  \* @type: Int;
  at,
  \* @type: Str;
  busy       \* "no", or within an addition ("grow") or a removal ("shrink")

ConstInit == PerDir = 4096 /\ MinCap = 8 /\ Mistake = ""
ConstLevel == PerDir = 4096 /\ MinCap = 8 /\ Mistake = "level"
ConstEarly == PerDir = 4096 /\ MinCap = 8 /\ Mistake = "early"
ConstArray == PerDir = 4096 /\ MinCap = 8 /\ Mistake = "array"
ConstBit   == PerDir = 4096 /\ MinCap = 8 /\ Mistake = "bit"
ConstOnce  == PerDir = 4096 /\ MinCap = 8 /\ Mistake = "once"

\* all powers of 2 an int64 can be
Pow == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144,
        524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
        536870912, 1073741824, 2147483648, 4294967296, 8589934592, 17179869184, 34359738368, 68719476736,
        137438953472, 274877906944, 549755813888, 1099511627776, 2199023255552, 4398046511104, 8796093022208}

\* the golden ratio, as the code's constant 1.618033988749895
Over(n, s)  == n * 1000000000000000 > s * 1618033988749895
Under(n, s) == n * 2000000000000000 < s * 1618033988749895

Mod(x, m) == IF x >= 3 * m THEN x - 3 * m ELSE IF x >= 2 * m THEN x - 2 * m ELSE IF x >= m THEN x - m ELSE x  \* x < 4m
Slot(x, s, q) ==   \* x < 4q; the slot of the key with s slots at level q
  LET i == Mod(x, 2 * q) IN IF i >= s THEN Mod(i, q) ELSE i
Low(i, q) == IF i >= q THEN i - q ELSE i

Init ==
  /\ rc = 0 /\ sl = 1 /\ p = 1 /\ di = 1 /\ dc = MinCap
  /\ r \in 0..3 /\ at = 0 /\ busy = "no"

Add ==
  /\ busy = "no"
  /\ rc' = rc + 1 /\ busy' = "grow"
  /\ UNCHANGED <<sl, p, di, dc, r, at>>

Remove ==
  /\ busy = "no" /\ rc > 0
  /\ rc' = rc - 1 /\ busy' = "shrink"
  /\ UNCHANGED <<sl, p, di, dc, r, at>>

\* another key is looked at
Look ==
  /\ busy = "no"
  /\ \E x \in Int : x >= 0 /\ x < 4 * p /\ r' = x /\ at' = Slot(x, sl, p)
  /\ UNCHANGED <<rc, sl, p, di, dc, busy>>

Fits == busy' = "no" /\ UNCHANGED <<rc, sl, p, di, dc, r, at>>

Grow ==
  /\ busy = "grow"
  /\ IF ~Over(rc, sl) THEN Fits
     ELSE
     /\ sl' = sl + 1
     /\ p' = IF sl + 1 = 2 * p /\ Mistake # "level" THEN 2 * p ELSE p
     /\ di' = IF sl = di * PerDir THEN di + 1 ELSE di
     /\ dc' = IF sl = di * PerDir /\ di = dc /\ Mistake # "array" THEN 2 * dc ELSE dc
     \* the items of slot Low(sl) whose next bit is set move to the new slot
     /\ at' = IF at = Low(sl, p) /\ Mod(r, 2 * p) >= (IF Mistake = "bit" THEN 2 * p ELSE p) THEN sl ELSE at
     /\ \E x \in Int : /\ x >= 0 /\ x < 4 * p'       \* the hash modulo the new 4p
                       /\ (IF p' = p THEN x = r ELSE (x = r \/ x = r + 4 * p))
                       /\ r' = x
     /\ UNCHANGED <<rc, busy>>

Shrink ==
  /\ busy = "shrink"
  /\ IF ~(sl >= 2 /\ Under(rc, sl)) THEN Fits
     ELSE
     LET n    == sl - 1
         q    == IF n < p THEN p \div 2 ELSE p
         drop == di >= 2 /\ n = (di - (IF Mistake = "early" THEN 1 ELSE 2)) * PerDir + 1
     IN
     /\ sl' = n
     /\ p' = q
     /\ di' = IF drop THEN di - 1 ELSE di
     /\ dc' = IF drop /\ dc > MinCap /\ 4 * (di - 1) = dc THEN dc \div 2 ELSE dc
     /\ at' = IF at = n THEN Low(n, q) ELSE at
     /\ r' = Mod(r, 4 * q)
     /\ busy' = IF Mistake = "once" THEN "no" ELSE busy
     /\ UNCHANGED rc

Next == Add \/ Remove \/ Look \/ Grow \/ Shrink
----------------------------------------------------------------------------
Level == p \in Pow /\ p <= sl /\ sl < 2 * p
Dirs  ==
  /\ di >= 1
  /\ sl <= di * PerDir                            \* they hold all slots
  /\ di >= 2 => sl > (di - 2) * PerDir + 1        \* at most one to spare
Array == dc \in Pow /\ dc >= MinCap /\ di <= dc /\ (dc > MinCap => 4 * di > dc)
Placed == r >= 0 /\ r < 4 * p /\ at = Slot(r, sl, p) /\ at >= 0 /\ at < sl
LoadFits ==
  /\ rc >= 0 /\ sl >= 1
  /\ busy \in {"no", "grow", "shrink"}
  /\ busy # "grow" => ~Over(rc, sl)
  /\ busy # "shrink" => (sl = 1 \/ ~Under(rc, sl))
  \* within an operation: what the next step will bring about
  /\ busy = "grow" => ~Over(rc - 1, sl) \/ sl = 1 \/ ~Under(rc, sl)

\* far from the largest power of 2 in Pow, so that it is never left
Bounded == sl < 4398046511104
Inv == Bounded /\ Level /\ Dirs /\ Array /\ Placed /\ LoadFits
InvNext == sl < 4398046511104 => Level /\ Dirs /\ Array /\ Placed /\ LoadFits

IndInit ==
  /\ rc \in Int /\ sl \in Int /\ p \in Pow /\ di \in Int /\ dc \in Pow
  /\ r \in Int /\ at \in Int /\ busy \in {"no", "grow", "shrink"}
  /\ Inv
=============================================================================

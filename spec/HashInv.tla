------------------------------ MODULE HashInv ------------------------------
(***************************************************************************)
(* What a well-formed linear hash map looks like: slot numbering, sizing   *)
(* of the slot array and of its directories.  `ss' is the shift of the     *)
(* minimal slot count, `sl' the slot count, `ds' the shift of the capacity *)
(* of the directory array, `di' the number of directories.                 *)
(***************************************************************************)
EXTENDS Integers

Pow2(n) == 2 ^ n

(* a key whose hash ends in the bits h lives in this slot *)
SlotOf(h, sl, ss) ==
  LET i == h % Pow2(ss + 1) IN IF i >= sl THEN i % Pow2(ss) ELSE i

LevelOK(sl, ss) == Pow2(ss) <= sl /\ sl < Pow2(ss + 1)

(* golden-ratio load limits; exact for up to 200000 items *)
LoadOK(items, sl) ==
  /\ items * 10000 <= sl * 16180 + sl
  /\ sl >= 2 => items * 10000 >= sl * 8090

Needed(sl, perDir) == (sl + perDir - 1) \div perDir
DirsOK(sl, di, ds, perDir, minShift) ==
  /\ Needed(sl, perDir) <= di /\ di <= Needed(sl, perDir) + 1
  /\ ds >= minShift
  /\ di <= Pow2(ds)
  /\ ds > minShift => di > Pow2(ds - 2)
=============================================================================

----------------------------- MODULE LinHashMC -----------------------------
(* low hash bits for the bounded checks of LinHash *)
EXTENDS LinHash
Spread == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>
Same   == [i \in 1..16 |-> 5]                       \* all keys in one slot
Halves == <<0, 0, 16, 1, 17, 3, 3, 7, 15, 15, 31, 9, 8, 24, 12, 4>>
Odd    == <<1, 3, 7, 15, 31, 31, 15, 7, 3, 1, 1, 3, 7, 15, 31, 15>>
=============================================================================

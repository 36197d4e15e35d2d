------------------------------ MODULE BPTreeMC ------------------------------
(* Exhaustive checks of BPTree with small budgets. *)
EXTENDS BPTree

CONSTANTS K, Sizes,   \* Sizes[k]: in-page size of key k
          Vals,       \* in-page sizes of values
          Ranges      \* check all ranges in every state

VARIABLES T, m, br
vars == <<T, m, br>>

KSizes == [k \in 1..K |-> Sizes[k]]
Init == TLCSet(1, {}) /\ T = EmptyTree(KSizes) /\ m = << >> /\ br = << >>

Has(k) == k \in DOMAIN m
AddKey(k, s) ==
  /\ ~Has(k)
  /\ \E R \in {Insert(T, k, s, s)} : T' = R.T /\ br' = R.br
  /\ m' = (k :> <<s, s>>) @@ m
SetKey(k, s) ==
  /\ Has(k) /\ m[k] # <<s, s>>
  /\ \E R \in {Replace(T, k, s, s)} : T' = R.T /\ br' = R.br
  /\ m' = [m EXCEPT ![k] = <<s, s>>]
DelKey(k) ==
  /\ Has(k)
  /\ \E R \in {Remove1(T, k)} : T' = R.T /\ br' = R.br
  /\ m' = TLCEval([x \in DOMAIN m \ {k} |-> m[x]])
Next == \E k \in 1..K : DelKey(k) \/ \E s \in Vals : AddKey(k, s) \/ SetKey(k, s)
Spec == Init /\ [][Next]_vars
View == Nest(T, T.root)

TreeShaped == Shaped(T)
TreeFaithful == Faithful(T, m)
TreeBushy == Bushy(T)
TreeLeavesFull == LeavesFull(T)
TreeNodesFull == NodesFull(T)
TreeRootFits == RootFits(T)
TreeWithin == Within(T)
NeverLeafAsNode == \A i \in 1..Len(br) : br[i] # "LEAF READ AS NON-LEAF"
Found == \A k \in 1..K : Find(T, k)[2] = Has(k)
Expect(lo, hi) ==
  LET ks == DOMAIN m
      r(c) == IF c = 0 THEN CHOOSE x \in ks : \A y \in ks : x <= y
              ELSE IF c = K + 1 THEN CHOOSE x \in ks : \A y \in ks : x >= y ELSE c
  IN IF ks = {} THEN {} ELSE {k \in ks : r(lo) <= k /\ k <= r(hi)}
RangesOK == Ranges =>
  \A lo, hi \in 0..K + 1 :
    \E E \in {SetToSortSeq(Expect(lo, hi), <)} :
      /\ Forward(T, lo, hi) = E
      /\ Backward(T, lo, hi) = Reverse(E)

(* which cases of rebalancing were exercised: each is printed once per worker *)
Cases == \E seen \in {TLCGet(1)} : \E b \in {{br'[i] : i \in 1..Len(br')}} :
           b \subseteq seen \/ (TLCSet(1, seen \cup b) /\ PrintT("CASES " \o ToString(b \ seen)))

(* sizes of keys *)
Flat   == [i \in 1..99 |-> 1]
Mostly == [i \in 1..99 |-> IF i % 4 = 2 THEN 1 ELSE 2]
Uneven == [i \in 1..99 |-> IF (i * i * 7 + i) % 11 < 5 THEN 1 ELSE 2]
=============================================================================

----------------------------- MODULE BPTreeInv -----------------------------
(***************************************************************************)
(* What a well-formed B+ tree looks like in a file.  A tree is the list of *)
(* its nodes in preorder:                                                  *)
(*   leaf      [t |-> "L", a, dp, pv, nx, fr, ks, vs]                      *)
(*   non-leaf  [t |-> "N", a, dp, fr, ks, ch]                              *)
(* a: address, dp: depth (root 1), pv/nx: neighbours in the leaf list,     *)
(* fr: free bytes in the page, ks: keys (of a non-leaf: the separators, one*)
(* fewer than children), vs: values, ch: addresses of the children.        *)
(* Used on the pages of real files (KVTrace) and on the states of the      *)
(* design model (BPTree).                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Ascending(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]

(* Position in preorder behind the subtree that starts at i and must hold    *)
(* keys k with lo <= k < hi; 0 if the subtree is malformed.                 *)
RECURSIVE Behind(_, _, _, _, _, _)
Behind(n, ht, i, dp, lo, hi) ==
  IF i < 1 \/ i > Len(n) THEN 0
  ELSE LET x == n[i] IN
    IF x.dp # dp \/ ~Ascending(x.ks) THEN 0
    ELSE IF Len(x.ks) > 0 /\ ~(lo <= x.ks[1] /\ x.ks[Len(x.ks)] < hi) THEN 0
    ELSE IF dp = ht
      THEN IF x.t = "L" /\ Len(x.vs) = Len(x.ks) THEN i + 1 ELSE 0
    ELSE IF x.t # "N" \/ Len(x.ch) # Len(x.ks) + 1 THEN 0
    ELSE FoldLeftDomain(
           LAMBDA pos, j :
             IF pos = 0 \/ pos > Len(n) THEN 0
             ELSE IF n[pos].a # x.ch[j] THEN 0
             ELSE Behind(n, ht, pos, dp + 1,
                         IF j = 1 THEN lo ELSE x.ks[j - 1],
                         IF j = Len(x.ch) THEN hi ELSE x.ks[j]),
           i + 1, x.ch)

(* balanced, ordered, separated: every key can be found from the root *)
Searchable(n, ht, K) ==
  /\ Len(n) > 0
  /\ Behind(n, ht, 1, 1, 1, K + 1) = Len(n) + 1

Leaves(n)    == SelectSeq(n, LAMBDA x : x.t = "L")
NonLeaves(n) == SelectSeq(n, LAMBDA x : x.t = "N")

(* the leaf list is a ring through all leaves in key order *)
Ring(n, head, tail) ==
  LET L == Leaves(n)
      N == Len(L)
  IN /\ L[1].a = head
     /\ L[N].a = tail
     /\ \A i \in 1..N : /\ L[i].nx = L[(i % N) + 1].a
                        /\ L[i].pv = L[((i + N - 2) % N) + 1].a

(* no page is used twice *)
OwnPages(n) == Cardinality({n[i].a : i \in 1..Len(n)}) = Len(n)

(* the leaves hold exactly the map m *)
Holds(n, m, cnt) ==
  LET L == Leaves(n) IN
  /\ \A i \in 1..Len(L) : \A j \in 1..Len(L[i].ks) :
        L[i].ks[j] \in 1..Len(m) /\ m[L[i].ks[j]] = L[i].vs[j]
  /\ FoldLeft(LAMBDA s, x : s + Len(x.ks), 0, L) = cnt

(* only a root may have fewer than two children or no record *)
NoStumps(n) ==
  \A i \in 1..Len(n) :
     IF n[i].t = "N" THEN Len(n[i].ch) >= 2
     ELSE n[i].dp > 1 => Len(n[i].ks) >= 1
=============================================================================

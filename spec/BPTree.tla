------------------------------- MODULE BPTree -------------------------------
(***************************************************************************)
(* The B+ tree under an ordered dictionary, as bptree/ implements it:      *)
(* pages with a byte budget, records and separators of different sizes,    *)
(* and the rebalancing that follows every change along the path from the   *)
(* root (shift to a sibling, split, unshift from a sibling, merge, more or *)
(* less height), with the path fixed up on the way exactly as in the code. *)
(*                                                                         *)
(* The operators below are functions from <<tree, path>> to <<tree, path>>;*)
(* one public call is one step.  They are used                             *)
(*  - with small budgets, for exhaustive checks of the design (BPTreeMC);  *)
(*  - with the budgets of the code, to predict, page by page, what the     *)
(*    real code made of the same call (BPTreeTrace).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, BPTreeInv, TLC

CONSTANTS MaxKey, MaxVal,      \* largest in-page sizes of a key and a value
          RecHdr, LeafCap,     \* header of a record, budget of a leaf
          ChildHdr, NodeCap,   \* header of a child, budget of a non-leaf
          Mistakes             \* deliberate deviations (see BPTreeMC)

MaxRec    == RecHdr + MaxKey + MaxVal
LeafOver  == LeafCap - MaxRec
LeafUnder == ((LeafOver - MaxRec) * 3) \div 8 + 1
MaxChild  == ChildHdr + MaxKey
NodeOver  == NodeCap - MaxChild
NodeUnder == ((NodeOver - MaxChild) * 3) \div 8 + 1

(* Removing a record never empties a page that was filled enough, so the   *)
(* first key of a leaf always exists; a non-leaf always has a separator.   *)
ASSUME LeafUnder > MaxRec /\ NodeUnder > MaxChild

(* A tree: root, height, both ends of the leaf list, pages, the sizes of   *)
(* keys (sz[k]).  Pages are numbered.                                      *)
(*   leaf     [t |-> "L", ks, vs, pv, nx]   vs: <<value, in-page size>>    *)
(*   non-leaf [t |-> "N", ks, ch]           ks[1] = 0: the first child has *)
(*                                          no separator                   *)
EmptyTree(sz) ==
  [root |-> 1, ht |-> 1, head |-> 1, tail |-> 1, rc |-> 0, sz |-> sz,
   nd |-> (1 :> [t |-> "L", ks |-> << >>, vs |-> << >>, pv |-> 1, nx |-> 1])]

KS(T, k) == IF k = 0 THEN 0 ELSE T.sz[k]
RecSz(T, n, i) == RecHdr + T.sz[n.ks[i]] + n.vs[i][2]
LLoad(T, n) == FoldLeftDomain(LAMBDA s, i : s + RecSz(T, n, i), 0, n.ks)
NLoad(T, n) == FoldLeftDomain(LAMBDA s, i : s + ChildHdr + KS(T, n.ks[i]), 0, n.ks)

Fresh(T) == CHOOSE a \in 1..Cardinality(DOMAIN T.nd) + 1 : a \notin DOMAIN T.nd
Put(T, a, n) == [T EXCEPT !.nd = TLCEval([x \in DOMAIN T.nd \cup {a} |-> IF x = a THEN n ELSE T.nd[x]])]
Free(T, a) == [T EXCEPT !.nd = TLCEval([x \in DOMAIN T.nd \ {a} |-> T.nd[x]])]

(* sequences, with positions counted from 0 as in the code *)
First(s, n) == SubSeq(s, 1, n)
From(s, n)  == SubSeq(s, n + 1, Len(s))
Ins(s, i, x) == First(s, i) \o <<x>> \o From(s, i)
Del(s, i)   == First(s, i) \o From(s, i + 1)

----------------------------------------------------------------------------
(* finding: 0 and K+1 are the marks for the smallest and the largest key   *)
Child(n, k, K) ==
  CASE k = 0 -> 0
    [] k = K + 1 -> Len(n.ch) - 1
    [] OTHER -> FoldLeftDomain(LAMBDA c, i : IF i > 1 /\ n.ks[i] <= k THEN i - 1 ELSE c, 0, n.ks)
LocIn(n, k, K) ==        \* <<index, found>>
  CASE k = 0 -> <<0, TRUE>>
    [] k = K + 1 -> <<Len(n.ks) - 1, TRUE>>
    [] OTHER -> LET i == FoldLeft(LAMBDA c, x : IF x < k THEN c + 1 ELSE c, 0, n.ks)
                IN <<i, i < Len(n.ks) /\ n.ks[i + 1] = k>>

NKeys(T) == Len(T.sz)
RECURSIVE FindFrom(_, _, _, _)
FindFrom(T, a, k, p) ==  \* <<path, found>>; a path is a sequence of <<page, index>>
  LET n == T.nd[a] IN
  IF Len(p) + 1 = T.ht
  THEN LET l == LocIn(n, k, NKeys(T)) IN <<Append(p, <<a, l[1]>>), l[2]>>
  ELSE LET c == Child(n, k, NKeys(T)) IN FindFrom(T, n.ch[c + 1], k, Append(p, <<a, c>>))
Find(T, k) == IF T.rc = 0 THEN << << <<T.root, 0>> >>, FALSE>> ELSE FindFrom(T, T.root, k, << >>)

----------------------------------------------------------------------------
(* how much to move                                                        *)
RECURSIVE SplitCnt(_, _, _, _, _, _)
SplitCnt(T, n, i, l1, l2, c) ==
  LET s == RecSz(T, n, i) IN
  IF l1 - s < LeafUnder THEN c
  ELSE IF l1 - s <= l2 + s THEN c + 1
  ELSE SplitCnt(T, n, i - 1, l1 - s, l2 + s, c + 1)
SplitLeafCount(T, n) == SplitCnt(T, n, Len(n.ks), LLoad(T, n), 0, 0)

Settle(l1, l2, c, over, under) == IF l1 > over \/ l2 < under THEN 0 ELSE c

(* from the end (d = -1) or the beginning (d = 1) of leaf n *)
RECURSIVE ShiftCnt(_, _, _, _, _, _, _)
ShiftCnt(T, n, i, d, l1, l2, c) ==
  LET s == RecSz(T, n, i) IN
  IF l1 - s < LeafUnder \/ l2 + s > LeafOver
  THEN IF "leafcount" \in Mistakes  \* as found: judged with the refused record moved
       THEN Settle(l1 - s, l2 + s, c, LeafOver, LeafUnder)
       ELSE Settle(l1, l2, c, LeafOver, LeafUnder)
  ELSE IF l1 - s <= l2 + s THEN Settle(l1 - s, l2 + s, c + 1, LeafOver, LeafUnder)
  ELSE ShiftCnt(T, n, i + d, d, l1 - s, l2 + s, c + 1)
ShiftRightCount(T, n, r) == ShiftCnt(T, n, Len(n.ks), -1, LLoad(T, n), LLoad(T, r), 0)
ShiftLeftCount(T, n, l)  == ShiftCnt(T, n, 1, 1, LLoad(T, n), LLoad(T, l), 0)

RECURSIVE NSplitCnt(_, _, _, _, _, _, _)
NSplitCnt(T, n, i, last, l1, l2, c) ==   \* last: size of the child before the move
  IF l1 < NodeUnder THEN c
  ELSE IF l1 <= l2 THEN c + 1
  ELSE LET s == ChildHdr + KS(T, n.ks[i])
       IN NSplitCnt(T, n, i - 1, s, l1 - s, l2 + last, c + 1)
SplitNodeCount(T, n) ==
  LET last == ChildHdr + KS(T, n.ks[Len(n.ks)])
  IN NSplitCnt(T, n, Len(n.ks) - 1, last, NLoad(T, n) - last, ChildHdr, 0)

(* children move through the parent: sep is the separator that comes down  *)
RECURSIVE NShiftCnt(_, _, _, _, _, _, _, _)
NShiftCnt(T, n, i, d, sep, l1, l2, c) ==
  LET nxt == KS(T, n.ks[i])
      s1  == ChildHdr + nxt
      s2  == ChildHdr + (IF "nodecount" \in Mistakes THEN nxt ELSE sep) \* as found: sep ignored
  IN
  IF l1 - s1 < NodeUnder \/ l2 + s2 > NodeOver THEN Settle(l1, l2, c, NodeOver, NodeUnder)
  ELSE IF l1 - s1 <= l2 + s2 THEN Settle(l1 - s1, l2 + s2, c + 1, NodeOver, NodeUnder)
  ELSE NShiftCnt(T, n, i + d, d, nxt, l1 - s1, l2 + s2, c + 1)
\* p: the parent, j: index of n in it
NShiftRightCount(T, p, j, n, r) == NShiftCnt(T, n, Len(n.ks), -1, KS(T, p.ks[j + 2]), NLoad(T, n), NLoad(T, r), 0)
NShiftLeftCount(T, p, j, n, l)  == NShiftCnt(T, n, 2, 1, KS(T, p.ks[j + 1]), NLoad(T, n), NLoad(T, l), 0)

----------------------------------------------------------------------------
(* moving                                                                  *)

\* c records from the end of leaf a to its right sibling b; parent q, a at j
MoveRight(T, q, j, a, b, c) ==
  LET n == T.nd[a] r == T.nd[b] m == Len(n.ks) - c IN
  [T EXCEPT !.nd[a] = [n EXCEPT !.ks = First(n.ks, m), !.vs = First(n.vs, m)],
            !.nd[b] = [r EXCEPT !.ks = From(n.ks, m) \o r.ks, !.vs = From(n.vs, m) \o r.vs],
            !.nd[q].ks[j + 2] = n.ks[m + 1]]
\* c records from the beginning of leaf a to its left sibling b; a at j
MoveLeft(T, q, j, a, b, c) ==
  LET n == T.nd[a] l == T.nd[b] IN
  [T EXCEPT !.nd[a] = [n EXCEPT !.ks = From(n.ks, c), !.vs = From(n.vs, c)],
            !.nd[b] = [l EXCEPT !.ks = l.ks \o First(n.ks, c), !.vs = l.vs \o First(n.vs, c)],
            !.nd[q].ks[j + 1] = n.ks[c + 1]]
NMoveRight(T, q, j, a, b, c) ==
  LET n == T.nd[a] r == T.nd[b] m == Len(n.ks) - c
      down == T.nd[q].ks[j + 2] up == n.ks[m + 1] IN
  [T EXCEPT !.nd[a] = [n EXCEPT !.ks = First(n.ks, m), !.ch = First(n.ch, m)],
            !.nd[b] = [r EXCEPT !.ks = <<0>> \o From(n.ks, m + 1) \o <<down>> \o From(r.ks, 1), !.ch = From(n.ch, m) \o r.ch],
            !.nd[q].ks[j + 2] = up]
NMoveLeft(T, q, j, a, b, c) ==
  LET n == T.nd[a] l == T.nd[b]
      down == T.nd[q].ks[j + 1] up == n.ks[c + 1] IN
  [T EXCEPT !.nd[a] = [n EXCEPT !.ks = <<0>> \o From(n.ks, c + 1), !.ch = From(n.ch, c)],
            !.nd[b] = [l EXCEPT !.ks = l.ks \o <<down>> \o SubSeq(n.ks, 2, c), !.ch = l.ch \o First(n.ch, c)],
            !.nd[q].ks[j + 1] = up]

LinkAfter(T, a, prev) ==
  LET nx == T.nd[prev].nx
      T1 == [T EXCEPT !.nd[a].pv = prev, !.nd[a].nx = nx]
      T2 == [T1 EXCEPT !.nd[prev].nx = a]
      T3 == [T2 EXCEPT !.nd[nx].pv = a]
  IN [T3 EXCEPT !.tail = IF prev = @ THEN a ELSE @]
Unlink(T, a) ==
  LET pv == T.nd[a].pv nx == T.nd[a].nx
      T1 == [T EXCEPT !.nd[pv].nx = nx]
      T2 == [T1 EXCEPT !.nd[nx].pv = pv]
  IN IF a = T.head THEN [T2 EXCEPT !.head = nx]
     ELSE IF a = T.tail THEN [T2 EXCEPT !.tail = pv] ELSE T2

Higher(T) ==
  LET a == Fresh(T) IN [Put(T, a, [t |-> "N", ks |-> <<0>>, ch |-> <<T.root>>]) EXCEPT !.root = a, !.ht = @ + 1]
Lower(T) ==
  LET c == T.nd[T.root].ch[1] IN [Free(T, T.root) EXCEPT !.root = c, !.ht = @ - 1]

----------------------------------------------------------------------------
(* S: [T |-> tree, p |-> path, br |-> which cases were taken]              *)
Took(S, b) == [S EXCEPT !.br = Append(@, b)]
PA(S, i) == S.p[i][1]
PI(S, i) == S.p[i][2]

RECURSIVE NotOverNode(_, _), NotUnderNode(_, _)

BothNode(S, i) == NotOverNode(NotUnderNode(S, i), i)

Raise(S) ==
  LET T1 == Higher(S.T) IN Took([S EXCEPT !.T = T1, !.p = << <<T1.root, 0>> >> \o @], "higher")

NotOverLeaf2(S) ==
  LET i == Len(S.p)
      T == S.T
      a == PA(S, i)  n == T.nd[a]  x == PI(S, i)
      q == PA(S, i - 1)  j == PI(S, i - 1)  par == T.nd[q]
      hasR == j < Len(par.ch) - 1
      b == par.ch[j + 2]
      cr == IF hasR THEN ShiftRightCount(T, n, T.nd[b]) ELSE 0
      hasL == j >= 1
      l == par.ch[j]
      cl == IF cr = 0 /\ hasL THEN ShiftLeftCount(T, n, T.nd[l]) ELSE 0
  IN
  IF cr >= 1 THEN
    LET m == Len(n.ks) - cr
        T1 == MoveRight(T, q, j, a, b, cr)
        p1 == IF x >= m THEN [S.p EXCEPT ![i] = <<b, x - m>>, ![i - 1] = <<q, j + 1>>] ELSE S.p
    IN BothNode(Took([S EXCEPT !.T = T1, !.p = p1], IF x >= m THEN "shiftR.follow" ELSE "shiftR.stay"), i - 1)
  ELSE IF cl >= 1 THEN
    LET m == Len(T.nd[l].ks)
        T1 == MoveLeft(T, q, j, a, l, cl)
        p1 == IF x < cl THEN [S.p EXCEPT ![i] = <<l, m + x>>, ![i - 1] = <<q, j - 1>>]
              ELSE [S.p EXCEPT ![i] = <<a, x - cl>>]
    IN BothNode(Took([S EXCEPT !.T = T1, !.p = p1], IF x < cl THEN "shiftL.follow" ELSE "shiftL.stay"), i - 1)
  ELSE
    LET c == SplitLeafCount(T, n)
        m == Len(n.ks) - c
        z == Fresh(T)
        T1 == Put(T, z, [t |-> "L", ks |-> From(n.ks, m), vs |-> From(n.vs, m), pv |-> z, nx |-> z])
        T2 == [T1 EXCEPT !.nd[a].ks = First(@, m), !.nd[a].vs = First(@, m),
                         !.nd[q].ks = Ins(@, j + 1, n.ks[m + 1]), !.nd[q].ch = Ins(@, j + 1, z)]
        T3 == LinkAfter(T2, z, a)
        p1 == IF x >= m THEN [S.p EXCEPT ![i] = <<z, x - m>>, ![i - 1] = <<q, j + 1>>] ELSE S.p
    IN NotOverNode(Took([S EXCEPT !.T = T3, !.p = p1], IF x >= m THEN "split.follow" ELSE "split.stay"), i - 1)

NotOverLeaf(S) ==
  LET i == Len(S.p) IN
  IF LLoad(S.T, S.T.nd[PA(S, i)]) <= LeafOver THEN S
  ELSE IF i = 1 THEN NotOverLeaf2(Raise(S)) ELSE NotOverLeaf2(S)

NotOverNode2(S, i) ==
  LET T == S.T
      a == PA(S, i)  n == T.nd[a]  x == PI(S, i)
      q == PA(S, i - 1)  j == PI(S, i - 1)  par == T.nd[q]
      hasR == j < Len(par.ch) - 1
      b == par.ch[j + 2]
      cr == IF hasR THEN NShiftRightCount(T, par, j, n, T.nd[b]) ELSE 0
      hasL == j >= 1
      l == par.ch[j]
      cl == IF cr = 0 /\ hasL THEN NShiftLeftCount(T, par, j, n, T.nd[l]) ELSE 0
  IN
  IF cr >= 1 THEN
    LET m == Len(n.ch) - cr
        T1 == NMoveRight(T, q, j, a, b, cr)
        p1 == IF x >= m THEN [S.p EXCEPT ![i] = <<b, x - m>>, ![i - 1] = <<q, j + 1>>] ELSE S.p
    IN BothNode(Took([S EXCEPT !.T = T1, !.p = p1], IF x >= m THEN "NshiftR.follow" ELSE "NshiftR.stay"), i - 1)
  ELSE IF cl >= 1 THEN
    LET m == Len(T.nd[l].ch)
        T1 == NMoveLeft(T, q, j, a, l, cl)
        p1 == IF x < cl THEN [S.p EXCEPT ![i] = <<l, m + x>>, ![i - 1] = <<q, j - 1>>]
              ELSE [S.p EXCEPT ![i] = <<a, x - cl>>]
    IN BothNode(Took([S EXCEPT !.T = T1, !.p = p1], IF x < cl THEN "NshiftL.follow" ELSE "NshiftL.stay"), i - 1)
  ELSE
    LET c == SplitNodeCount(T, n)
        m == Len(n.ch) - c
        z == Fresh(T)
        T1 == Put(T, z, [t |-> "N", ks |-> <<0>> \o From(n.ks, m + 1), ch |-> From(n.ch, m)])
        T2 == [T1 EXCEPT !.nd[a].ks = First(@, m), !.nd[a].ch = First(@, m),
                         !.nd[q].ks = Ins(@, j + 1, n.ks[m + 1]), !.nd[q].ch = Ins(@, j + 1, z)]
        p1 == IF x >= m THEN [S.p EXCEPT ![i] = <<z, x - m>>, ![i - 1] = <<q, j + 1>>] ELSE S.p
    IN NotOverNode(Took([S EXCEPT !.T = T2, !.p = p1], IF x >= m THEN "Nsplit.follow" ELSE "Nsplit.stay"), i - 1)

NotOverNode(S, i) ==
  IF i >= Len(S.p) /\ "leafasnode" \notin Mistakes THEN S
  ELSE LET n == S.T.nd[PA(S, i)] IN
    IF n.t = "L" THEN Took(S, "LEAF READ AS NON-LEAF")   \* what the code did as found
    ELSE IF NLoad(S.T, n) <= NodeOver THEN S
    ELSE IF i = 1 THEN NotOverNode2(Raise(S), 2) ELSE NotOverNode2(S, i)

NotUnderNode(S, i) ==
  LET T == S.T
      a == PA(S, i)  n == T.nd[a]
  IN
  IF i = 1
  THEN IF Len(n.ch) = 1 THEN Took([S EXCEPT !.T = Lower(T), !.p = Tail(@)], "lower") ELSE S
  ELSE IF NLoad(T, n) >= NodeUnder THEN S
  ELSE
  LET x == PI(S, i)
      q == PA(S, i - 1)  j == PI(S, i - 1)  par == T.nd[q]
      hasR == j < Len(par.ch) - 1
      b == par.ch[j + 2]
      cr == IF hasR THEN NShiftLeftCount(T, par, j + 1, T.nd[b], n) ELSE 0
      hasL == j >= 1
      l == par.ch[j]
      cl == IF cr = 0 /\ hasL THEN NShiftRightCount(T, par, j - 1, T.nd[l], n) ELSE 0
  IN
  IF cr >= 1 THEN BothNode(Took([S EXCEPT !.T = NMoveLeft(T, q, j + 1, b, a, cr)], "NunshiftR"), i - 1)
  ELSE IF cl >= 1 THEN BothNode(Took([S EXCEPT !.T = NMoveRight(T, q, j - 1, l, a, cl), !.p = [@ EXCEPT ![i] = <<a, cl + x>>]], "NunshiftL"), i - 1)
  ELSE IF hasR THEN
    LET r == T.nd[b]
        T1 == [T EXCEPT !.nd[a].ks = @ \o <<par.ks[j + 2]>> \o From(r.ks, 1), !.nd[a].ch = @ \o r.ch,
                        !.nd[q].ks = Del(@, j + 1), !.nd[q].ch = Del(@, j + 1)]
    IN NotUnderNode(Took([S EXCEPT !.T = Free(T1, b)], "NmergeR"), i - 1)
  ELSE
    LET m == Len(T.nd[l].ch)
        T1 == [T EXCEPT !.nd[l].ks = @ \o <<par.ks[j + 1]>> \o From(n.ks, 1), !.nd[l].ch = @ \o n.ch,
                        !.nd[q].ks = Del(@, j), !.nd[q].ch = Del(@, j)]
    IN NotUnderNode(Took([S EXCEPT !.T = Free(T1, a), !.p = [@ EXCEPT ![i] = <<l, m + x>>, ![i - 1] = <<q, j - 1>>]], "NmergeL"), i - 1)

NotUnderLeaf(S) ==
  LET i == Len(S.p)
      T == S.T
      a == PA(S, i)  n == T.nd[a]
  IN
  IF i = 1 \/ LLoad(T, n) >= LeafUnder THEN S
  ELSE
  LET x == PI(S, i)
      q == PA(S, i - 1)  j == PI(S, i - 1)  par == T.nd[q]
      hasR == j < Len(par.ch) - 1
      b == par.ch[j + 2]
      cr == IF hasR THEN ShiftLeftCount(T, T.nd[b], n) ELSE 0
      hasL == j >= 1
      l == par.ch[j]
      cl == IF cr = 0 /\ hasL THEN ShiftRightCount(T, T.nd[l], n) ELSE 0
  IN
  IF cr >= 1 THEN BothNode(Took([S EXCEPT !.T = MoveLeft(T, q, j + 1, b, a, cr)], "unshiftR"), i - 1)
  ELSE IF cl >= 1 THEN BothNode(Took([S EXCEPT !.T = MoveRight(T, q, j - 1, l, a, cl), !.p = [@ EXCEPT ![i] = <<a, cl + x>>]], "unshiftL"), i - 1)
  ELSE IF hasR THEN
    LET T0 == Unlink(T, b)
        r == T0.nd[b]
        T1 == [T0 EXCEPT !.nd[a].ks = @ \o r.ks, !.nd[a].vs = @ \o r.vs,
                         !.nd[q].ks = Del(@, j + 1), !.nd[q].ch = Del(@, j + 1)]
    IN NotUnderNode(Took([S EXCEPT !.T = Free(T1, b)], "mergeR"), i - 1)
  ELSE
    LET T0 == Unlink(T, a)
        m == Len(T.nd[l].ks)
        T1 == [T0 EXCEPT !.nd[l].ks = @ \o n.ks, !.nd[l].vs = @ \o n.vs,
                         !.nd[q].ks = Del(@, j), !.nd[q].ch = Del(@, j)]
    IN NotUnderNode(Took([S EXCEPT !.T = Free(T1, a), !.p = [@ EXCEPT ![i] = <<l, m + x>>, ![i - 1] = <<q, j - 1>>]], "mergeL"), i - 1)

(* the first key of a leaf has changed: so has the separator that leads here *)
SyncKey(S) ==
  LET n == Len(S.p) IN
  IF n < 2 \/ PI(S, n) >= 1 THEN S
  ELSE LET Is == {i \in 1..n - 1 : PI(S, i) >= 1} IN
    IF Is = {} THEN S
    ELSE LET i == CHOOSE y \in Is : \A z \in Is : z <= y
             k == S.T.nd[PA(S, n)].ks[1]
         IN BothNode(Took([S EXCEPT !.T.nd[PA(S, i)].ks[PI(S, i) + 1] = k], IF i = n - 1 THEN "sync.parent" ELSE "sync.above"), i)

----------------------------------------------------------------------------
(* public calls: k a key, v a value, s its in-page size                    *)
St(T, p) == [T |-> T, p |-> p, br |-> << >>]

Insert(T, k, v, s) ==
  LET f == Find(T, k)
      p == f[1]
      a == p[Len(p)][1]  x == p[Len(p)][2]
      T1 == [T EXCEPT !.nd[a].ks = Ins(@, x, k), !.nd[a].vs = Ins(@, x, <<v, s>>)]
      R == NotOverLeaf(SyncKey(St(T1, p)))
  IN [R EXCEPT !.T.rc = @ + 1]
Replace(T, k, v, s) ==
  LET f == Find(T, k)
      p == f[1]
      a == p[Len(p)][1]  x == p[Len(p)][2]
      T1 == [T EXCEPT !.nd[a].vs[x + 1] = <<v, s>>]
  IN NotOverLeaf(NotUnderLeaf(St(T1, p)))
Remove1(T, k) ==
  LET f == Find(T, k)
      p == f[1]
      a == p[Len(p)][1]  x == p[Len(p)][2]
      T1 == [T EXCEPT !.nd[a].ks = Del(@, x), !.nd[a].vs = Del(@, x)]
      \* a leaf that is not the root never becomes empty here
      R == NotUnderLeaf(SyncKey(St(T1, p)))
  IN [R EXCEPT !.T.rc = @ - 1]

(* range search: <<min leaf, index, max leaf, index, found>>, as in the code *)
Nothing == <<0, 0, 0, 0, FALSE>>
Search(T, lo, hi) ==
  LET K == NKeys(T)
      mark(k) == k = 0 \/ k = K + 1
      \* both bounds marks: the same one, or opposite ones in either order
      d0 == IF mark(lo) /\ mark(hi)
            THEN IF (lo = 0) = (hi = 0) \/ T.rc = 1 THEN 0 ELSE IF lo # 0 THEN 1 ELSE -1
            ELSE IF mark(lo) \/ mark(hi) THEN -1
            ELSE IF lo < hi THEN -1 ELSE IF lo = hi THEN 0 ELSE 1
  IN
  IF T.rc = 0 \/ d0 > 0 THEN Nothing
  ELSE
  LET f  == Find(T, lo)
      a0 == f[1][Len(f[1])][1]
      x0 == f[1][Len(f[1])][2]
      past == ~f[2] /\ x0 = Len(T.nd[a0].ks)
      a == IF past THEN T.nd[a0].nx ELSE a0
      x == IF past THEN 0 ELSE x0
      mk0 == IF past /\ "oldleaf" \in Mistakes
             THEN T.nd[a0].ks[1]                   \* as found: read from the leaf before
             ELSE T.nd[a].ks[x + 1]
      known == ~mark(lo) /\ f[2]
      mk == IF known THEN lo ELSE mk0
      g  == Find(T, hi)
      b  == g[1][Len(g[1])][1]
      y  == IF g[2] THEN g[1][Len(g[1])][2] ELSE g[1][Len(g[1])][2] - 1
      hk == IF ~mark(hi) /\ g[2] THEN hi ELSE T.nd[b].ks[y + 1]
  IN
  IF past /\ a0 = T.tail THEN Nothing
  ELSE IF d0 = 0 THEN <<a, x, a, x, f[2] \/ "absentone" \in Mistakes>>
  ELSE IF ~known /\ ~mark(hi) /\ mk > hi THEN Nothing
  ELSE IF ~known /\ ~mark(hi) /\ mk = hi THEN <<a, x, a, x, TRUE>>
  ELSE IF (mark(hi) \/ ~g[2]) /\ mk > hk THEN Nothing
  ELSE <<a, x, b, y, TRUE>>

(* what an iterator delivers; cut off when it goes round                   *)
RECURSIVE Fwd(_, _, _, _, _, _), Bwd(_, _, _, _, _, _)
Fwd(T, a, x, b, y, out) ==
  LET o == Append(out, T.nd[a].ks[x + 1]) IN
  IF Len(o) > T.rc \/ (a = b /\ x = y) THEN o
  ELSE IF x < Len(T.nd[a].ks) - 1 THEN Fwd(T, a, x + 1, b, y, o)
  ELSE Fwd(T, T.nd[a].nx, 0, b, y, o)
Bwd(T, a, x, b, y, out) ==
  LET o == Append(out, T.nd[a].ks[x + 1]) IN
  IF Len(o) > T.rc \/ (a = b /\ x = y) THEN o
  ELSE IF x >= 1 THEN Bwd(T, a, x - 1, b, y, o)
  ELSE LET c == T.nd[a].pv IN Bwd(T, c, Len(T.nd[c].ks) - 1, b, y, o)
Forward(T, lo, hi)  == LET s == Search(T, lo, hi) IN IF s[5] THEN Fwd(T, s[1], s[2], s[3], s[4], << >>) ELSE << >>
Backward(T, lo, hi) == LET s == Search(T, lo, hi) IN IF s[5] THEN Bwd(T, s[3], s[4], s[1], s[2], << >>) ELSE << >>

----------------------------------------------------------------------------
(* the tree as a list of pages in preorder, for BPTreeInv *)
RECURSIVE Pre(_, _, _)
Pre(T, a, dp) ==
  LET n == T.nd[a] IN
  IF n.t = "L" THEN <<[t |-> "L", a |-> a, dp |-> dp, pv |-> n.pv, nx |-> n.nx, ks |-> n.ks, vs |-> n.vs]>>
  ELSE <<[t |-> "N", a |-> a, dp |-> dp, ks |-> Tail(n.ks), ch |-> n.ch]>>
       \o FoldLeft(LAMBDA s, c : s \o Pre(T, c, dp + 1), << >>, n.ch)
Pages(T) == Pre(T, T.root, 1)

(* the same without page numbers: equal for trees that differ only in them *)
RECURSIVE Nest(_, _)
Nest(T, a) ==
  LET n == T.nd[a] IN
  IF n.t = "L" THEN <<n.ks, n.vs>> ELSE <<Tail(n.ks), [i \in 1..Len(n.ch) |-> Nest(T, n.ch[i])]>>

LeafLoads(T)  == {LLoad(T, T.nd[a]) : a \in {x \in DOMAIN T.nd \ {T.root} : T.nd[x].t = "L"}}
NodeLoads(T)  == {NLoad(T, T.nd[a]) : a \in {x \in DOMAIN T.nd \ {T.root} : T.nd[x].t = "N"}}
RootLoad(T)   == LET n == T.nd[T.root] IN IF n.t = "L" THEN LLoad(T, n) ELSE NLoad(T, n)

(* What every reachable tree satisfies; m: what it should hold              *)
Shaped(T) ==
  LET n == Pages(T) IN
  /\ Searchable(n, T.ht, NKeys(T))
  /\ Ring(n, T.head, T.tail)
  /\ OwnPages(n)
  /\ {n[i].a : i \in 1..Len(n)} = DOMAIN T.nd      \* nothing leaked
Faithful(T, m) ==
  LET L == Leaves(Pages(T)) IN
  /\ T.rc = Cardinality(DOMAIN m)
  /\ \A i \in 1..Len(L) : \A j \in 1..Len(L[i].ks) : L[i].ks[j] \in DOMAIN m /\ m[L[i].ks[j]] = L[i].vs[j]
  /\ FoldLeft(LAMBDA s, x : s + Len(x.ks), 0, L) = T.rc
Bushy(T) == NoStumps(Pages(T))
(* every page but the root is filled within its bounds *)
LeavesFull(T) == \A z \in LeafLoads(T) : LeafUnder <= z /\ z <= LeafOver
NodesFull(T)  == \A z \in NodeLoads(T) : NodeUnder <= z /\ z <= NodeOver
RootFits(T)   == RootLoad(T) <= (IF T.ht = 1 THEN LeafOver ELSE NodeOver)
(* nothing ever exceeds a page *)
Within(T)     == \A a \in DOMAIN T.nd : IF T.nd[a].t = "L" THEN LLoad(T, T.nd[a]) <= LeafCap ELSE NLoad(T, T.nd[a]) <= NodeCap
=============================================================================

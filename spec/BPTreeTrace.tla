---------------------------- MODULE BPTreeTrace ----------------------------
(***************************************************************************)
(* Does BPTree describe the real trees?  The model performs every call of  *)
(* a recorded history with the budgets of the code; whenever the file was  *)
(* decoded, the tree of the model has to be the tree of the file, page by  *)
(* page and record by record; every range must be found where the model    *)
(* finds it; heights and page counts must agree.                           *)
(*                                                                         *)
(* The properties do not prescribe one particular way of rebalancing, so a *)
(* difference is reported as DIVERGED and not as a violation: the model    *)
(* then takes over the tree of the file and goes on.  What is counted is   *)
(* which cases of rebalancing the real code was taken through.             *)
(***************************************************************************)
EXTENDS BPTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)

VARIABLES l, hd,
          T,      \* the tree as the model has it
          known,  \* FALSE: keys were changed in an unknown order
          cases,  \* how often each case of rebalancing was taken
          good,   \* trees that agreed
          bad     \* differences
vars == <<l, hd, T, known, cases, good, bad>>

e == Trace[l]
H == Trace[hd]
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ l = 1 /\ hd = 1 /\ T = EmptyTree(<< >>) /\ known = TRUE
        /\ cases = << >> /\ good = 0 /\ bad = 0

Is(k) == l <= N /\ e.e = k
Step  == l' = l + 1
Diff(same, what) == IF same THEN TRUE ELSE PrintT(<<"DIVERGED", what, l, H.id>>)

Header ==
  /\ Is("hdr") /\ Step
  /\ hd' = l /\ T' = EmptyTree([k \in 1..e.K |-> Min2(e.ks[k], MaxKey)]) /\ known' = TRUE
  /\ UNCHANGED <<cases, good, bad>>

Size(v) == IF v <= 0 THEN 0 ELSE Min2(H.vs[v], MaxVal)

Count(c, br) == FoldLeft(LAMBDA f, b : IF b \in DOMAIN f THEN [f EXCEPT ![b] = @ + 1] ELSE (b :> 1) @@ f, c, br)

Op ==
  /\ Is("op") /\ e.n = 1 /\ Step
  /\ \E f \in {IF known THEN Find(T, e.lo)[2] ELSE FALSE} :
       LET o == e.o
           v == IF o \in {"set", "sie", "sin"} THEN e.v[1] ELSE 0
           what == CASE ~known -> "none"
                     [] o = "tst" -> "none"
                     [] o = "clr" -> IF f THEN "del" ELSE "none"
                     [] f -> IF o = "sin" THEN "none" ELSE "rep"
                     [] OTHER -> IF o = "sie" THEN "none" ELSE "ins"
       IN IF what = "none" THEN UNCHANGED <<T, cases>>
          ELSE \E R \in {CASE what = "ins" -> Insert(T, e.lo, v, Size(v))
                           [] what = "rep" -> Replace(T, e.lo, v, Size(v))
                           [] what = "del" -> Remove1(T, e.lo)} :
                 /\ T' = R.T
                 /\ cases' = Count(cases, R.br)
  /\ UNCHANGED <<hd, known, good, bad>>

Batch ==
  /\ Is("op") /\ e.n > 1 /\ Step
  /\ known' = (known /\ e.o = "tst")
  /\ UNCHANGED <<hd, T, cases, good, bad>>

(* the tree of a decoded file *)
FromFile ==
  LET n == e.nodes IN
  [root |-> e.root, ht |-> e.ht, head |-> e.head, tail |-> e.tail, rc |-> e.rc, sz |-> T.sz,
   nd |-> [a \in {n[i].a : i \in 1..Len(n)} |->
             LET x == n[CHOOSE i \in 1..Len(n) : n[i].a = a] IN
             IF x.t = "L" THEN [t |-> "L", ks |-> x.ks, vs |-> [i \in 1..Len(x.vs) |-> <<x.vs[i], Size(x.vs[i])>>], pv |-> x.pv, nx |-> x.nx]
             ELSE [t |-> "N", ks |-> <<0>> \o x.ks, ch |-> x.ch]]]
Alike(p, n) ==
  /\ Len(p) = Len(n)
  /\ \A i \in 1..Len(p) :
       /\ p[i].t = n[i].t /\ p[i].ks = n[i].ks
       /\ IF p[i].t = "L" THEN Len(p[i].vs) = Len(n[i].vs) /\ \A j \in 1..Len(n[i].vs) : p[i].vs[j][1] = n[i].vs[j]
          ELSE Len(p[i].ch) = Len(n[i].ch)

Tree ==
  /\ Is("tree") /\ Step
  /\ \E same \in {known /\ e.ht = T.ht /\ e.rc = T.rc /\ Alike(Pages(T), e.nodes)} :
       /\ Diff(same \/ ~known, "tree")
       /\ good' = good + (IF same THEN 1 ELSE 0)
       /\ bad' = bad + (IF same \/ ~known THEN 0 ELSE 1)
       /\ IF same THEN T' = T ELSE T' = FromFile
  /\ known' = TRUE
  /\ UNCHANGED <<hd, cases>>

Range_ ==
  /\ Is("rng") /\ Step
  /\ \E same \in {known => e.ks = IF e.dir = "asc" THEN Forward(T, e.lo, e.hi) ELSE Backward(T, e.lo, e.hi)} :
       /\ Diff(same, "range")
       /\ good' = good + (IF same /\ known THEN 1 ELSE 0)
       /\ bad' = bad + (IF same THEN 0 ELSE 1)
  /\ UNCHANGED <<hd, T, known, cases>>

Stat ==
  /\ Is("st") /\ Step
  /\ \E L \in {Cardinality({a \in DOMAIN T.nd : T.nd[a].t = "L"})} :
     \E same \in {known => e.ht = T.ht /\ e.rc = T.rc /\ e.lf = L /\ e.nl = Cardinality(DOMAIN T.nd) - L} :
       /\ Diff(same, "statistics")
       /\ good' = good + (IF same /\ known THEN 1 ELSE 0)
       /\ bad' = bad + (IF same THEN 0 ELSE 1)
  /\ UNCHANGED <<hd, T, known, cases>>

Other ==
  /\ l <= N /\ e.e \notin {"hdr", "op", "tree", "rng", "st"} /\ Step
  /\ UNCHANGED <<hd, T, known, cases, good, bad>>

Next == (Header \/ Op \/ Batch \/ Tree \/ Range_ \/ Stat \/ Other)
        /\ (l' = N + 1 => PrintT(<<"PREDICTED", good', bad', cases'>>))
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================

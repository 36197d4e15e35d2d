------------------------------ MODULE KVTrace ------------------------------
(***************************************************************************)
(* Is a recorded history of the real code a behaviour of the specification?*)
(*                                                                         *)
(* The trace is a file of JSON lines: every call on a real dictionary with *)
(* its arguments and results, statistics, decoded files.  Each line must be*)
(* explained by an action below, whose effect on the abstract map is given *)
(* by KVOps; Enforce selects the properties whose observations are bound.  *)
(* A history the specification does not explain has no further step: the   *)
(* postcondition Accepted fails and names the line.                        *)
(***************************************************************************)
EXTENDS KVOps, BPTreeInv, HashInv, SequencesExt, Json, IOUtils, TLC

CONSTANT Enforce        \* ids of the properties to be decided on this trace

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)

VARIABLES
  l,      \* next line of the trace
  hd,     \* line of the current header
  mem,    \* mem[d]: abstract content of dictionary d
  up,     \* up[d]: "no" (does not exist), "open", "shut"
  cnt,    \* cnt[d]: number of keys in mem[d]
  pay,    \* pay[d]: their total size in bytes
  same,   \* same[d]: last statistics line since which nothing was called
          \* that may change the dictionary or its file; 0 if none
  shape,  \* shape[d]: last statistics line since which no call changed the
          \* content; 0 if none
  cur     \* scan cursors in use

vars == <<l, hd, mem, up, cnt, pay, same, shape, cur>>

e   == Trace[l]
H   == Trace[hd]
K   == H.K
Is(k) == l <= N /\ e.e = k

(* a bound observation: property ids, a name for reports, the condition *)
Chk(P, tag, c) ==
  IF P \cap Enforce = {} THEN TRUE
  ELSE IF c THEN TRUE
  ELSE PrintT(<<"REJECT", l, tag, "END">>) /\ FALSE

Has(r, f) == f \in DOMAIN r

VS(v)     == IF v <= 0 THEN 0 ELSE H.vs[v]
KSz(k)    == H.ks[k]
Size(k, v) == IF v = Absent THEN 0 ELSE KSz(k) + VS(v)

Init ==
  /\ l = 1 /\ hd = 1
  /\ mem = << >> /\ up = << >> /\ cnt = << >> /\ pay = << >>
  /\ same = << >> /\ shape = << >> /\ cur = << >>

Step == l' = l + 1

----------------------------------------------------------------------------
(* a new trace starts: nothing exists *)
Header ==
  /\ Is("hdr") /\ Step
  /\ hd' = l
  /\ mem' = [d \in 1..e.nd |-> EmptyMap(e.K)]
  /\ up' = [d \in 1..e.nd |-> "no"]
  /\ cnt' = [d \in 1..e.nd |-> 0]
  /\ pay' = [d \in 1..e.nd |-> 0]
  /\ same' = [d \in 1..e.nd |-> 0]
  /\ shape' = [d \in 1..e.nd |-> 0]
  /\ cur' = << >>

OD(d) == H.kd[d] = "od"

(* properties a deviation from the abstract map speaks about: the first two *)
(* are about the operations themselves, the others claim that something     *)
(* else (closing, buffers, other users of the file ...) does not disturb    *)
(* them                                                                     *)
PAll      == Enforce
PUndisturbed(d) == {"C13", "C14", "C15", "C17", "C18"} \cup (IF OD(d) THEN {"C03"} ELSE {"C04"})
PPoint(d) == PUndisturbed(d) \cup (IF OD(d) THEN {"C01"} ELSE {"C02"})
PSent     == {"C16"}

(* Opening a dictionary that was closed brings back exactly what it held;   *)
(* opening one that does not exist makes an empty one, if asked to.         *)
Open ==
  /\ Is("open") /\ Step
  /\ LET d == e.d IN
     /\ Chk(PAll, "open of an existing or creatable dictionary", e.ok = (up[d] = "shut" \/ (up[d] = "no" /\ e.cr)))
     /\ up' = [up EXCEPT ![d] = IF e.ok THEN "open" ELSE @]
     /\ same' = [same EXCEPT ![d] = 0]
  /\ UNCHANGED <<hd, mem, cnt, pay, shape, cur>>

Close ==
  /\ Is("close") /\ Step
  /\ LET d == e.d IN
     /\ Chk(PAll, "close succeeds", e.ok /\ up[d] = "open")
     /\ up' = [up EXCEPT ![d] = "shut"]
     /\ same' = [same EXCEPT ![d] = 0]
  /\ UNCHANGED <<hd, mem, cnt, pay, shape, cur>>

----------------------------------------------------------------------------
(* scan cursors: what a cursor must and may still return *)
Touch(c, d, k, old, new) ==
  IF ~c.on \/ c.d # d THEN c
  ELSE [c EXCEPT !.must[k] = @ /\ new # Absent,
                 !.may[k] = IF new # Absent THEN @ \cup {new} ELSE @,
                 !.del = @ \/ new = Absent,
                 !.add = @ \/ old = Absent,
                 !.chg = TRUE]
TouchAll(d, k, old, new) ==
  IF cur = << >> THEN cur' = cur
  ELSE cur' = [i \in 1..Len(cur) |-> Touch(cur[i], d, k, old, new)]

(* one point operation *)
Point ==
  /\ Is("op") /\ e.n = 1 /\ Step
  /\ LET d   == e.d
         o   == e.o
         m   == mem[d]
         sen == IsSentinel(m, e.lo)
         k   == Resolve(m, e.lo)
         old == IF k = 0 THEN Absent ELSE m[k]
         v   == IF o \in Writes THEN e.v[1] ELSE 0
         new == NewVal(o, old, v)
         P   == IF sen THEN PSent ELSE PPoint(d)
         ef  == k # 0 /\ Effective(o, old)
     IN
     /\ up[d] = "open"
     /\ k = 0 => o \in {"tst", "clr", "sie"}
     /\ Chk(P, "result flag of a point operation", Has(e, "ok") => (e.ok[1] = 1) = OkFlag(o, old))
     /\ Chk(P, "returned value of a point operation", e.old[1] = OldRes(old, e.r))
     /\ Chk({"C13"}, "arguments are left alone", Has(e, "ib") => e.ib)
     /\ Chk({"C14"}, "refused operation reports refusal", (Has(e, "ok") /\ ~ef /\ o # "tst") => e.ok[1] = 0)
     /\ IF ef
        THEN /\ mem' = [mem EXCEPT ![d][k] = new]
             /\ cnt' = [cnt EXCEPT ![d] = @ + (IF new = Absent THEN 0 ELSE 1) - (IF old = Absent THEN 0 ELSE 1)]
             /\ pay' = [pay EXCEPT ![d] = @ + Size(k, new) - Size(k, old)]
             /\ same' = [same EXCEPT ![d] = 0]
             /\ shape' = [shape EXCEPT ![d] = 0]
             /\ TouchAll(d, k, old, new)
        ELSE UNCHANGED <<mem, cnt, pay, same, shape, cur>>
  /\ UNCHANGED <<hd, up>>

(* the same operation on the n distinct keys lo, lo+st, ... in any order *)
Batch ==
  /\ Is("op") /\ e.n > 1 /\ Step
  /\ LET d   == e.d
         o   == e.o
         m   == mem[d]
         lo  == e.lo
         st  == e.st
         n   == e.n
         key(i) == lo + (i - 1) * st
         v(i) == IF o \in Writes THEN e.v[i] ELSE 0
         new(i) == NewVal(o, m[key(i)], v(i))
         In(k) == k >= lo /\ k <= lo + (n - 1) * st /\ (k - lo) % st = 0
         Of(k) == ((k - lo) \div st) + 1
     IN
     /\ up[d] = "open"
     /\ Chk(PPoint(d), "result flags of a batch of point operations",
            Has(e, "ok") => \A i \in 1..n : (e.ok[i] = 1) = OkFlag(o, m[key(i)]))
     /\ Chk(PPoint(d), "returned values of a batch of point operations",
            \A i \in 1..n : e.old[i] = OldRes(m[key(i)], e.r))
     /\ Chk({"C13"}, "arguments are left alone", Has(e, "ib") => e.ib)
     /\ mem' = [mem EXCEPT ![d] = TLCEval([k \in 1..K |-> IF In(k) THEN new(Of(k)) ELSE m[k]])]
     /\ cnt' = [cnt EXCEPT ![d] = FoldLeftDomain(LAMBDA s, i :
                  s + (IF new(i) = Absent THEN 0 ELSE 1) - (IF m[key(i)] = Absent THEN 0 ELSE 1), @, e.old)]
     /\ pay' = [pay EXCEPT ![d] = FoldLeftDomain(LAMBDA s, i :
                  s + Size(key(i), new(i)) - Size(key(i), m[key(i)]), @, e.old)]
     /\ same' = [same EXCEPT ![d] = IF o = "tst" THEN @ ELSE 0]
     /\ shape' = [shape EXCEPT ![d] = IF o = "tst" THEN @ ELSE 0]
     /\ IF cur = << >> \/ o = "tst" THEN cur' = cur
        ELSE cur' = [j \in 1..Len(cur) |->
               FoldLeftDomain(LAMBDA c, i : IF Effective(o, m[key(i)]) THEN Touch(c, d, key(i), m[key(i)], new(i)) ELSE c, cur[j], e.old)]
  /\ UNCHANGED <<hd, up>>

----------------------------------------------------------------------------
(* a whole range, in the order the iterator delivered it *)
WholeRange ==
  /\ Is("rng") /\ Step
  /\ LET d == e.d
         m == mem[d]
         s == IsSentinel(m, e.lo) \/ IsSentinel(m, e.hi)
         P == PUndisturbed(d) \cup {"C05"} \cup (IF s THEN {"C16"} ELSE {})
     IN
     /\ up[d] = "open"
     /\ Chk(P, "iteration ends without an error", ~e.ov)
     /\ Chk(P, "keys of a range, in order, none missing", IsRange(e.ks, m, e.dir, e.lo, e.hi))
     /\ Chk(P, "values of a range", \A i \in 1..Len(e.ks) : e.ks[i] \in 1..K => e.vs[i] = m[e.ks[i]])
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* a whole scan, nothing else going on *)
WholeScan ==
  /\ Is("scan") /\ Step
  /\ LET d == e.d
         m == mem[d]
         P == PUndisturbed(d) \cup {"C07"}
         known == \A i \in 1..Len(e.ks) : e.ks[i] \in 1..K
     IN
     /\ up[d] = "open"
     /\ Chk(P, "a scan ends", ~e.ov)
     /\ Chk(P, "a scan stays at its end", ~e.ag)
     /\ Chk(P, "a scan returns stored keys with their values",
            known /\ \A i \in 1..Len(e.ks) : m[e.ks[i]] = e.vs[i] /\ e.vs[i] # Absent)
     /\ Chk(P, "a scan returns every key once",
            Len(e.ks) = cnt[d] /\ Cardinality({e.ks[i] : i \in 1..Len(e.ks)}) = Len(e.ks))
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* scanning step by step, with other operations in between *)
NewCursor ==
  /\ Is("cur") /\ Step
  /\ cur' = Append(SubSeq(cur, 1, e.c - 1),
              [on |-> TRUE, d |-> e.d, end |-> FALSE,
               must |-> [k \in 1..K |-> mem[e.d][k] # Absent],
               may |-> [k \in 1..K |-> IF mem[e.d][k] = Absent THEN {} ELSE {mem[e.d][k]}],
               seen |-> [k \in 1..K |-> 0], del |-> FALSE, add |-> FALSE, chg |-> FALSE])
            \o SubSeq(cur, e.c + 1, Len(cur))
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape>>

ScanStep ==
  /\ Is("sc") /\ Step
  /\ LET c == cur[e.c]
         P == IF c.chg THEN {"C20"} ELSE {"C20", "C07"}
     IN
     /\ up[c.d] = "open" /\ c.on
     /\ IF e.ok
        THEN /\ Chk(P, "a scan returns keys of the dictionary", e.k \in 1..K)
             /\ Chk(P, "a scan returns a value the key had meanwhile", e.k \in 1..K => e.v \in c.may[e.k])
             /\ Chk(P, "a scan returns a key once while keys stay", (e.k \in 1..K /\ ~c.add /\ ~c.del) => c.seen[e.k] = 0)
             /\ cur' = [cur EXCEPT ![e.c].seen[IF e.k \in 1..K THEN e.k ELSE 1] = @ + 1]
        ELSE /\ Chk(P, "a scan misses no key that stays", ~c.del => \A k \in 1..K : c.must[k] => c.seen[k] >= 1)
             /\ cur' = [cur EXCEPT ![e.c].on = FALSE]
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape>>

----------------------------------------------------------------------------
(* An iterator used step by step; the header carries the bytes.             *)
ItOK(s, w, pos, m) ==
  LET end == pos > Len(w)
      kb  == IF end THEN << >> ELSE H.kb[w[pos]]
      vid == IF end THEN 0 ELSE m[w[pos]]
      vb  == IF vid <= 0 THEN << >> ELSE H.vb[vid]
  IN
  CASE s.q = "end" -> s.x = end
    [] s.q = "adv" -> s.x
    [] s.q = "ksz" -> IF end THEN s.er /\ s.n = 0 ELSE ~s.er /\ s.n = Len(kb)
    [] s.q = "vsz" -> IF end THEN s.er /\ s.n = 0 ELSE ~s.er /\ s.n = Len(vb)
    [] s.q = "rk"  -> IF end THEN s.er /\ s.n = 0 /\ s.tl
                      ELSE ~s.er /\ s.b = ReadAt(kb, s.o, s.len) /\ s.n = Len(s.b) /\ s.tl
    [] s.q = "rv"  -> IF end THEN s.er /\ s.n = 0 /\ s.tl
                      ELSE ~s.er /\ s.b = ReadAt(vb, s.o, s.len) /\ s.n = Len(s.b) /\ s.tl
    [] s.q = "ka"  -> s.er = end /\ s.b = kb
    [] s.q = "va"  -> s.er = end /\ s.b = vb
    [] s.q = "ra"  -> s.er = end /\ s.b = kb /\ s.c = vb

Iterate ==
  /\ Is("it") /\ Step
  /\ LET d == e.d
         m == mem[d]
         P == {"C06"}
     IN \E w \in {RangeResult(m, e.dir, e.lo, e.hi)} :
        LET
         \* <<position, first bad step>>
         r == FoldLeftDomain(LAMBDA a, i :
                IF a[2] # 0 THEN a
                ELSE IF ~ItOK(e.s[i], w, a[1], m) THEN <<a[1], i>>
                ELSE IF e.s[i].q = "adv" THEN <<Min2(a[1] + 1, Len(w) + 1), 0>> ELSE a,
                <<1, 0>>, e.s)
     IN
     /\ up[d] = "open"
     /\ Chk(P, <<"iterator step", r[2], "at position", r[1]>>, r[2] = 0)
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

----------------------------------------------------------------------------
(* statistics *)
Fields(r) == DOMAIN r
ShapeFields == {"ht", "lf", "nl", "di", "sl", "rc", "pl", "xd", "ms"}
Agree(r, s, F) == \A f \in F : (f \in DOMAIN r /\ f \in DOMAIN s) => r[f] = s[f]

Stats ==
  /\ Is("st") /\ Step
  /\ LET d == e.d
         PS == IF Has(e, "ht") THEN {"C09"} ELSE {"C10"}
     IN
     /\ up[d] = "open"
     /\ Chk(PS \cup {"C18", "C17", "C03", "C04"}, "number of keys", e.rc = cnt[d])
     /\ Chk(PS \cup {"C18", "C17", "C03", "C04"}, "payload size", e.pl = pay[d])
     /\ Chk(PS, "shape statistics",
            IF Has(e, "ht")
            THEN /\ e.ht >= 1 /\ e.lf >= 1 /\ e.nl >= 0
                 /\ (e.ht = 1) = (e.lf = 1) /\ (e.ht = 1) = (e.nl = 0)
                 /\ e.nl >= e.ht - 1 /\ e.lf >= e.nl + (IF e.ht = 1 THEN 0 ELSE 1)
                 /\ e.rc = 0 => e.ht = 1
            ELSE /\ e.sl >= 1 /\ LoadOK(e.rc, e.sl)
                 /\ Needed(e.sl, 4096) <= e.di /\ e.di <= Needed(e.sl, 4096) + 1
                 /\ Has(e, "ms") => (e.ms <= e.sl /\ e.sl < 2 * e.ms)
                 /\ Has(e, "xd") => (e.di <= e.xd))
     /\ Chk(PS, "statistics only change with the content",
            shape[d] # 0 => Agree(e, Trace[shape[d]], ShapeFields))
     /\ Chk({"C14"}, "refused and read-only operations change no statistics",
            same[d] # 0 => Agree(e, Trace[same[d]], Fields(e) \ {"e", "d", "us", "sp", "mp", "dm"}))
     /\ Chk(IF Has(e, "ht") THEN {"C11"} ELSE {}, "an empty ordered dictionary keeps only its root page",
            (cnt[d] = 0 /\ Has(e, "al") /\ ~Has(H, "pad")) => e.al = 2)
     /\ Chk(IF Has(e, "ht") THEN {} ELSE {"C12"}, "an empty dictionary keeps only its directories",
            (cnt[d] = 0 /\ Has(e, "al") /\ ~Has(H, "pad")) => (e.al <= 512 /\ e.sl = 1 /\ e.di = 1))
     /\ same' = [same EXCEPT ![d] = l]
     /\ shape' = [shape EXCEPT ![d] = l]
  /\ UNCHANGED <<hd, mem, up, cnt, pay, cur>>

(* the file of an ordered dictionary, decoded page by page *)
LeafCap == 8172
NodeCap == 8188
KeyIn(k) == Min2(KSz(k), 257)
ValIn(v) == Min2(VS(v), 129)
LeafLoad(x) == FoldLeftDomain(LAMBDA s, i : s + 8 + KeyIn(x.ks[i]) + ValIn(x.vs[i]), 0, x.ks)
NodeLoad(x) == FoldLeftDomain(LAMBDA s, i : s + 12 + KeyIn(x.ks[i]), 12, x.ks)
KnownIds(x) == (\A i \in 1..Len(x.ks) : x.ks[i] \in 1..K) /\ (x.t = "L" => \A i \in 1..Len(x.vs) : x.vs[i] \in 0..Len(H.vs))
PageOK(x, isRoot) ==
  /\ KnownIds(x)
  /\ IF x.t = "L"
     THEN /\ LeafCap - x.fr = LeafLoad(x)
          /\ x.fr >= 8 + 257 + 129                   \* another record always fits
          /\ ~isRoot => 3 * (LeafCap - x.fr) >= LeafCap
     ELSE /\ NodeCap - x.fr = NodeLoad(x)
          /\ x.fr >= 12 + 257
          /\ ~isRoot => 3 * (NodeCap - x.fr) >= NodeCap

Tree ==
  /\ Is("tree") /\ Step
  /\ LET d == e.d
         m == mem[d]
         n == e.nodes
         P8 == {"C08"}
         ok == e.err = ""
         good == ok /\ Searchable(n, e.ht, K)
     IN
     /\ Chk({"C08", "C03", "C17"}, <<"the file decodes", e.err>>, ok)
     /\ Chk({"C08", "C03"}, "every key is found from the root", good)
     /\ Chk({"C08", "C03", "C17"}, "the leaves hold exactly the content", ok => Holds(n, m, cnt[d]))
     /\ Chk({"C08", "C03"}, "leaf list", good => Ring(n, e.head, e.tail))
     /\ Chk(P8, "pages are used once", ok => OwnPages(n))
     /\ Chk(P8, "page contents and fill", ok => \A i \in 1..Len(n) : PageOK(n[i], i = 1))
     /\ Chk(P8, "fan-out", ok => NoStumps(n))
     /\ Chk({"C08", "C09", "C03"}, "stored counters",
            ok => /\ e.lf = Len(Leaves(n)) /\ e.nl = Len(NonLeaves(n))
                  /\ e.rc = cnt[d] /\ e.pl = pay[d])
     /\ Chk({"C09"}, "statistics agree with the file",
            (ok /\ shape[d] # 0) =>
               LET s == Trace[shape[d]] IN
               /\ s.ht = e.ht
               /\ s.lf = Len(Leaves(n)) /\ s.nl = Len(NonLeaves(n)))
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* the file of a dictionary, decoded slot by slot *)
Hash ==
  /\ Is("hash") /\ Step
  /\ LET d == e.d
         m == mem[d]
         ok == e.err = ""
         n == Len(e.ks)
         ids == ok /\ \A i \in 1..n : e.ks[i] \in 1..K
     IN
     /\ Chk({"C21", "C04", "C17"}, <<"the file decodes", e.err>>, ok)
     /\ Chk({"C21", "C04", "C17"}, "the slots hold exactly the content",
            ids /\ (\A i \in 1..n : m[e.ks[i]] = e.vs[i])
                /\ n = cnt[d] /\ Cardinality({e.ks[i] : i \in 1..n}) = n)
     /\ Chk({"C21", "C04"}, "every item is in the slot of its hash",
            ids => \A i \in 1..n : e.ix[i] = SlotOf(H.h[e.ks[i]], e.sl, e.ss))
     /\ Chk({"C21", "C17"}, "stored key sums", ok => e.kz)
     /\ Chk({"C21", "C10"}, "slot count and level", ok => LevelOK(e.sl, e.ss) /\ LoadOK(e.rc, e.sl))
     /\ Chk({"C21", "C10"}, "directories", ok => DirsOK(e.sl, e.di, e.ds, 4096, 3))
     /\ Chk({"C21", "C10", "C04"}, "stored counters", ok => e.rc = cnt[d] /\ e.pl = pay[d])
     /\ Chk({"C10"}, "statistics agree with the file",
            (ok /\ shape[d] # 0) =>
               LET s == Trace[shape[d]] IN
               /\ s.sl = e.sl /\ s.di = e.di
               /\ Has(s, "xd") => s.xd = 2^e.ds
               /\ Has(s, "ms") => s.ms = 2^e.ss)
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* all space the structures of a file own was released: is any left? *)
Reap ==
  /\ Is("reap") /\ Step
  /\ LET P == {"C18"} \cup (IF \E d \in 1..Len(H.kd) : OD(d) THEN {"C11"} ELSE {}) \cup (IF \E d \in 1..Len(H.kd) : ~OD(d) THEN {"C12"} ELSE {}) IN
     /\ Chk(P, <<"the space of the file can be released", e.err>>, e.err = "")
     /\ Chk(P, "no space is owned twice", ~e.dup)
     /\ Chk(P, <<"no space has leaked; pages left:", e.left>>, e.left = 0)
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* results of earlier calls, looked at again *)
Keep ==
  /\ Is("keep") /\ Step
  /\ Chk({"C13"}, "results stay what they were", e.a = e.b)
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* Opening whatever is at a path (pre).  A dictionary opens; where nothing  *)
(* is, an empty one is made if asked for; anything else is refused and left *)
(* as it is; a refusal keeps no descriptor and no mapping.  A storage that  *)
(* holds no dictionary ("bare") may be taken for an empty one or refused.   *)
Exists(pre) == pre = "db"
OpenPath ==
  /\ Is("opn") /\ Step
  /\ LET d == e.d
         want == Exists(e.pre) \/ (e.pre = "missing" /\ e.cr) \/ (e.pre = "bare" /\ e.ok)
         P == {"C15"}
     IN
     /\ up[d] = IF Exists(e.pre) THEN "shut" ELSE up[d]
     /\ Chk(P, <<"opening what is there:", e.pre>>, e.ok = want)
     /\ Chk(P, "a refused open returns no dictionary", ~e.ok => e.nil)
     /\ Chk(P, "a refused open leaves the path alone", ~e.ok => e.same)
     /\ Chk(P, "a refused open keeps nothing open", ~e.ok => e.fd = 0 /\ e.mp = 0)
     /\ up' = [up EXCEPT ![d] = IF e.ok THEN "open" ELSE @]
     /\ same' = [same EXCEPT ![d] = 0]
  /\ UNCHANGED <<hd, mem, cnt, pay, shape, cur>>

(* after closing, the process holds nothing of the file *)
Released ==
  /\ Is("rel") /\ Step
  /\ Chk({"C15"}, "a closed dictionary keeps nothing open", e.fd = 0 /\ e.mp = 0)
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* the file vanished or was replaced by the environment: nothing there now  *)
Vanish ==
  /\ Is("rm") /\ Step
  /\ up' = [up EXCEPT ![e.d] = "no"]
  /\ mem' = [mem EXCEPT ![e.d] = EmptyMap(K)]
  /\ cnt' = [cnt EXCEPT ![e.d] = 0]
  /\ pay' = [pay EXCEPT ![e.d] = 0]
  /\ same' = [same EXCEPT ![e.d] = 0]
  /\ shape' = [shape EXCEPT ![e.d] = 0]
  /\ UNCHANGED <<hd, cur>>

(* a file with known content, written earlier, is put in place *)
Load ==
  /\ Is("load") /\ Step
  /\ LET d == e.d
     IN
     /\ up[d] = "no"
     /\ up' = [up EXCEPT ![d] = "shut"]
     /\ mem' = [mem EXCEPT ![d] = FoldLeftDomain(LAMBDA m, i : [m EXCEPT ![e.ks[i]] = e.vs[i]], @, e.ks)]
     /\ cnt' = [cnt EXCEPT ![d] = Len(e.ks)]
     /\ pay' = [pay EXCEPT ![d] = FoldLeftDomain(LAMBDA s, i : s + Size(e.ks[i], e.vs[i]), 0, e.ks)]
  /\ UNCHANGED <<hd, same, shape, cur>>

(* life cycle of a structure inside a storage *)
Life ==
  /\ Is("life") /\ Step
  /\ LET d == e.d IN
     /\ up[d] = CASE e.q = "create" -> "no" [] e.q = "store" -> "open" [] e.q = "load" -> "shut" [] e.q = "destroy" -> "open"
     /\ e.q = "destroy" => cnt[d] = 0
     /\ up' = [up EXCEPT ![d] = CASE e.q = "create" -> "open" [] e.q = "store" -> "shut" [] e.q = "load" -> "open" [] e.q = "destroy" -> "no"]
     /\ same' = [same EXCEPT ![d] = 0]
     /\ shape' = [shape EXCEPT ![d] = IF e.q = "create" THEN 0 ELSE @]
  /\ UNCHANGED <<hd, mem, cnt, pay, cur>>

(* nothing exists in the storage any more *)
Left ==
  /\ Is("left") /\ Step
  /\ \A d \in 1..Len(up) : up[d] = "no"
  /\ Chk({"C18"} \cup (IF \A d \in 1..Len(H.kd) : OD(d) THEN {"C11"} ELSE {}) \cup (IF \A d \in 1..Len(H.kd) : ~OD(d) THEN {"C12"} ELSE {}),
         <<"destroyed structures leave no space behind; pages left:", e.n>>, e.n = 0)
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* The dump of a tree: line by line <<drawing, key, value>> (value -2: a    *)
(* separator), against the tree as decoded from the file.  - T F L I o      *)
(* stand for the box-drawing characters and the bullet.                     *)
RECURSIVE Dump(_, _, _, _, _)
\* <<lines, position behind>>, for the subtree at position i of the preorder
Dump(n, i, ht, first, rest) ==
  LET x == n[i] IN
  IF x.t = "L"
  THEN <<[j \in 1..Len(x.ks) |->
            <<CASE j = 1 -> first \o (IF Len(x.ks) = 1 THEN "--o " ELSE "T-o ")
                [] j > 1 /\ j = Len(x.ks) -> rest \o "L-o "
                [] OTHER -> rest \o "F-o ", x.ks[j], x.vs[j]>>], i + 1>>
  ELSE LET m == Len(x.ch) IN
       FoldLeftDomain(LAMBDA a, j :
         IF j = 1
         THEN Dump(n, i + 1, ht, first \o "T-", rest \o "I ")
         ELSE LET s == Dump(n, a[2], ht,
                            rest \o (IF j = m THEN "L-" ELSE "F-"),
                            rest \o (IF j = m THEN "  " ELSE "I "))
              IN <<a[1] \o << <<rest \o "F-o ", x.ks[j - 1], -2>> >> \o s[1], s[2]>>,
         << << >>, i >>, x.ch)

Fprint ==
  /\ Is("fp") /\ Step
  /\ LET d == e.d
         m == mem[d]
         n == e.nodes
         P == {"C19"}
         recs == SelectSeq(e.lines, LAMBDA x : x[3] # -2)
         ok == e.derr = "" /\ Searchable(n, e.ht, K) /\ Holds(n, m, cnt[d])
     IN
     /\ Chk(P, "no error from a working writer", ~e.err)
     /\ Chk(P, "every record once, in order, with its value",
            /\ Len(recs) = cnt[d]
            /\ \A i \in 1..Len(recs) : recs[i][2] \in 1..K /\ m[recs[i][2]] = recs[i][3]
            /\ \A i \in 1..Len(recs) - 1 : recs[i][2] < recs[i + 1][2])
     /\ Chk(P, "one separator per boundary between leaves",
            Len(e.lines) - Len(recs) = IF cnt[d] = 0 THEN 0 ELSE e.lf - 1)
     /\ Chk(P, "the drawing is that of the tree", ok => e.lines = Dump(n, 1, e.ht, "", "n")[1])
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* a dump into a writer that fails *)
FprintFail ==
  /\ Is("fpe") /\ Step
  /\ Chk({"C19"}, "the error of the writer is returned", e.es)
  /\ Chk({"C19"}, "nothing is written after a failure", e.aw = 0)
  /\ Chk({"C19"}, "what was written is the beginning of the dump", e.pr)
  /\ UNCHANGED <<hd, mem, up, cnt, pay, same, shape, cur>>

(* no action explains these *)
Broken ==
  /\ l <= N /\ e.e \in {"panic", "hang", "crash"}
  /\ Chk(PAll, <<e.e, e.op, e.msg>>, FALSE)
  /\ UNCHANGED vars


Next ==
  \/ Header \/ Open \/ Close \/ Point \/ Batch \/ WholeRange \/ WholeScan \/ NewCursor \/ ScanStep
  \/ Iterate \/ Stats \/ Tree \/ Hash \/ Reap \/ Keep
  \/ OpenPath \/ Released \/ Vanish \/ Load \/ Life \/ Left \/ Fprint \/ FprintFail
  \/ Broken

Spec == Init /\ [][Next]_vars

View == l

Accepted ==
  IF TLCGet("stats").diameter - 1 = N THEN PrintT(<<"ACCEPTED", N>>)
  ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter, N>>) /\ FALSE
=============================================================================

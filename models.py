"""The design models behind the properties: which are checked with TLC for a
property, how far, and which of their behaviours are performed on real code.

 KV       the interface: content, open or not, results of every call
 LinHash  slots, directories and scan cursors of the hash map
 BPTree   pages, rebalancing and range searches of the B+ tree
 Iter     iterators: position, end, whole and partial reads
 Shared   several structures in one storage
 Growth   slots and directories of the hash map, any number (Apalache)

KV, Iter, Shared and LinHash are explored exhaustively within the bounds below; their state
graphs are covered by walks (every transition at least once) which the driver
performs on real dictionaries.  BPTree is explored exhaustively with small
page budgets and by simulation; with the budgets of the code it predicts real
trees page by page (BPTreeTrace, see conformance()).
"""
import collections
import json
import os
import random
import re
import shutil
import subprocess

ASSUMPTIONS = [
    "github.com/roy2220/fsm v0.6.1 (space allocation, file mapping) is correct",
    "one goroutine uses a dictionary at a time; the process is not killed between Open and Close",
]

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")

KV_INV = "INVARIANTS TypeOK NoneIsEmpty RangesOK\nPROPERTIES OneKey Refused Durable ReadBack\n"
LH_INV = "INVARIANTS Placed Level Load Dirs Small ScanMissesNothing ScanOnce\nPROPERTIES ScanComplete OnlyThat\n"
BT_INV = ("INVARIANTS TreeShaped TreeFaithful TreeBushy TreeLeavesFull TreeNodesFull TreeRootFits "
          "TreeWithin NeverLeafAsNode Found RangesOK\n")


def b(x):
    return "TRUE" if x else "FALSE"


def kv(K, V, ordered, walk=False):
    return dict(name=f"KV {'ordered' if ordered else 'plain'} K={K} V={V}", module="KV", emit=walk,
                consts=f"K = {K} V = {V} Ordered = {b(ordered)} Emitting = {b(walk)}", inv=KV_INV,
                plan=dict(model="KV", api="OD" if ordered else "D", K=K, V=V))


IT_INV = "INVARIANTS TypeOK Inside Ordered Parts\nPROPERTIES Moves Whole\n"


def iters(K, n, pieces, walk=True, mistake=None):
    m = '{"%s"}' % mistake if mistake else "{}"
    return dict(name=f"Iter K={K} iterators={n} pieces={pieces}", module="Iter", emit=walk, mistake=mistake,
                consts=f"K = {K} Its = {{{', '.join(map(str, range(1, n + 1)))}}} Pieces = {pieces} "
                       f"Mistakes = {m} Emitting = {b(walk)}", inv=IT_INV,
                plan=dict(model="Iter", api="OD", K=K, V=pieces))


SH_INV = "INVARIANTS TypeOK NoneIsEmpty\nPROPERTIES Alone Keeps Ends\n"


def shared(kinds, K, V, walk=True, mistake=None):
    m = '{"%s"}' % mistake if mistake else "{}"
    trees = ", ".join(str(i + 1) for i, k in enumerate(kinds) if k == "BT")
    return dict(name=f"Shared {'+'.join(kinds)} K={K} V={V}", module="Shared", emit=walk, mistake=mistake,
                consts=f"N = {len(kinds)} Trees = {{{trees}}} K = {K} V = {V} Mistakes = {m} Emitting = {b(walk)}", inv=SH_INV,
                plan=dict(model="Shared", api="+".join(kinds), K=K, V=V))


HASHES = {"Spread": list(range(16)), "Same": [5] * 16,
          "Halves": [0, 0, 16, 1, 17, 3, 3, 7, 15, 15, 31, 9, 8, 24, 12, 4],
          "Odd": [1, 3, 7, 15, 31, 31, 15, 7, 3, 1, 1, 3, 7, 15, 31, 15]}


def lh(K, hsh, scan, delete, walk=False, perdir=4096, minshift=3, mistake=None):
    m = '{"%s"}' % mistake if mistake else "{}"
    return dict(name=f"LinHash K={K} {hsh} perdir={perdir}{' scan' if scan else ''}{' delete' if delete else ''}",
                module="LinHashMC", emit=walk,
                consts=f"K = {K} Hash <- {hsh} PerDir = {perdir} MinShift = {minshift} Scanning = {b(scan)} "
                       f"Deleting = {b(delete)} Emitting = {b(walk)} Mistakes = {m}", inv=LH_INV,
                plan=dict(model="LinHash", api="D", K=K, V=0, hash=HASHES[hsh][:K], bits=5), mistake=mistake)


def bt(K, sizes, vals, ranges=False, mistake=None, sim=None, view=True):
    m = '{"%s"}' % mistake if mistake else "{}"
    return dict(name=f"BPTree K={K} {sizes} values={vals}{' ranges' if ranges else ''}{' simulated' if sim else ''}",
                module="BPTreeMC", emit=False, sim=sim,
                consts=f"K = {K} Sizes <- {sizes} Vals = {vals} Ranges = {b(ranges)} MaxKey = 2 MaxVal = 1 RecHdr = 0 "
                       f"LeafCap = 14 ChildHdr = 1 NodeCap = 14 Mistakes = {m}", inv=BT_INV, mistake=mistake)


def growth(mistake=None):
    """Growth.tla: an inductive invariant, by Apalache"""
    return dict(name="Growth, any number of items (inductive invariant)", module="Growth", apalache=True, mistake=mistake, emit=False)


# Which models are explored for a property in the quick and the thorough tier.
# The last field: walks through them are performed on the real code.
KVO, KVP = kv(3, 1, True, True), kv(3, 1, False, True)
KVO2, KVP2 = kv(3, 2, True, True), kv(4, 2, False, True)
LH = [lh(8, "Halves", False, True, True), lh(4, "Odd", True, False, True), lh(3, "Same", True, True, True)]
LHS = [lh(4, "Spread", True, False, True), lh(4, "Halves", True, True, True)]
LHD = [lh(10, "Halves", False, True, perdir=2, minshift=1)]
LH2 = [lh(9, "Odd", False, True, True), lh(8, "Same", False, True, True), lh(10, "Spread", False, True, True)]
LHS2 = [lh(5, "Halves", True, False, True), lh(4, "Odd", True, True, True), lh(5, "Spread", True, True), lh(7, "Halves", True, False)]
LHD2 = [lh(12, "Spread", False, True, perdir=2, minshift=1), lh(13, "Halves", False, True, perdir=2, minshift=1),
        lh(12, "Same", False, True, perdir=1, minshift=1)]
BT = [bt(11, "Mostly", "{1}"), bt(8, "Uneven", "{0, 1}")]
BTR = [bt(10, "Mostly", "{1}", True), bt(7, "Uneven", "{0, 1}", True)]
BTS = [bt(50, "Uneven", "{0, 1}", sim=(25, 300))]
BT2 = [bt(14, "Mostly", "{1}"), bt(9, "Uneven", "{0, 1}"), bt(15, "Uneven", "{1}")]
BTR2 = [bt(13, "Mostly", "{1}", True), bt(8, "Uneven", "{0, 1}", True), bt(24, "Uneven", "{0, 1}", True, sim=(25, 150))]
BTS2 = [bt(70, "Uneven", "{0, 1}", sim=(200, 400)), bt(90, "Mostly", "{1}", sim=(100, 500))]

RUNS = {  # property: (quick, thorough)
    "C01": ([KVO], [KVO2] + BT),
    "C02": ([KVP], [KVP2] + LH2),
    "C03": ([KVO], [KVO2] + BT2),
    "C04": ([KVP] + LH[:1], [KVP2] + LH + LH2 + LHD),
    "C05": ([KVO] + BTR, [KVO2] + BTR2),
    "C06": ([iters(3, 1, 2), iters(2, 2, 1)], [iters(4, 1, 3), iters(3, 2, 1)]),
    "C07": ([KVP] + LH[:1], [KVP2] + LH2 + LHS2),
    "C08": (BT + BTS, BT2 + BTS2),
    "C09": ([KVO] + BT[:1], [KVO2] + BT2),
    "C10": ([KVP] + LH[:1] + LHD + [growth()], [KVP2] + LH2 + LHD2 + [growth()]),
    "C11": ([KVO], [KVO2] + BT2[:1]),
    "C12": ([KVP] + LH[:1], [KVP2] + LH2 + LHD2),
    "C13": ([KVO, KVP], [KVO2, KVP2]),
    "C14": ([KVO, KVP], [KVO2, KVP2]),
    "C15": ([kv(1, 1, True, True), kv(1, 1, False, True)], [KVO, KVP]),
    "C16": ([KVO], [KVO2]),
    "C18": ([shared(["BT", "HM"], 2, 0), shared(["BT", "BT"], 1, 1), shared(["HM", "HM"], 1, 1)],
            [shared(["BT", "HM"], 2, 1), shared(["BT", "BT"], 2, 1), shared(["HM", "HM"], 2, 1), shared(["BT", "HM", "BT"], 1, 1)]),
    "C19": (BT[:1], BT2[:1]),
    "C20": (LHS, LHS2 + LHS),
    "C21": (LH[:1] + LHD + [growth()], LH2 + LHD2 + [growth()]),
}

# Deliberate mistakes in the designs: TLC must refute each (thorough tier).
REFUTED = {
    "C05": [bt(7, "Uneven", "{0, 1}", True, "oldleaf"), bt(4, "Uneven", "{0, 1}", True, "absentone")],
    "C08": [bt(10, "Uneven", "{0, 1}", False, "leafcount"), bt(14, "Mostly", "{1}", False, "nodecount"),
            bt(14, "Mostly", "{1}", False, "leafasnode")],
    "C10": [lh(11, "Spread", False, True, perdir=2, minshift=1, mistake=m) for m in ("level", "once", "array", "early")]
           + [growth(m) for m in ("level", "once", "array", "early")],
    "C21": [lh(11, "Spread", False, True, perdir=2, minshift=1, mistake=m) for m in ("bit", "level")]
           + [growth(m) for m in ("bit", "level")],
    "C20": [lh(5, "Spread", True, False, mistake="skip")],
    "C18": [shared(["BT", "HM"], 2, 0, False, "neighbour")],
    "C06": [iters(3, 1, 2, False, "beyond")],
}


def cfg(m):
    return ("SPECIFICATION Spec\n" + ("" if m.get("sim") else "VIEW View\n") + "CHECK_DEADLOCK FALSE\n"
            "CONSTANTS " + m["consts"] + "\n" + m["inv"]
            + ("ACTION_CONSTRAINT Emit\n" if m["emit"] else "")
            + ("ACTION_CONSTRAINT Cases\n" if m["module"] == "BPTreeMC" else ""))


def apalache(m, tmp, err):
    cinit = "Const" + (m["mistake"].capitalize() if m["mistake"] else "Init")
    n = 0
    for args in [["--init=Init", "--inv=Inv", "--length=0"], ["--init=IndInit", "--inv=InvNext", "--length=1"]]:
        out = os.path.join(tmp, "apalache")
        p = subprocess.run(["apalache-mc", "check", f"--out-dir={out}", f"--cinit={cinit}"] + args + [os.path.join(SPEC, m["module"] + ".tla")],
                           cwd=tmp, capture_output=True, text=True, timeout=1800, errors="replace",
                           env=dict(os.environ, JVM_ARGS="-Xmx4g"))
        shutil.rmtree(out, ignore_errors=True)
        if m["mistake"] and p.returncode == 12 and "--init=IndInit" in args:
            return dict(model=m["name"], mistake=m["mistake"], refuted_by="InvNext"), ""
        if p.returncode or "The outcome is: NoError" not in p.stdout:
            raise err(f"model {m['name']} failed (exit {p.returncode}):\n" + p.stdout[-2000:] + p.stderr[-500:])
        n += len(re.findall("state invariant 0 holds", p.stdout))
    if m["mistake"]:
        raise err(f"model {m['name']}: the mistake {m['mistake']} was not refuted")
    return dict(model=m["name"], states=0, transitions=0, obligations_proved=n), ""


def check(m, tmp, seed, tlc, err, tier, again=True):
    """one model with TLC; returns (statistics, output)"""
    if m.get("apalache"):
        return apalache(m, tmp, err)
    meta = os.path.join(tmp, "model")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    c = os.path.join(meta, "m.cfg")
    with open(c, "w") as f:
        f.write(cfg(m))
    args = ["-workers", "1" if m["emit"] else "8", "-config", c]
    if m.get("sim"):
        args += ["-simulate", f"num={m['sim'][0]}", "-depth", str(m["sim"][1]), "-seed", str(seed)]
    rc, out = tlc(args + [m["module"] + ".tla"], SPEC, mem="10g", timeout=7200, meta=meta)
    shutil.rmtree(meta, ignore_errors=True)
    if rc != 0 and "StatePoolWriter" in out and again:  # a race in TLC's state queue
        return check(m, tmp, seed, tlc, err, tier, False)
    if m.get("mistake"):
        v = re.search(r"(?:Invariant|property|Temporal properties|Action property) ?(\w*).*violated|Error: (.*)", out)
        if rc == 0 or not v or "evaluating" in out:
            raise err(f"model {m['name']}: the mistake {m['mistake']} was not refuted\n" + out[-1500:])
        return dict(model=m["name"], mistake=m["mistake"], refuted_by=v.group(1) or v.group(2)), out
    if rc != 0:
        raise err(f"model {m['name']} failed (exit {rc}):\n" + re.sub(r'"EDGE.*\n', "", out)[-3000:])
    r = dict(model=m["name"])
    if m.get("sim"):
        st = re.findall(r"([\d,]+) states checked", out)
        n = int(st[-1].replace(",", "")) if st else 0
        r.update(states=n, transitions=n, simulated=True)
    else:
        st = re.search(r"(\d+) states generated, (\d+) distinct", out)
        r.update(states=int(st.group(2)), transitions=int(st.group(1)) - 1)
    cases = sorted(set(re.findall(r'\\?"([\w. -]+?)\\?"', " ".join(re.findall(r'"CASES (.*)"', out)))))
    if cases:
        r["cases"] = cases
    return r, out


# ---------------------------------------------------------------- walks

def action(model, a):
    if model == "Iter":
        q = a["q"]
        if q in ("set", "clr"):
            return [q, a["c"]]
        if q == "start":
            return [q, a["i"], a["dir"], a["lo"], a["hi"]]
        return [q] if q == "done" else [q, a["i"]] if q == "adv" else [q, a["i"], a["off"], a["len"]]
    o = a["o"]
    if model == "Shared":
        return [o, a["d"]] + ([a["c"], a["v"], int(a["r"])] if "c" in a else [])
    if o in ("open",):
        return ["open", int(a["cr"])]
    if o == "rng":
        return ["rng", a["dir"], a["lo"], a["hi"]]
    if o in ("close", "scan", "cur", "sc"):
        return [o]
    if model == "KV":
        return [o, a["c"], a["v"], int(a["r"])]
    return [o, a["c"]]


def walks(m, out, seed, limit):
    """paths from the initial state that together take every transition"""
    rng = random.Random(seed * 7919 + len(m["name"]))
    ids, edges = {}, []  # edges[s]: list of (action, t)
    model = m["plan"]["model"]
    first = None
    n = 0
    for l in out.splitlines():
        if not l.startswith('"EDGE '):
            continue
        e = json.loads(json.loads(l)[5:])
        k = []
        for x in (e["s"], e["t"]):
            x = json.dumps(x)
            if x not in ids:
                ids[x] = len(edges)
                edges.append([])
            k.append(ids[x])
        if first is None:
            first = k[0]
        edges[k[0]].append((action(model, e["a"]), k[1]))
        n += 1
    todo = [list(range(len(es))) for es in edges]
    for t in todo:
        rng.shuffle(t)
    left = n
    got = []

    def nearest(s):
        """shortest path from s to a state with a transition to take"""
        if todo[s]:
            return []
        prev = {s: None}
        q = collections.deque([s])
        while q:
            x = q.popleft()
            es = edges[x]
            for i in rng.sample(range(len(es)), len(es)):
                y = es[i][1]
                if y not in prev:
                    prev[y] = (x, i)
                    if todo[y]:
                        path = []
                        while prev[y]:
                            path.append(prev[y])
                            y = prev[y][0]
                        return path[::-1]
                    q.append(y)
        return None

    while left:
        s, steps, new = first, [], 0
        while left and len(steps) < limit:
            p = nearest(s)
            if p is None:
                break
            for x, i in p:
                steps.append(edges[x][i][0])
                s = edges[x][i][1]
            i = todo[s].pop()
            steps.append(edges[s][i][0])
            s = edges[s][i][1]
            left -= 1
            new += 1
        if not new:
            raise AssertionError("unreachable transitions")
        got.append(steps)
    return n, got


def run(prop, tier, seed, tmp, tlc, err):
    """checks the models of a property; writes the plan for the driver"""
    deep = tier == "thorough"
    stats, plan = [], []
    for m in RUNS.get(prop, ([], []))[deep]:
        r, out = check(m, tmp, seed, tlc, err, tier)
        if m["emit"]:
            n, ws = walks(m, out, seed, 1200)
            r["walks"] = len(ws)
            r["walk_steps"] = sum(map(len, ws))
            if n != r["transitions"]:
                raise err(f"model {m['name']}: {n} transitions printed, {r['transitions']} taken")
            for i, steps in enumerate(ws):
                pre = [["open", 1]] if m["plan"]["model"] == "LinHash" else []
                plan.append(dict(m["plan"], id=re.sub(r"[^\w=.]+", "_", m["name"]) + f"-{i}", steps=pre + steps))
        stats.append(r)
    if deep:
        for m in REFUTED.get(prop, []):
            r, _ = check(m, tmp, seed, tlc, err, tier)
            stats.append(dict(r, states=0, transitions=0))
    if plan:
        with open(os.path.join(tmp, "plan"), "w") as f:
            for w in plan:
                f.write(json.dumps(w) + "\n")
    return stats, dict(walks=len(plan), steps=sum(len(w["steps"]) for w in plan))


# ---------------------------------------------------------------- prediction

CASES = {a + "." + b for a in ("shiftR", "shiftL", "split", "NshiftR", "NshiftL", "Nsplit") for b in ("follow", "stay")} | {
    "higher", "lower", "unshiftR", "unshiftL", "mergeR", "mergeL", "NunshiftR", "NunshiftL", "NmergeR", "NmergeL",
    "sync.parent", "sync.above"}


def conformance(drv, tmp, seed, tier, drive, tlc, pool, jobs):
    """Does BPTree predict the trees the real code makes?  The properties do not
    prescribe one way of rebalancing: differences are reported, not judged."""
    shards = 8 if tier == "quick" else 40
    total = dict(shards=shards, unfinished=0, agreed=0, diverged=0, calls=0, cases=collections.Counter(), first=[])

    def shard(i):
        out = os.path.join(tmp, f"tree{i}.ndjson")
        meta = os.path.join(tmp, f"tlc-tree{i}")
        os.makedirs(meta)
        drive(drv, tmp, "TREE", seed, tier, out, ["-shard", str(i), "-shards", str(shards)])
        try:
            n = sum('"e":"op"' in l for l in open(out))
            rc, text = tlc(["-workers", "1", "-config", "BPTreeTrace.cfg", "BPTreeTrace.tla"], SPEC, {"TRACE": out}, mem="3g", timeout=7200, meta=meta)
        finally:
            os.remove(out)
            shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r'<<\s*"PREDICTED",\s*(\d+),\s*(\d+),(.*?)>>', text, re.S)
        return n, rc, m, re.findall(r'<<"DIVERGED".*', text)

    for n, rc, m, div in pool.map(shard, range(shards)):
        if rc != 0 or not m:
            total["unfinished"] += n > 0
            continue
        total["calls"] += n
        total["agreed"] += int(m.group(1))
        total["diverged"] += int(m.group(2))
        total["first"] += div[:1]
        for k, v in re.findall(r'"([\w.]+)" :> (\d+)', m.group(3)):
            total["cases"][k] += int(v)
    total["first"] = total["first"][:3]
    total["cases_never_taken"] = sorted(CASES - set(total["cases"]))
    total["cases"] = dict(sorted(total["cases"].items()))
    return total


NEED = {}


def require(prop, total, err):
    for k in NEED.get(prop, []):
        if not total["kinds"].get(k):
            raise err(f"no {k} event was recorded")

#!/usr/bin/env python3
"""Is KVTrace strict?  Changes recorded histories of the real code in one
place and expects their rejection.

For each property a part of its histories is recorded.  For each kind of event
and each field that records something observed, some events are changed (a
number by one, a truth value flipped, a list shortened, an element of it
changed or doubled), and the history is judged (up to 400 lines behind the
change) with all properties bound.  Fields that no property binds are printed;
those that are not to be bound are listed in FREE.

    tools/selftest.py [SEED [CHANGES-PER-FIELD]]
"""
import concurrent.futures as cf
import copy
import json
import os
import random
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check

PROPS = [f"C{i:02d}" for i in range(1, 22)]
# what a call was given, and names
INPUT = {"e", "d", "o", "lo", "hi", "st", "n", "v", "r", "dir", "cr", "q", "len", "pre", "c", "id", "msg", "op"}
# observed but free: the sizes of the file and of its mapping; the root is the
# first of the nodes, too; the tree beside a dump is judged by C08
FREE = {f"st.{k}.{f}" for k in ("od", "d") for f in ("us", "sp", "mp", "dm")} | {"tree.root", "fp.derr", "fp.ht"}
SKIP = {"hdr", "rm", "life", "load", "cur"}


def record(drv, tmp, prop, seed):
    out = os.path.join(tmp, prop + ".nd")
    check.drive(drv, tmp, prop, seed, "quick", out, ["-shard", "9", "-shards", "16"])
    traces = []
    for l in open(out):
        if l.startswith('{"e":"hdr"'):
            traces.append([])
        traces[-1].append(l)
    os.remove(out)
    return traces


def kind(e):
    k = e["e"]
    if k == "op":
        return "op1" if e["n"] == 1 else "opn"
    if k == "st":
        return "st.od" if "ht" in e else "st.d"
    if k == "sc":
        return "sc.item" if e["ok"] else "sc.end"
    return k


def spots(e, rng):
    """names of what was observed in an event, with a function that changes it"""
    def change(box, key):
        x = box[key]
        if isinstance(x, bool):
            return [("flip", not x)]
        if isinstance(x, int):
            return [("+1", x + 1), ("-1", x - 1)]
        if isinstance(x, str):
            return [("text", x + "~")] if key in ("err", "derr") else []
        if isinstance(x, list):
            got = []
            if x:
                i = rng.randrange(len(x))
                got.append(("drop", x[:i] + x[i + 1:]))
                got.append(("twice", x[:i] + [x[i]] + x[i:]))
                if isinstance(x[i], int):
                    got.append(("element", x[:i] + [x[i] + rng.choice([-1, 1])] + x[i + 1:]))
                if len(x) > 1 and i and x[i] != x[i - 1]:
                    got.append(("swap", x[:i - 1] + [x[i], x[i - 1]] + x[i + 1:]))
            elif key not in ("ks", "vs"):
                got.append(("more", [1]))
            return got
        return []

    for key in e:
        if key in INPUT and not (kind(e) == "left" and key == "n"):
            continue
        if key in ("nodes", "s", "lines") and isinstance(e[key], list) and e[key]:
            i = rng.randrange(len(e[key]))
            x = e[key][i]
            if isinstance(x, dict):
                for k2 in x:
                    if k2 in ("q", "o", "len", "t"):
                        continue
                    for how, new in change(x, k2):
                        f = copy.deepcopy(e)
                        f[key][i][k2] = new
                        yield f"{kind(e)}.{key}.{x.get('q', x.get('t', ''))}.{k2}", how, f
            if isinstance(x, list):
                for k2 in range(len(x)):
                    f = copy.deepcopy(e)
                    f[key][i][k2] = x[k2] + 1 if isinstance(x[k2], int) else x[k2] + "~"
                    yield f"{kind(e)}.{key}.{k2}", "+1", f
        if key == "s":
            continue
        for how, new in change(e, key):
            if key in ("ok", "old") and kind(e)[:2] == "op" and how in ("drop", "twice"):
                continue
            f = dict(e)
            f[key] = new
            yield f"{kind(e)}.{key}", how, f


def judge(tmp, n, lines):
    d = os.path.join(tmp, f"j{n}")
    os.makedirs(d)
    t = os.path.join(d, "t.nd")
    with open(t, "w") as f:
        f.writelines(lines)
    try:
        cfg = os.path.join(d, "KVTrace.cfg")
        base = open(os.path.join(check.SPEC, "KVTrace.cfg")).read()
        with open(cfg, "w") as f:
            f.write(re.sub(r"Enforce = .*", "Enforce = {%s}" % ", ".join('"%s"' % p for p in PROPS), base))
        rc, out = check.tlc(["-workers", "1", "-config", cfg, "KVTrace.tla"], check.SPEC, {"TRACE": t}, meta=d, timeout=600)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "ACCEPTED" in out and rc == 0:
        return None
    m = re.findall(r'<<\s*"REJECT",\s*(\d+),(.*?),\s*"END"\s*>>', out, re.S)
    if m:
        return re.sub(r"\s+", " ", m[-1][1]).strip()
    return "stopped" if "STOPPED" in out else "error: " + out[out.find("Error:"):][:300]


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    per = int(sys.argv[2]) if len(sys.argv) > 2 else 2
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix="verif-selftest-")
    try:
        drv = check.build(tmp)
        open(os.path.join(tmp, "plan"), "w").close()
        cand = {}
        with cf.ThreadPoolExecutor(check.JOBS) as ex:
            traces = [t for ts in ex.map(lambda p: record(drv, tmp, p, seed), PROPS) for t in ts]
        rng.shuffle(traces)
        for t in traces:
            idx = list(range(1, len(t)))
            rng.shuffle(idx)
            for i in idx[:60]:
                if len(t[i]) > 200000:
                    continue
                e = json.loads(t[i])
                if e["e"] in SKIP:
                    continue
                for name, how, f in spots(e, rng):
                    c = cand.setdefault((name, how), [])
                    if len(c) < per or (rng.random() < 0.02 and len(t) < 500):
                        c[len(c) if len(c) < per else rng.randrange(per):][:1] = []
                        c.append((t[i + 1:i + 400], t[:i], json.dumps(f, separators=(",", ":")) + "\n", t[i]))
                        del c[:-per]
        work = [(k, x) for k, c in sorted(cand.items()) for x in c]
        print(len(traces), "histories,", len(work), "changes", flush=True)
        res = {}
        with cf.ThreadPoolExecutor(check.JOBS) as ex:
            fs = {ex.submit(judge, tmp, n, x[1] + [x[2]] + x[0]): (k, x) for n, (k, x) in enumerate(work)}
            for f in cf.as_completed(fs):
                k, x = fs[f]
                res.setdefault(k, []).append((f.result(), x))
        bad = 0
        for (name, how), rs in sorted(res.items()):
            acc = [x for r, x in rs if r is None]
            why = sorted({r for r, _ in rs if r})
            free = name in FREE or name.startswith("fp.nodes")
            err = [w for w in why if w.startswith("error")]
            if acc or err or "-v" in sys.argv:
                print(f"{'free' if free else 'ACCEPTED' if acc else 'ERROR' if err else 'rejected'} {name} {how}: {len(rs) - len(acc)} of {len(rs)} rejected; {'; '.join(why)[:300]}")
                if acc and not free:
                    bad += 1
                    print("   ", acc[0][3].strip()[:300], "->", acc[0][2].strip()[:300])
        print("events:", " ".join(sorted({n.split(".")[0] for n, _ in res})))
        print(sum(len(r) for r in res.values()), "changes;", bad, "kinds of change are accepted")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()

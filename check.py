#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's working tree.

Traces are recorded from the real code by the driver (harness/), which is
built against /repo, and validated with TLC against spec/KVTrace.tla.
Exit 0: held; 1: VIOLATION; anything else: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
JOBS = max(2, min(8, os.cpu_count() or 8))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only while developing
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))

sys.path.insert(0, HERE)
import models  # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def goenv():
    env = dict(os.environ)
    for d in ("/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"):
        if os.path.exists(d + "/go"):
            env["PATH"] = d + ":" + env["PATH"]
            break
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")
    env.setdefault("HOME", "/root")
    return env


def build(tmp):
    """the driver, built against /repo's working tree"""
    drv = os.path.join(tmp, "driver")
    src = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(HERE, "harness"), src)
    if REPO != "/repo":
        subprocess.run(["go", "mod", "edit", "-replace", "github.com/roy2220/plainkv=" + REPO], cwd=src, env=goenv(), check=True)
    p = subprocess.run(["go", "build", "-o", drv, "."], cwd=src, env=goenv(), capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise CheckError("the driver does not build against /repo:\n" + p.stdout + p.stderr)
    return drv


def drive(drv, tmp, prop, seed, tier, out, extra):
    """one run of the driver; returns None or a description of its crash"""
    env = dict(os.environ, GOTRACEBACK="single", GOMEMLIMIT="6GiB")
    cmd = [drv, "-suite", prop, "-seed", str(seed), "-tier", tier, "-out", out, "-tmp", tmp,
           "-data", os.path.join(HERE, "golden"), "-plan", os.path.join(os.path.dirname(drv), "plan"), "-v"] + extra
    err = out + ".err"
    with open(err, "w") as f:
        p = subprocess.run(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=3600 * 3)
    if p.returncode == 0:
        return None
    text = open(err, errors="replace").read()
    if p.returncode == 3:
        raise CheckError("driver: " + text[-2000:])
    m = re.search(r"^(runtime: goroutine stack exceeds.*|fatal error: (?!.*(out of memory|cannot allocate)).*|unexpected fault address.*|SIG(SEGV|BUS).*)$", text, re.M)
    if p.returncode == 2 and m and "runtime.mallocgc" not in text[:0]:
        started = re.findall(r"^START (.*)$", text, re.M)
        # which trace it was: only the header and the crash are left of it
        with open(out, "a") as f:
            f.write(json.dumps({"e": "hdr", "id": started[-1] if started else "?", "K": 0, "nd": 0, "kd": [], "ks": [], "h": [], "vs": []}) + "\n")
            f.write(json.dumps({"e": "crash", "op": "driver", "msg": re.sub(r"[^ -~]", "?", m.group(0))[:200].replace('"', "'")}) + "\n")
        return m.group(0)
    raise CheckError(f"driver ended with {p.returncode}: {text[-3000:]}")


def tlc(args, cwd, env=None, mem="3g", timeout=3600, meta=None):
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{mem}", "-Xss256m",
           f"-Djava.io.tmpdir={meta}", "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE"] + args
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout + p.stderr


def validate(trace, prop, tmp, tag):
    """(lines, reject, states): does the specification explain the trace?"""
    meta = os.path.join(tmp, "tlc-" + tag)
    os.makedirs(meta)
    cfg = os.path.join(meta, "KVTrace.cfg")
    base = open(os.path.join(SPEC, "KVTrace.cfg")).read()
    with open(cfg, "w") as f:
        f.write(re.sub(r"Enforce = .*", 'Enforce = {"%s"}' % prop, base))
    size = os.path.getsize(trace)
    mem = "3g" if size < 120e6 else "8g"
    rc, out = tlc(["-workers", "1", "-config", cfg, "KVTrace.tla"], SPEC, {"TRACE": trace}, mem=mem, timeout=3 * 3600, meta=meta)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    states = int(st.group(2)) if st else 0
    if m and rc == 0:
        return int(m.group(1)), None, states
    rej = re.findall(r'<<\s*"REJECT",\s*(\d+),(.*?),\s*"END"\s*>>', out, re.S)
    if rej and re.search(r'<<\s*"STOPPED"', out):
        tags = []
        line = int(rej[-1][0])
        for n, t in rej:
            t = re.sub(r"\s+", " ", t).strip()
            if int(n) == line and t not in tags:
                tags.append(t)
        return 0, (line, "; ".join(tags)), states
    raise CheckError(f"TLC failed on {trace} (exit {rc}):\n" + out[-4000:])


def excerpt(trace, line):
    """the failing trace up to the rejected line"""
    hdr = 0
    with open(trace) as f:
        for i, l in enumerate(f, 1):
            if l.startswith('{"e":"hdr"') or l.startswith('{"e": "hdr"'):
                hdr = i
            if i == line:
                break
    got = []
    with open(trace) as f:
        for i, l in enumerate(f, 1):
            if hdr <= i <= line:
                got.append(l)
            elif i > line:
                break
    tid = json.loads(got[0])["id"]
    return tid, got


def run_shard(drv, tmp, prop, seed, tier, shard, shards):
    out = os.path.join(tmp, f"t{shard}.ndjson")
    t0 = time.time()
    drive(drv, tmp, prop, seed, tier, out, ["-shard", str(shard), "-shards", str(shards)])
    t1 = time.time()
    stats = summarize(out)
    n, rej, states = validate(out, prop, tmp, str(shard))
    stats.update(lines=n, states=states, drive_s=t1 - t0, tlc_s=time.time() - t1)
    res = None
    if rej:
        tid, got = excerpt(out, rej[0])
        res = (tid, rej[1], got)
    os.remove(out)
    return stats, res


def summarize(out):
    kinds, traces, ops = {}, 0, 0
    sample = None
    with open(out) as f:
        for l in f:
            m = re.match(r'\{"e": ?"(\w+)"', l)
            k = m.group(1) if m else "?"
            kinds[k] = kinds.get(k, 0) + 1
            if k == "hdr":
                traces += 1
                if sample is None:
                    sample = json.loads(l)["id"]
            elif k == "op":
                m = re.search(r'"n":(\d+)', l)
                ops += int(m.group(1))
            if k not in ("hdr", "op") and len(l) < 400 and sample and not isinstance(sample, list):
                sample = [sample, l.strip()]
    return dict(kinds=kinds, traces=traces, ops=ops, sample=sample)


def confirm(drv, tmp, prop, seed, tier, tid):
    """the same trace again, alone: rejected again?"""
    for _ in range(8 if "~" in tid else 1):  # with others at the same time: not the same each time
        got = confirm1(drv, tmp, prop, seed, tier, tid)
        if got:
            return got
    return None


def confirm1(drv, tmp, prop, seed, tier, tid):
    d = tempfile.mkdtemp(dir=tmp)
    out = os.path.join(d, "again.ndjson")
    drive(drv, d, prop, seed, tier, out, ["-only", tid])
    _, rej, _ = validate(out, prop, d, "again")
    if not rej:
        if not os.path.getsize(out):
            raise CheckError(f"trace {tid} was not recorded again")
        return None
    _, got = excerpt(out, rej[0])
    return rej[1], got


def known_findings(prop):
    got = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p):
        m = re.match(r"known: property=(\S+) trace=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            got.append((m.group(2), m.group(3)))
    return got


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")

    def stop(*_):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, stop)
    try:
        rc = run(prop, tier, seed, tmp, t0)
    except CheckError as e:
        log("ERROR:", e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        log("ERROR: timeout:", e)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, tmp, t0):
    drv = build(tmp)
    shards = JOBS * (2 if tier == "quick" else 8)
    model_stats, plan = models.run(prop, tier, seed, tmp, tlc, CheckError)
    total = dict(kinds={}, traces=0, ops=0, lines=0, states=0, drive_s=0.0, tlc_s=0.0)
    samples, bad = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(run_shard, drv, tmp, prop, seed, tier, i, shards) for i in range(shards)]
        err = None
        for f in cf.as_completed(fs):
            try:
                s, r = f.result()
            except Exception as e:  # remembered: a rejection elsewhere counts more
                err = e
                continue
            for k in ("traces", "ops", "lines", "states", "drive_s", "tlc_s"):
                total[k] += s[k]
            for k, v in s["kinds"].items():
                total["kinds"][k] = total["kinds"].get(k, 0) + v
            if isinstance(s["sample"], list):
                samples.append({"trace": s["sample"][0], "event": s["sample"][1]})
            if r:
                bad.append(r)
                for g in fs:
                    g.cancel()
    rc, nviol = 0, 0
    known = known_findings(prop)
    for tid, what, got in bad:
        again = confirm(drv, tmp, prop, seed, tier, tid)
        if again is None:
            log(f"ERROR: trace {tid} was rejected ({what}) but not when it was recorded again")
            rc = rc or 2
            continue
        what, got = again
        k = [d for t, d in known if t == tid and d in what]
        if k:
            log(f"KNOWN-FINDING: property={prop} {tid}: {what}")
            continue
        d = os.path.join(EVIDENCE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{re.sub(r'[^A-Za-z0-9.=-]', '_', tid)}-{seed}.ndjson")
        with open(path, "w") as f:
            f.writelines(got)
        log(f"{prop}: trace {tid}, line {len(got)} of the replay is not explained by the specification: {what}")
        log("  rejected: " + got[-1].strip()[:600])
        log(f"  again: driver -suite {prop} -seed {seed} -tier {tier} -only '{tid}'; replay checks with TRACE={path} and spec/KVTrace.tla")
        log(f"VIOLATION property={prop} replay={path}")
        nviol += 1
        rc = 1
    if rc == 0 and err is not None:
        raise err if isinstance(err, CheckError) else CheckError(repr(err))
    if rc == 0 and not bad and total["lines"] != sum(total["kinds"].values()):
        raise CheckError("not every line was validated")
    tree = None
    if rc == 0:
        models.require(prop, total, CheckError)
        if prop == "C08":
            with cf.ThreadPoolExecutor(JOBS) as ex:
                tree = models.conformance(drv, tmp, seed, tier, drive, tlc, ex, JOBS)
            log(f"{prop}: BPTree predicted the real code: {tree['agreed']} observations agree, {tree['diverged']} differ; "
                f"never taken: {' '.join(tree['cases_never_taken']) or 'none'}")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["states"] + sum(m["states"] for m in model_stats),
            "transitions": max(0, total["states"] - shards) + sum(m["transitions"] for m in model_stats),
            "traces_validated_against_impl": total["traces"],
            "samples": samples[:5],
            "trace_lines": total["lines"],
            "operations_on_real_code": total["ops"],
            "events_by_kind": total["kinds"],
            "design_models": model_stats,
            "replayed_model_behaviours": plan,
            **({"btree_model_against_real_trees": tree} if tree else {}),
            "driver_cpu_s": round(total["drive_s"], 1), "tlc_cpu_s": round(total["tlc_s"], 1),
        },
        "assumptions": models.ASSUMPTIONS,
        "wall_s": round(wall, 1), "violations": nviol,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        log(f"{prop}: {total['traces']} traces, {total['lines']} lines, {total['ops']} operations explained by the specification; "
            f"models: {sum(m['states'] for m in model_stats)} states; {wall:.0f} s")
    return rc


if __name__ == "__main__":
    main()

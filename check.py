#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

    check.py ID [quick|thorough]      run the check (seed from VERIF_SEED, default 1)
    check.py --replay FILE            run one saved case, verbosely
    check.py --setup                  build every check once

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else:
the check itself could not do its work (build failure, out of memory, time).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"

# properties with sub checks in a binary built with the race detector
RACE = {"C10", "C11", "C19"}
# number of parallel processes
SHARDS = {"C16": 3}
# commands of the repository that a check runs
TOOLS = {"C22": "./cmd/precision"}
LIMIT = {"quick": 780, "thorough": 5400}

ENV = dict(
    os.environ,
    GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOEXPERIMENT="arenas", GOSUMDB="off",
    HOME=os.environ.get("HOME") or "/root", GOWORK="off",
)
for k in ("GOROOT", "GODEBUG", "GOOS", "GOARCH", "GOGC", "GOMEMLIMIT", "GOMAXPROCS"):
    ENV.pop(k, None)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def build(prop, out, race):
    cmd = ["go", "test", "-c", "-o", out, "-vet=off"]
    if race:
        # checkptr would complain about the unaligned nodes the layout asks for
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    cmd.append("./" + prop.lower())
    p = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def build_tool(prop, out):
    """The binary goes to out; /repo's module files stay as they are."""
    env = dict(ENV, GOFLAGS="-mod=readonly")
    p = subprocess.run(["go", "build", "-o", out, TOOLS[prop]], cwd=REPO, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise CheckError("build failed: %s\n%s" % (TOOLS[prop], p.stdout[-6000:]))


def run_proc(binary, base, tier, seed, shard, shards, race, deadline, replay=None, corpus=None):
    """One process; gives (kind, payload, result)."""
    out = os.path.join(base, "out")
    tmp = os.path.join(base, "tmp")
    os.makedirs(out, exist_ok=True)
    os.makedirs(tmp, exist_ok=True)
    env = dict(
        ENV, VH_TIER=tier, VH_SEED=str(seed), VH_SHARD=str(shard), VH_SHARDS=str(shards), VH_OUT=out, VH_TMP=tmp,
        VH_RACE="1" if race else "0", GOTRACEBACK="all", GOMEMLIMIT="2000MiB", TMPDIR=tmp,
        GORACE="halt_on_error=1 exitcode=66 history_size=3",
    )
    if not race:
        env["GOMAXPROCS"] = "4"
    tool = os.path.join(os.path.dirname(binary), "tool")
    if os.path.exists(tool):
        env["VH_TOOL"] = tool
    if replay:
        env["VH_REPLAY"] = replay
    if corpus:
        env["VH_CORPUS"] = corpus
    so = open(os.path.join(base, "stdout"), "wb")
    se = open(os.path.join(base, "stderr"), "wb")
    p = subprocess.Popen(
        [binary, "-test.run=^TestCheck$", "-test.timeout=0"], cwd=tmp, env=env, stdin=subprocess.DEVNULL,
        stdout=so, stderr=se, start_new_session=True)
    try:
        rc = p.wait(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return "error", "shard %d ran out of time" % shard, None
    finally:
        so.close()
        se.close()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def read(name):
        try:
            with open(os.path.join(out, name)) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    err = tail(os.path.join(base, "stderr"), 60000)
    if read("infra.json"):
        return "error", read("infra.json")["error"], None
    fail = read("fail.json")
    if fail:
        return "fail", fail, read("result.json")
    if rc == 0 and read("result.json") is not None:
        return "ok", None, read("result.json")

    journal = read("journal.json")
    if rc == 66 and "WARNING: DATA RACE" in err:
        report = err[err.index("WARNING: DATA RACE"):]
        report = report[:12000]
        if "mariotoffia/goannoy" not in report:
            return "error", "data race in the harness:\n" + report, None
        if journal:
            journal["error"] = report
            return "fail", journal, None
    if rc < 0 and -rc in (signal.SIGKILL, signal.SIGTERM):
        return "error", "shard %d was killed (signal %d); out of memory?" % (shard, -rc), None
    low = err.lower()
    for s in ("out of memory", "cannot allocate memory", "failed to create new os thread", "no space left on device",
              "resource temporarily unavailable"):
        if s in low:
            return "error", "shard %d: resources: %s" % (shard, err[-3000:]), None
    if journal and re.search(r"(?m)^(panic:|fatal error:|unexpected fault address|SIG[A-Z]+:|runtime:)", err):
        i = re.search(r"(?m)^(panic:|fatal error:|unexpected fault address|SIG[A-Z]+:|runtime:)", err).start()
        journal["error"] = "the process crashed:\n" + err[i:i + 12000]
        return "fail", journal, None
    if journal and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT):
        # memory is so broken that the runtime could not even report it
        journal["error"] = "the process died of signal %d" % -rc
        return "fail", journal, None
    return "error", "shard %d: exit %d\n%s\n%s" % (
        shard, rc, tail(os.path.join(base, "stdout"), 3000), err[-3000:]), None


def run_shard(binary, base, tier, seed, shard, shards, race, deadline, corpus):
    """A case that used too much memory or time has to do so again when run alone; if it does not, the machine was
    at fault, and the shard is run once more."""
    for attempt in range(2):
        r = run_proc(binary, "%s.%d" % (base, attempt), tier, seed, shard, shards, race, deadline, None, corpus)
        if r[0] != "fail" or r[1].get("note") != "hang" or "deadlock" in r[1].get("error", "")[:60]:
            return r
        case = "%s.%d.case.json" % (base, attempt)
        with open(case, "w") as f:
            json.dump(r[1], f)
        for i in range(3):
            k = run_proc(binary, "%s.%d.alone%d" % (base, attempt, i), tier, seed, 0, 1, race, time.time() + 240, replay=case)
            if k[0] == "fail":
                return r
        log("shard %d: %s, but not when run alone: %s" % (shard, r[1]["error"][:120].split("\n")[0], json.dumps(r[1].get("case"))[:600]))
    return "error", "shard %d: too little memory or time" % shard, None


def tail(path, n):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            # keep the beginning of a crash report
            f.seek(0)
            if size <= n:
                return f.read().decode("utf-8", "replace")
            head = f.read(n // 2)
            f.seek(-(n // 2), 2)
            return (head + b"\n...\n" + f.read()).decode("utf-8", "replace")
    except OSError:
        return ""


def check(prop, tier):
    start = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed = seed % (1 << 31)
    deadline = start + LIMIT[tier]
    work = tempfile.mkdtemp(prefix="vh-%s-" % prop.lower())
    try:
        return run_check(prop, tier, seed, deadline, work, start)
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)


def run_check(prop, tier, seed, deadline, work, start):
    bins = {False: os.path.join(work, "bin")}
    if prop in RACE:
        bins[True] = os.path.join(work, "bin.race")
    with cf.ThreadPoolExecutor(2) as ex:
        jobs = [ex.submit(build, prop, b, r) for r, b in bins.items()]
        if prop in TOOLS:
            jobs.append(ex.submit(build_tool, prop, os.path.join(work, "tool")))
        for f in jobs:
            f.result()
    t_build = time.time() - start

    corpus = os.path.join(VERIF, "corpus", prop)
    cpus = os.cpu_count() or 1
    jobs = []
    for race, b in bins.items():
        n = 4 if race else SHARDS.get(prop, 8)
        for s in range(n):
            jobs.append((race, b, s, n))
    jobs.sort(key=lambda j: (j[2], not j[0]))
    outcomes = []
    with cf.ThreadPoolExecutor(max(2, min(cpus, 8))) as ex:
        futs = {}
        for race, b, s, n in jobs:
            base = os.path.join(work, "%s%d" % ("r" if race else "s", s))
            futs[ex.submit(run_shard, b, base, tier, seed, s, n, race, deadline,
                           corpus if os.path.isdir(corpus) else None)] = (race, s)
        for f in cf.as_completed(futs):
            outcomes.append((futs[f], f.result()))
            if f.result()[0] == "fail":
                for g in futs:
                    g.cancel()
                break
        # let the running shards end by themselves only when nothing failed
        if any(o[1][0] == "fail" for o in outcomes):
            kill_children(work)
    outcomes.sort(key=lambda o: (not o[0][0], o[0][1]))

    fails = [o[1][1] for o in outcomes if o[1][0] == "fail"]
    errors = [o[1][1] for o in outcomes if o[1][0] == "error"]

    merged, hashes = {}, set()
    evaluations = 0
    for (_, _), (_, _, res) in outcomes:
        for name, r in (res or {}).items():
            m = merged.setdefault(name, {"rule": r["rule"], "evaluations": 0, "distinct_nontrivial": set(),
                                         "classes": {}, "samples": [], "cpu_s": 0.0})
            m["evaluations"] += r["evaluations"]
            evaluations += r["evaluations"]
            m["distinct_nontrivial"].update(r["hashes"] or [])
            hashes.update(name + h for h in (r["hashes"] or []))
            for k, v in r["classes"].items():
                m["classes"][k] = m["classes"].get(k, 0) + v
            m["samples"] += [s for s in (r["samples"] or [])][:1]
            m["cpu_s"] += r["wall_s"]
    samples = []
    for name in sorted(merged):
        m = merged[name]
        m["distinct_nontrivial"] = len(m["distinct_nontrivial"])
        m["cpu_s"] = round(m["cpu_s"], 2)
        m["classes"] = dict(sorted(m["classes"].items()))
        for s in m.pop("samples")[:2]:
            samples.append({"sub": name, "case": s})

    status, replay = 0, None
    if fails:
        fail = min(fails, key=lambda f: len(json.dumps(f.get("case"))))
        fail["race"] = bool(fail.get("race"))
        replay = save_replay(prop, fail, seed)
        repro = 0
        tries = 3
        binary = bins[fail["race"] and True in bins]
        for i in range(tries):
            base = os.path.join(work, "replay%d" % i)
            os.makedirs(base)
            kind, _, _ = run_proc(binary, base, tier, seed, 0, 1, fail["race"], time.time() + 240, replay=replay)
            if kind == "fail":
                repro += 1
                break
        log("property %s, sub check %s: %s" % (prop, fail.get("sub"), (fail.get("error") or "")[:4000]))
        log("case: %s" % json.dumps(fail.get("case"))[:3000])
        log("replay %s" % ("fails again" if repro else "did not fail again in %d tries (depends on the schedule)" % tries))
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        status = 1
    elif errors:
        for e in errors:
            log("ERROR %s: %s" % (prop, e))
        status = 2

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": "; ".join("%s: %s" % (n, merged[n]["rule"]) for n in sorted(merged)) or "none ran",
            "samples": samples or [{"sub": n} for n in sorted(merged)],
            "subchecks": {n: merged[n] for n in sorted(merged)},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if status == 1 else 0,
    }
    evidence["coverage"]["build_s"] = round(t_build, 2)
    if replay:
        evidence["coverage"]["replay"] = replay
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)
    if status == 0:
        for line in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, line))
        print("%s %s: held on %d cases (%d distinct non-trivial), %.1f s" % (
            prop, tier, evaluations, len(hashes), time.time() - start))
    return status


ASSUMPTIONS = [
    "Linux/amd64, the installed Go toolchain compiles the library as its users' would",
    "finite vector elements whose squares and their sums are normal numbers; ids that fit the index type",
    "build allocators hand out zeroed memory beyond what was asked for before, as the built-in one does",
]


def known(prop):
    """Findings recorded, not repaired."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out.append(m.group(2))
    except OSError:
        pass
    return out


def kill_children(work):
    for d in glob.glob("/proc/[0-9]*"):
        try:
            if os.readlink(d + "/cwd").startswith(work + "/"):
                os.kill(int(os.path.basename(d)), signal.SIGKILL)
        except OSError:
            pass


def save_replay(prop, fail, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    raw = json.dumps(fail, indent=1)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(raw.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(raw)
    return path


def replay(path):
    with open(path) as f:
        saved = json.load(f)
    prop, race = saved["property"], bool(saved.get("race"))
    work = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        b = os.path.join(work, "bin")
        build(prop, b, race)
        if prop in TOOLS:
            build_tool(prop, os.path.join(work, "tool"))
        base = os.path.join(work, "r")
        os.makedirs(base)
        kind, payload, _ = run_proc(b, base, "quick", 1, 0, 1, race, time.time() + 600, replay=os.path.abspath(path))
        if kind == "fail":
            print(payload.get("error"))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if kind == "error":
            log(payload)
            return 2
        print("the case passes")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    pkgs = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(HARNESS + "/c[0-9][0-9]/*_test.go"))
    pkgs = sorted(set(pkgs))
    work = tempfile.mkdtemp(prefix="vh-setup-")
    try:
        for p in pkgs:
            build(p, os.path.join(work, "bin"), False)
            os.unlink(os.path.join(work, "bin"))
            if p.upper() in TOOLS:
                build_tool(p.upper(), os.path.join(work, "tool"))
                os.unlink(os.path.join(work, "tool"))
            if p.upper() in RACE:
                build(p, os.path.join(work, "bin"), True)
                os.unlink(os.path.join(work, "bin"))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("built", " ".join(pkgs))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            return setup()
        if a[:1] == ["--replay"]:
            return replay(a[1])
        prop = a[0].upper()
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in LIMIT:
            tier = "quick"
        return check(prop, tier)
    except CheckError as e:
        log("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

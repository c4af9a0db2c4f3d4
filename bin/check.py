#!/usr/bin/env python3
"""Runs one property's check: builds the simulator from /repo's working tree, proves
determinism on a sample, explores seeds, minimises and replays what fails, writes evidence.

  check.py P03 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep-going]
exit 0 held on everything explored | 1 VIOLATION line printed | 2 error of the check
"""
import argparse, concurrent.futures as cf, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import PROPS, REAL, STUB  # noqa: E402

CXX = "g++"
F_RT = "-std=c++17 -O2 -g -fno-builtin -fno-tree-loop-distribute-patterns -fno-pie".split()
F_DRV = "-std=c++17 -O2 -fno-pie".split()
F_WL = "-std=c++17 -O1 -g -fopenmp -fsanitize=thread -DNDEBUG -fno-pie -w".split()
TIER_WATCHDOG = {"quick": 45, "thorough": 200}


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    os._exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in (".git", "_build")]
        out += [os.path.join(r, f) for f in fs if not f.startswith(".")]
    return out


def compile_obj(src, flags, inc, key, bdir):
    obj = os.path.join(bdir, os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = run([CXX] + flags + inc + ["-c", src, "-o", tmp])
    if r.returncode and b"Killed signal" in r.stdout:      # memory was short for a moment
        time.sleep(20)
        r = run([CXX] + flags + inc + ["-c", src, "-o", tmp])
    if r.returncode:
        die("cannot compile %s:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
    os.rename(tmp, obj)
    return obj


def build(tus):
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    sim = [os.path.join(VERIF, "sim", f) for f in os.listdir(os.path.join(VERIF, "sim"))]
    work = tree(os.path.join(VERIF, "work"))
    repo = tree(os.path.join(REPO, "include")) + tree(os.path.join(REPO, "apps"))
    ksim = digest(sim, " ".join(F_RT + F_DRV))
    kall = digest(sim + work + repo, " ".join(F_WL))
    jobs = [(os.path.join(VERIF, "sim/rt.cpp"), F_RT, [], ksim),
            (os.path.join(VERIF, "sim/driver.cpp"), F_DRV, [], ksim)]
    for t in tus:
        jobs.append((os.path.join(VERIF, "work", t + ".cpp"), F_WL,
                     ["-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + os.path.join(VERIF, "work", "stub")], kall))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_obj(j[0], j[1], j[2], j[3], bdir), jobs))
    exe = os.path.join(bdir, "sim-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:20])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = run([CXX, "-no-pie"] + objs[2:] + objs[:2] + ["-o", tmp])
        if r.returncode:
            die("cannot link:\n" + r.stdout.decode(errors="replace")[-3000:])
        os.rename(tmp, exe)
    return exe


def one(exe, wl, seed, dump=None, wd=60):
    cmd = [exe, "one", "--workload", wl, "--seed", str(seed), "--watchdog", str(wd)]
    if dump:
        cmd += ["--dump", dump]
    r = run(cmd)
    try:
        return json.loads(r.stdout.decode(errors="replace").splitlines()[-1])
    except Exception:
        die("no result from one %s %s: %s" % (wl, seed, r.stdout[-500:]))


def replay(exe, path, dump=None, wd=30):
    cmd = [exe, "replay", path, "--watchdog", str(wd)]
    if dump:
        cmd += ["--dump", dump]
    r = run(cmd)
    try:
        return json.loads(r.stdout.decode(errors="replace").splitlines()[-1])
    except Exception:
        return {"status": 4, "code": "", "msg": r.stdout.decode(errors="replace")[-300:], "hash": ""}


def sig(r):
    return (r["status"], r["code"], r["hash"], r["steps"])


# ---------------------------------------------------------------- minimisation
class Trace:
    def __init__(self, path):
        self.w, self.f, self.t, self.s, self.wl = [], [], [], [], ""
        for line in open(path):
            if line.startswith("workload"):
                self.wl = line.split()[1]
            elif line[0] == "W":
                self.w = [int(x) for x in line[1:].split()]
            elif line[0] in "FTS":
                {"F": self.f, "T": self.t, "S": self.s}[line[0]].append(line.strip())

    def copy(self, **kw):
        t = object.__new__(Trace)
        t.__dict__.update(self.__dict__)
        t.__dict__.update(kw)
        return t

    def write(self, path, head=""):
        with open(path, "w") as o:
            o.write(head)
            o.write("workload %s\n" % self.wl)
            o.write("# choices of the workload, in the order they are consumed (missing = 0)\nW" + "".join(" %d" % x for x in self.w) + "\n")
            o.write("# faults: F kind ordinal value\n" + "".join(x + "\n" for x in self.f))
            o.write("# team sizes: T region size\n" + "".join(x + "\n" for x in self.t))
            o.write("# schedule: S thread local_step next_thread\n" + "".join(x + "\n" for x in self.s))

    def size(self):
        return len(self.s) + len(self.f) + len(self.t), sum(self.w)


def minimise(exe, path, code, budget, tmp):
    t0 = time.time()
    cur = Trace(path)
    n = [0]

    def bad(tr):
        if time.time() - t0 > budget:
            return False
        n[0] += 1
        tr.write(tmp)
        r = replay(exe, tmp, wd=20)
        return r["status"] == 2 and r["code"] == code

    def attempt(**kw):
        nonlocal cur
        c = cur.copy(**kw)
        if bad(c):
            cur = c
            return True
        return False

    def ddmin(field):
        k = 2
        while True:
            xs = getattr(cur, field)
            if not xs or time.time() - t0 > budget:
                return
            size = max(1, (len(xs) + k - 1) // k)
            done = False
            i = 0
            while i < len(getattr(cur, field)):
                xs = getattr(cur, field)
                if attempt(**{field: xs[:i] + xs[i + size:]}):
                    done = True
                else:
                    i += size
                if time.time() - t0 > budget:
                    return
            if size == 1:
                if not done:
                    return
            else:
                k *= 2

    def shrinkw():
        i = 0
        while i < len(cur.w):
            if time.time() - t0 > budget:
                return
            v = cur.w[i]
            for c in sorted(set([0, v // 2, v - 1])):
                if 0 <= c < v and attempt(w=cur.w[:i] + [c] + cur.w[i + 1:]):
                    break
            i += 1

    for field in ("s", "t", "f"):
        if getattr(cur, field):
            attempt(**{field: []})
    shrinkw()
    for field in ("f", "t", "s"):
        ddmin(field)
    shrinkw()
    for field in ("f", "t", "s"):
        ddmin(field)
    while cur.w and cur.w[-1] == 0:
        cur.w = cur.w[:-1]
    return cur, n[0]


# ---------------------------------------------------------------- known findings
def known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    P = PROPS[a.prop]
    t0 = time.time()
    tier = P[a.tier]
    kf = [k for k in known() if k["property"] == a.prop]
    os.environ["SIM_KNOWN"] = ",".join(k["id"] for k in kf)     # the workloads recognise these, and only these
    exe = build(P["tus"])
    tbuild = time.time() - t0
    if a.replay:
        r = replay(exe, a.replay, wd=600)
        print(json.dumps(r, indent=1))
        if r["status"] == 2:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            sys.exit(1)
        sys.exit(0 if r["status"] in (1, 3) else 2)
    print("%s: simulator built from %s in %.1f s; seed %d, tier %s" % (a.prop, REPO, tbuild, a.seed, a.tier))
    sys.stdout.flush()
    out = os.path.join(VERIF, "out")
    os.makedirs(out, exist_ok=True)
    names = [w.split(":")[0] for w in P["workloads"].split(",")]
    jobs = os.cpu_count() or 8

    # determinism: the same seed twice, and the recorded trace replayed, give the same history
    def det(k):
        wl = names[k % len(names)]
        sd = (a.seed * 7919 + k * 104729 + 13) & 0x7fffffff
        f = os.path.join(out, "%s-det-%d-%d" % (a.prop, os.getpid(), k))
        r1 = one(exe, wl, sd, f)
        r2 = one(exe, wl, sd)
        bad = None
        if r1["status"] == 2 and r2["status"] == 2:
            pass                                    # judged, with the same gates, where violations are handled
        elif sig(r1) != sig(r2) and r1["code"] != "HANG":
            bad = "seed %d of %s is not repeatable: %s / %s" % (sd, wl, sig(r1), sig(r2))
        elif r1["status"] in (1, 2, 3) and r1["code"] not in ("HANG", "EXIT"):
            r3 = replay(exe, f)
            if sig(r3) != sig(r1):
                bad = "replay of seed %d of %s diverges: %s / %s" % (sd, wl, sig(r1), sig(r3))
        if os.path.exists(f):
            os.unlink(f)
        return bad
    ndet = tier.get("det", 24)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for b in ex.map(det, range(ndet)):
            if b:
                die(b)

    fo = os.path.join(out, "%s-explore-%d.json" % (a.prop, os.getpid()))
    runs = max(1, int(tier["runs"] * a.scale))
    cmd = [exe, "explore", "--workload", P["workloads"], "--seed", str(a.seed), "--runs", str(runs), "--jobs", str(jobs),
           "--wall", str(tier["wall"]), "--out", fo, "--maxviol", "4", "--watchdog", str(TIER_WATCHDOG[a.tier])]
    r = run(cmd)
    try:
        E = json.load(open(fo))
        os.unlink(fo)
    except Exception as e:
        die("exploration gave no result (%s): %s" % (e, r.stdout.decode(errors="replace")[-1000:]))

    status = 0
    rep = None
    vios = E["violations"]
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    odd = []
    for v in vios:
        wl, sd = v["workload"], v["seed"]
        path = os.path.join(out, "%s-%s-%d.replay" % (a.prop, wl, sd))
        raw = path + ".raw"
        wd = TIER_WATCHDOG[a.tier] * 2
        r1 = one(exe, wl, sd, raw, wd)
        r2 = one(exe, wl, sd, None, wd)
        if r1["status"] != 2 or r1["code"] != v["code"] or (v["code"] != "HANG" and sig(r1) != sig(r2)) or r2["code"] != v["code"]:
            odd.append("violation at seed %d of %s does not repeat: %s / %s / %s" % (sd, wl, v["code"], sig(r1), sig(r2)))
            continue
        head = "# property %s: %s: %s\n# found by workload %s with seed %d\n" % (a.prop, v["code"], v["msg"].replace("\n", " "), wl, sd)

        def reproduces():
            a1, a2 = replay(exe, path, wd=wd), replay(exe, path, wd=wd)
            return a1 if a1["status"] == 2 and a1["code"] == v["code"] and (v["code"] == "HANG" or sig(a1) == sig(a2)) else None
        a1 = None
        if v["code"] not in ("HANG", "EXIT") and os.path.exists(raw):
            before = Trace(raw).size()
            tr, tries = minimise(exe, raw, v["code"], tier.get("minimise", 40), raw + ".try")
            tr.write(raw + ".try")
            m = replay(exe, raw + ".try")
            head2 = "# minimised: %s: %s\n# %s\n" % (m["code"], m["msg"].replace("\n", " "), m["note"].replace("\n", " "))
            tr.write(path, head + head2)
            mins = "schedule/fault entries %d -> %d, choices sum %d -> %d in %d replays" % (
                before[0], tr.size()[0], before[1], tr.size()[1], tries)
            a1 = reproduces()
        for f in (raw, raw + ".try"):
            if os.path.exists(f):
                os.unlink(f)
        if not a1:      # the seed itself is an exact replay as well
            with open(path, "w") as o:
                o.write(head + "workload %s\nseed %d\n" % (wl, sd))
            mins = "not minimised"
            a1 = reproduces()
        if not a1:
            odd.append("replay file %s does not reproduce" % path)
            continue
        print("%s: %s" % (a1["code"], a1["msg"]))
        print("  %s" % a1["note"])
        print("  minimised: %s" % mins)
        rep = path
        status = 1
        break
    if vios and not status:
        die("; ".join(odd))
    if not status and E["errors"]:
        die("%d runs ended in an error of the simulator: %s" % (E["errors"], E["error"]))
    wall = time.time() - t0
    el = max(E["wall"], 1e-3)
    samples = [dict(workload=s["workload"], seed=s["seed"], case=s["note"], steps=s["steps"], switches=s["switches"],
                    preemptions=s["preempts"], parallel_regions=s["regions"], history=s["hash"]) for s in E["samples"][:6]]
    cov = dict(
        evaluations=E["runs"], distinct_nontrivial=E["distinct_nontrivial"],
        rule=P["rule"] + " One run = one seed = one forked process; a run is counted once per distinct (choices, schedule hash, observed history).",
        samples=samples,
        runs_per_hour=int(E["runs"] / el * 3600), seeds_per_hour=int(E["runs"] / el * 3600),
        explore_wall_s=round(el, 1), simulated_steps=E["steps"], simulated_seconds=round(E["simns"] * 1e-9, 3),
        context_switches=E["switches"], involuntary_preemptions=E["preempts"], parallel_regions=E["regions"],
        conflicting_accesses_seen=E["conflicts"],
        distinct_interleavings=E["distinct_schedules"], interleaving_measure="hash of the sequence of (step, from, to) context switches together with the workload choices",
        distinct_histories=E["distinct_histories"], distinct_workloads=E["distinct_workloads"], distinct_chunk_assignments=E["distinct_chunkings"],
        faults_injected={k: dict(times=v[0], runs=v[1]) for k, v in E["faults"].items()},
        scheduler_strategies=dict(zip(["sync-points-only", "random-walk", "pct", "conflict-directed", "hog", "round-robin"], E["strategies"])),
        worker_counts=E["threads"], runs_per_workload=E["per_workload"], rejected_runs=E["rejected"],
        determinism=dict(seeds_run_twice_and_replayed=ndet, divergences=0),
        real_components=REAL + P.get("real", []), stub_components=STUB + P.get("stub", []),
        known_findings=[k["what"] for k in kf],
    )
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
              assumptions=P.get("assumptions", []) + [
                  "Sequentially consistent interleavings at memory-access granularity; weak-memory reorderings are not simulated.",
                  "A clean batch is evidence over the sampled schedules and inputs, not a proof."],
              wall_s=round(wall, 1), violations=len(vios))
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
    print("%s: %d runs (%d distinct non-trivial, %d interleavings) in %.1f s, %d violations; total %.1f s" % (
        a.prop, E["runs"], E["distinct_nontrivial"], E["distinct_schedules"], el, len(vios), wall))
    if status:
        print("VIOLATION property=%s replay=%s" % (a.prop, rep))
    sys.exit(status)


main()

#!/usr/bin/env python3
"""Development tool: which lines of /repo's headers do the workloads reach?
  cov.py OUTDIR [runs-per-property] [P01 P02 ...]   writes OUTDIR/uncovered.txt
"""
import os, subprocess, sys, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
out = sys.argv[1]; runs = sys.argv[2] if len(sys.argv) > 2 else "4000"
ps = sys.argv[3:] or sorted(PROPS)
os.makedirs(out, exist_ok=True)
REPO = os.environ.get("VERIF_REPO", "/repo")
def sh(c): subprocess.check_call(c, shell=True)
hit = {}                      # (file, line) -> covered?
groups = collections.OrderedDict()
for p in ps: groups.setdefault(tuple(PROPS[p]["tus"]), []).append(p)
rt = out + "/rt.o"; drv = out + "/driver.o"; cov = out + "/cov.o"
sh("g++ -std=c++17 -O2 -g -fno-builtin -fno-tree-loop-distribute-patterns -fno-pie -c %s/sim/rt.cpp -o %s" % (V, rt))
sh("g++ -std=c++17 -O2 -fno-pie -c %s/sim/driver.cpp -o %s" % (V, drv))
sh("gcc -O2 -fno-pie -c %s/sim/cov.c -o %s" % (V, cov))
per = {}
for tus, pl in groups.items():
    objs = []
    for t in tus:
        o = "%s/%s.o" % (out, t)
        sh("g++ -std=c++17 -O1 -g -fno-inline -fopenmp -fsanitize=thread -fsanitize-coverage=trace-pc -DNDEBUG -fno-pie -w -I%s/include -I%s -I%s/work/stub -c %s/work/%s.cpp -o %s" % (REPO, REPO, V, V, t, o))
        objs.append(o)
    exe = out + "/sim-" + "-".join(tus)
    sh("g++ -no-pie %s %s %s %s -o %s" % (" ".join(objs), rt, drv, cov, exe))
    dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True).stdout
    sites, want = [], False
    for line in dis.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\s", line)
        if not m: continue
        if want: sites.append(int(m.group(1), 16)); want = False
        if "call" in line and "__sanitizer_cov_trace_pc" in line: want = True
    a = subprocess.run(["addr2line", "-e", exe] , input="\n".join(hex(x - 1) for x in sites), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    loc = [x.split(" ")[0] for x in a]
    for p in pl:
        f = out + "/cov-" + p
        if os.path.exists(f): os.unlink(f)
        subprocess.run([exe, "explore", "--workload", PROPS[p]["workloads"], "--seed", "1", "--runs", runs, "--jobs", "8", "--wall", "300", "--out", out + "/e.json", "--maxviol", "2", "--watchdog", "60"], env=dict(os.environ, SIM_COV=f), stdout=subprocess.DEVNULL)
        b = open(f, "rb").read()
        for pc, l in zip(sites, loc):
            m = re.match(r"(.*)/include/tdzdd/(.*):(\d+)", l)
            if not m: continue
            k = (os.path.normpath(m.group(2)), int(m.group(3)))
            k = (k[0].split("../")[-1] if ".." in k[0] else k[0], k[1])
            hit[k] = hit.get(k, False) or b[pc] == 1
            per.setdefault(p, set())
            if b[pc]: per[p].add(k)
with open(out + "/uncovered.txt", "w") as o:
    files = sorted(set(k[0] for k in hit))
    tot = len(hit); c = sum(hit.values())
    o.write("covered %d of %d instrumented lines\n" % (c, tot))
    for f in files:
        ls = sorted(l for (g, l) in hit if g == f and not hit[(g, l)])
        allf = sum(1 for (g, l) in hit if g == f)
        o.write("%s: %d/%d uncovered: %s\n" % (f, len(ls), allf, " ".join(map(str, ls))))
print(open(out + "/uncovered.txt").read())

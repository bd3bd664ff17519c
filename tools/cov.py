#!/usr/bin/env python3
"""cov.py BUILD N PROP[,PROP..] [FILTER]  -- coverage of the real code by N seeds of each property (build flavour cov).
Prints per file covered/total lines with a basic block; with FILTER (path substring) also the uncovered lines."""
import os, re, subprocess, sys, collections
B, N, props = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(",")
filt = sys.argv[4] if len(sys.argv) > 4 else None
exe = B + "/simpn"
hit = set(); base = 777000000
for p in props:
    ps = []
    for i in range(8):
        f = f"/tmp/cov.{p}.{i}"
        ps.append((f, subprocess.Popen([exe, "probe", p, str(base + i * (N // 8)), str(base + (i + 1) * (N // 8)), f + ".d"], env=dict(os.environ, SIMCOV=f), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for f, q in ps:
        q.wait(); hit |= {int(x, 16) for x in open(f)}; os.unlink(f); os.system("rm -rf '%s.d'" % f)
cache = B + "/sites.txt"
if not os.path.exists(cache) or os.path.getmtime(cache) < os.path.getmtime(exe):
    d = subprocess.run(f"objdump -d --no-show-raw-insn {exe} | grep -A1 'call.*<__sanitizer_cov_trace_pc>'", shell=True, stdout=subprocess.PIPE, text=True).stdout
    want = False; addrs = []
    for l in d.splitlines():
        if "__sanitizer_cov_trace_pc" in l: want = True; continue
        m = re.match(r"\s*([0-9a-f]+):", l)
        if want and m: addrs.append(m.group(1)); want = False
    o = subprocess.run(["addr2line", "-e", exe], input="\n".join(hex(int(a, 16) - 1) for a in addrs), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    open(cache, "w").write("\n".join(a + " " + l for a, l in zip(addrs, o)))
lines = collections.defaultdict(lambda: [0, 0])
for x in open(cache):
    a, l = x.split(" ", 1); l = l.split(" (disc")[0].strip()
    if "/repo/" not in l: continue
    f, n = l.rsplit(":", 1)
    if not n.isdigit(): continue
    k = (os.path.relpath(os.path.normpath(f), "/repo"), int(n)); lines[k][1] += 1; lines[k][0] += int(a, 16) in hit
per = collections.defaultdict(lambda: [0, 0])
for (f, n), (h, t) in lines.items(): per[f][1] += 1; per[f][0] += h > 0
for f in sorted(per):
    if filt is None or filt in f: print(f"{per[f][0]:5d}/{per[f][1]:5d} {f}")
if filt:
    for f in sorted({f for f, _ in lines if filt in f}):
        src = open("/repo/" + f).read().split("\n")
        print("==", f)
        for n in sorted(n for g, n in lines if g == f and lines[(g, n)][0] == 0): print(f"{n:5d} {src[n-1].strip()[:140]}")

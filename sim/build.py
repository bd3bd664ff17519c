#!/usr/bin/env python3
"""Generate build.ninja for one flavour of the simulated verifypn and build it.

usage: build.py OUTDIR FLAVOUR      FLAVOUR in {std, mt}
Compiles every .cpp in /repo/src (current working tree), bison/flex outputs regenerated
into OUTDIR, the stand-in ptrie / spot headers, and the simulator in /verif/sim.
"""
import os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

def main():
    out, flavour = os.path.abspath(sys.argv[1]), sys.argv[2]
    os.makedirs(out, exist_ok=True)
    srcs = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") and not f.endswith((".parser.cpp", ".lexer.cpp")):
                srcs.append(os.path.join(d, f))
    opt = "-O1"
    cxx = f"-std=c++17 {opt} -fno-pie -g1 -w -pipe -fno-strict-aliasing -DVERIFYPN_VERSION=\\\"4.4.2\\\" -I{out}/gen -I{HERE}/stubs -I{REPO}/include -I{REPO}/src/PetriEngine/PQL -I/usr/include/rapidxml"
    if flavour == "mt":
        cxx += " -DVERIFYPN_MC_Simplification -fsanitize=thread"
    if flavour == "cov":
        cxx = cxx.replace("-O1", "-O0") + " -fsanitize-coverage=trace-pc"
    simflags = f"-std=c++17 -O2 -fno-pie -g1 -Wall -pipe -I{HERE}"
    if flavour == "mt":
        simflags += " -DSIM_MT"
    if flavour == "cov":
        simflags += " -DSIM_COV"
    L = []
    w = L.append
    w("ninja_required_version = 1.5")
    w(f"cxxflags = {cxx}")
    w(f"simflags = {simflags}")
    w("rule cxx\n  command = g++ $cxxflags $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule simcxx\n  command = g++ $simflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w(f"rule bison\n  command = bison -d -o {out}/gen/PQLQueryParser.parser.cpp $in >/dev/null 2>&1 && mv -f {out}/gen/PQLQueryParser.parser.hpp {out}/gen/PQLQueryParser.parser.hpp")
    w("rule flex\n  command = flex -o $out $in")
    w("rule link\n  command = g++ -o $out @$out.rsp $ldflags\n  rspfile = $out.rsp\n  rspfile_content = $in")
    L[-3] = f"rule bison\n  command = bison -d -o {out}/gen/PQLQueryParser.parser.cpp $in >/dev/null 2>&1"
    os.makedirs(out + "/gen", exist_ok=True)
    pql = f"{REPO}/src/PetriEngine/PQL"
    w(f"build {out}/gen/PQLQueryParser.parser.cpp {out}/gen/PQLQueryParser.parser.hpp: bison {pql}/PQLQueryParser.y")
    w(f"build {out}/gen/PQLQueryTokens.lexer.cpp: flex {pql}/PQLQueryTokens.l")
    objs = []
    for s in srcs + [f"{out}/gen/PQLQueryParser.parser.cpp", f"{out}/gen/PQLQueryTokens.lexer.cpp"]:
        rel = os.path.relpath(s, REPO if s.startswith(REPO + "/") else out).replace("/", "_")
        o = f"{out}/obj/{rel}.o"
        w(f"build {o}: cxx {s} || {out}/gen/PQLQueryParser.parser.hpp")
        if s.endswith("/src/main.cpp"):
            w("  extra = -Dmain=verifypn_main")
        objs.append(o)
    simsrcs = sorted(f for f in os.listdir(HERE) if f.endswith(".cpp"))
    for f in simsrcs:
        o = f"{out}/obj/sim_{f}.o"
        w(f"build {o}: simcxx {HERE}/{f}")
        objs.append(o)
    ld = open(f"{HERE}/ldflags." + flavour.replace("cov", "std").replace("mt", "std")).read().strip()
    w(f"ldflags = {ld}")
    w(f"build {out}/simpn: link {' '.join(objs)}")
    w(f"default {out}/simpn")
    new = "\n".join(L) + "\n"
    p = f"{out}/build.ninja"
    if not os.path.exists(p) or open(p).read() != new:
        open(p, "w").write(new)
    r = subprocess.run(["ninja", "-C", out, "-f", p] + sys.argv[3:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-30000:])
    return r.returncode
sys.exit(main())

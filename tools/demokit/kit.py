#!/usr/bin/env python3
"""kit.py OUTDIR: plain (unsimulated) build of verifypn from ./ (a verifypn tree) with the stand-in headers beside this file."""
import os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.getcwd(); out = os.path.abspath(sys.argv[1])
os.makedirs(out + "/gen", exist_ok=True)
pql = REPO + "/src/PetriEngine/PQL"
cxx = f"-std=c++17 -O0 -w -pipe -DVERIFYPN_VERSION=\\\"4\\\" -I{out}/gen -I{HERE}/stubs -I{REPO}/include -I{pql} -I/usr/include/rapidxml"
L = [f"rule cxx\n command = g++ {cxx} -c $in -o $out", "rule bison\n command = bison -d -o $out $in >/dev/null 2>&1", "rule flex\n command = flex -o $out $in",
     "rule link\n command = g++ -o $out @$out.rsp -lglpk -lpthread\n rspfile = $out.rsp\n rspfile_content = $in",
     f"build {out}/gen/PQLQueryParser.parser.cpp | {out}/gen/PQLQueryParser.parser.hpp: bison {pql}/PQLQueryParser.y", f"build {out}/gen/PQLQueryTokens.lexer.cpp: flex {pql}/PQLQueryTokens.l"]
srcs = []
for d, _, fs in os.walk(REPO + "/src"):
    srcs += [os.path.join(d, f) for f in fs if f.endswith(".cpp") and not f.endswith((".parser.cpp", ".lexer.cpp"))]
srcs = sorted(srcs) + [out + "/gen/PQLQueryParser.parser.cpp", out + "/gen/PQLQueryTokens.lexer.cpp"]
objs = []
for s in srcs:
    o = out + "/o/" + s.strip("/").replace("/", "_") + ".o"; objs.append(o); L.append(f"build {o}: cxx {s} || {out}/gen/PQLQueryParser.parser.hpp")
L.append(f"build {out}/verifypn: link {' '.join(objs)}")
open(out + "/build.ninja", "w").write("\n".join(L) + "\n")
r = subprocess.run(["ninja", "-C", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode: sys.stdout.write(r.stdout[-3000:])
sys.exit(r.returncode)

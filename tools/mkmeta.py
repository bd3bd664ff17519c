#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (both are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search, explicit-state reference as oracle"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claimed=True, reason=None, level="exploration", note="", technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claimed=claimed, reason=reason, level=level, note=note, technique=technique))
ENV = "environment = clock (start, rate, jumps forwards and backwards), random stream, heap layout and leftover memory contents, outcome of every linear-programming call"
NOTE = ("Seeded sampling, not exhaustive: nothing is proved beyond the cases run. Trusts our own explicit-state semantics and the stand-ins for ptrie and spot; "
        "all of /repo/src is the real code, rebuilt from the working tree.")
TESTS = "The tests that run here cover a handful of hand-written nets and parser inputs, each with one fixed option set, in one environment."

prop("V01", "Reachability and invariant verdicts are correct in every environment",
     "For every bounded net and every reachability, invariant, deadlock or firability query over it, each verdict printed is the truth of that query in the net's reachable markings, and every query of the run gets exactly one verdict. This holds for every search order, random stream, sequence of clock readings and outcome of the linear-programming solver.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all bounded P/T nets with weighted and inhibitor arcs x EF/AG queries x search strategies x environments; " + ENV,
     TESTS + " They cannot range over search orders and time-outs.",
     ["src/VerifyPN.cpp", "src/PetriEngine/Reachability/ReachabilitySearch.cpp", "src/PetriEngine/Reachability/ResultPrinter.cpp", "src/PetriEngine/Stubborn", "src/PetriEngine/SuccessorGenerator.cpp", "src/PetriEngine/Structures/Queue.cpp"],
     [("state-space search", "PetriEngine/Reachability/ReachabilitySearch.h tryReach"), ("partial-order reduction", "PetriEngine/Stubborn/ReachabilityStubbornSet.cpp"), ("search order", "PetriEngine/Structures/Queue.cpp, PotencyQueue.cpp")],
     note=NOTE)
prop("V02", "CTL verdicts are correct in every environment",
     "For every bounded net and every CTL query over it, each verdict printed is the truth of the query at the initial marking under the maximal-path semantics, and every query gets exactly one verdict. This holds for both fixed-point algorithms, every search order, random stream, sequence of clock readings and solver outcome.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all bounded P/T nets x nested CTL x algorithms, strategies, simplification and reduction settings x environments; " + ENV,
     TESTS + " No test reaches nested path quantifiers under a time-out.",
     ["src/CTL", "src/PetriEngine/PQL/PushNegation.cpp", "src/PetriEngine/PQL/Simplifier.cpp", "src/VerifyPN.cpp"],
     [("dependency-graph fixed points", "CTL/Algorithm"), ("on-the-fly graph", "CTL/PetriNets/OnTheFlyDG.cpp"), ("negation normal form", "PetriEngine/PQL/PushNegation.cpp")],
     note=NOTE)
prop("V03", "LTL verdicts are correct in every environment",
     "For every bounded net and every LTL query over it, each verdict printed is the truth of the query over the maximal runs of the net, and every query gets exactly one verdict. This holds for both emptiness checks, every offered partial-order reduction and heuristic, every random stream, sequence of clock readings and solver outcome.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all bounded P/T nets x A/E path formulae x algorithms, partial-order reductions, heuristics x environments; " + ENV,
     TESTS + " LTL model checking is not built or exercised by the tests that run here at all.",
     ["src/LTL", "include/LTL", "src/VerifyPN.cpp"],
     [("emptiness check", "LTL/Algorithm/NestedDepthFirstSearch.cpp, TarjanModelChecker.cpp"), ("LTL stubborn sets", "LTL/Stubborn"), ("query to automaton", "LTL/LTLToBuchi.cpp")],
     note=NOTE + " The documented reduction `classic` is outside the search: it has a recorded known finding.")
prop("V05", "Structural net reductions preserve every answer",
     "For every bounded net and query batch, verifying after any selection, order and time limit of structural reductions gives the verdicts of the unreduced net. This holds wherever the reduction time limit happens to cut the sequence of rule applications.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all bounded nets x query batches of every logic x reduction rule sequences (the documented unproved rule excluded) x points at which the limit expires; " + ENV,
     TESTS + " The points at which the time limit cuts the reduction are never varied.",
     ["src/PetriEngine/Reducer.cpp", "include/PetriEngine/Reducer.h", "src/PetriEngine/PetriNetBuilder.cpp", "src/VerifyPN.cpp"],
     [("reduction rules", "PetriEngine/Reducer.cpp ReducebyRule*"), ("rule scheduling and time limit", "PetriEngine/Reducer.cpp Reduce")],
     note=NOTE)
exec(open(os.path.join(HERE, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more_props.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
M = {"version": 1, "setup_cmd": "python3 sim/build.py build/std std",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["claimed"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
     "notes": "No hooks in /repo: every seam is taken at link time (clock, random, allocator, file and standard streams, solver calls) or by stand-in headers for the two libraries missing from the sandbox. Replay a violation with: build/std/simpn replay FILE DIR"}
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

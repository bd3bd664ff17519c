"""Per-property settings of the checks (search time per tier, evidence wording)."""
R_VERIFY = ("one case = one generated net, a batch of queries, an option list and an environment (clock start/step/jumps, random stream, heap layout and "
            "garbage, solver failures), all from one seed; the reported verdicts are compared with an explicit-state reference of our own. "
            "Counted: distinct hashes of the complete event log (seam events, decisions, output); cases whose reference graph has one marking only are counted apart.")
A_STD = ["nets are bounded and small enough for the explicit reference (at most a few thousand markings)",
         "stand-ins for ptrie and spot behave like the libraries they replace",
         "the reference semantics (our own code) is right"]
SPEC = {
    "V01": {"rule": R_VERIFY, "assumptions": A_STD},
    "V02": {"rule": R_VERIFY, "assumptions": A_STD},
    "V03": {"rule": R_VERIFY, "assumptions": A_STD + ["partial-order reduction `classic` is excluded from the search (known finding)"]},
    "V04": {"rule": R_VERIFY, "assumptions": A_STD},
    "V06": {"rule": R_VERIFY + " Every printed trace is replayed on the generated net by our own code and the run it describes is evaluated against the query; part of the cases hand it to a second simulated process (--trace-replay).", "assumptions": A_STD},
    "V07": {"rule": R_VERIFY, "assumptions": A_STD},
    "V11": {"rule": R_VERIFY + " Runs of the refinement engine are interrupted after a drawn number of steps.", "assumptions": A_STD + ["missing answers are allowed"]},
    "V08": {"rule": R_VERIFY + " The net is a coloured (symmetric) net; the reference unfolds it by our own code, binding by binding, and the verdicts are those of the unfolded net.",
            "assumptions": A_STD + ["sorts have at most a few colours, transitions at most a few variables"]},
    "V09": {"rule": R_VERIFY + " The net is a coloured net and the run uses the explicit coloured engine; the reference unfolds the net by our own code, and printed traces are played on that unfolding binding by binding.",
            "assumptions": A_STD + ["sorts have at most a few colours, transitions at most a few variables"]},
    "V12": {"rule": R_VERIFY + " Control queries are solved by our own attractor computation on the reference state space; a written strategy is played against every environment move.",
            "assumptions": A_STD + ["strategies are checked for single uncoloured queries"]},
    "V05": {"rule": R_VERIFY, "assumptions": A_STD},
    "V13": {"rule": R_VERIFY + " Two simulated processes: the first writes a reduced, unfolded or simplified net and query file under write and open errors, short writes and crashes; the second reads them and answers. Verdicts of both are compared with the reference of the original net.",
            "assumptions": A_STD + ["a crash loses whatever the process had not yet passed to write()"]},
    "V15": {"flavour": "mt", "rule": R_VERIFY + " Query simplification runs in two to five threads; a seeded scheduler passes one baton between them and may preempt at every memory access of the instrumented code, allocation, lock, thread start and end.",
            "assumptions": A_STD + ["memory accesses are sequentially consistent", "code inside GLPK is preempted at allocations only"],
            "real": "all of /repo/src built with VERIFYPN_MC_Simplification and memory-access call-backs, GLPK, libstdc++; threads are real threads of which one runs at a time",
            "stubs": "ptrie, spot/bddx; pthread_create/join/mutex, static-initialisation guards, clock, random, allocator, file I/O and solver results are the simulator's seams"},
    "V16": {"rule": R_VERIFY + " Each case first runs with enough memory, then six times with one drawn allocation failing (once, or with all later ones); drawn mostly in the phase in which linear programs are solved.",
            "assumptions": A_STD + ["a failed run may end by an error or a signal"]},
    "V17": {"rule": R_VERIFY + " The model or query file is cut short at a drawn point, or reads fail, return few bytes or are interrupted at drawn points.",
            "assumptions": A_STD},
    "V10": {"rule": "one case = one generated coloured net and one session: markings set and transitions fired by a simulated client over stdin and stdout, requests delivered in pieces of drawn size, ended by EXIT, by the client going away (between or within requests) or by a request that cannot be served. Every reply is compared with our own unfolding of the net. Counted: distinct hashes of the complete event log.",
            "assumptions": ["stand-in for ptrie behaves like the library it replaces", "the reference semantics (our own code) is right", "the client is deterministic and follows the published request format"]},
}

# Seeds a quick check goes through at most (its time limit may end it sooner): the same finite list of executions on every machine.
QUICK_CASES = {"V01": 50000, "V02": 16000, "V03": 16000, "V04": 50000, "V05": 100000, "V06": 45000, "V07": 60000, "V08": 40000, "V09": 50000,
               "V10": 60000, "V11": 75000, "V12": 130000, "V13": 25000, "V15": 22000, "V16": 11000, "V17": 40000}

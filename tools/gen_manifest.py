#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
TECH = {
 "pybind": "explicit-state exploration of all bounded sequences of attribute assignments, contact operations and operations on objects that refer to each other (with their destruction), all 8192 selections and the requests around every (function, constraint set) base, each executed through the Python module built from /repo and compared with the C++ library called directly and with a model of the attributes",
 "threads": "stateless exploration of the real code by two controlled threads: all interleavings of the conflicting memory accesses, lock operations and library calls of every pair of planning calls with at most two preemptions, each outcome compared bit for bit with the calls run alone",
 "memory": "explicit-state exploration of the sizes of requests through every entry point, all problem shapes and all bounded reuse sequences of the solver, each executed on the real library under address and undefined-behaviour monitors and, for uninitialised memory, under every chosen content of the allocator and the stack",
 "endeff": "explicit-state exploration of end effector requests around every (free points, weight) base, each executed on the real library and decided against a reference model",
 "algebra": "exhaustive enumeration, for all ten constraint sets, of a grid of boundary values, durations, gravity vectors and times that determines every coefficient of the symbolic expressions, compared with a reference model of the curve",
 "zerostep": "explicit-state exploration of the zero-step capturability requests around every base (two formulations x contact sets), each executed on the real library and decided against a reference model",
 "solver": "exhaustive enumeration of every QP and LP of bounded size over finite coefficient alphabets, each solved by the real solvers and decided by exact enumeration of all active sets; plus all reuse histories of one solver object",
 "reject": "exhaustive enumeration of all 8192 constraint selections (C15: all pairs of them), objective codes, solver codes and phase counts through every entry point that depends on them",
 "timegrid": "exhaustive enumeration of all sequences of phase durations up to a bounded length over a finite alphabet, with all steps and numbers of points, every instant of every grid judged",
 "history": "explicit-state exploration of all bounded sequences of planning calls, in-place edits, copies, assignments and discards, each history executed on the real library in its own process and compared bit for bit with the same request executed alone",
 "comtraj": "explicit-state exploration of the planning requests around every formulation x constraint-set base, each executed on the real library and decided against a reference model",
}
TRUST = ("Exhaustive within the stated alphabet and edit depth; says nothing about values outside it. Trusted: the reference mathematics in mc/ref.hpp, "
         "the contact cones delivered by hpp-centroidal-dynamics, the curves of ndcurves, numerical tolerances stated in DESIGN.md.")
checks, na = [], []
for i in ids:
    if i in run.PROPS:
        c = run.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick",
                           thorough_cmd=f"python3 run.py {i} --tier thorough",
                           technique=c.get("technique", TECH.get(c["parts"][0][1].split(".")[0], "")),
                           level="model_checking", level_note=c.get("note", TRUST)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo. Every check builds the library from /repo's working tree into /verif/build (ignored by git) and explores it; see DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

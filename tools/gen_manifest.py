#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONC = "stateless exploration of all thread interleavings of the real code (controlled scheduler, happens-before reduction)"
SEQ = "exhaustive enumeration of operation histories of the real code in lockstep with a reference model"
INP = "exhaustive enumeration of bounded input and state spaces on the real code against an independent model"
PRG = "exhaustive enumeration of programs in a bounded grammar, compiled and executed"
CFG = "exhaustive enumeration of histories and inputs in every feature configuration, compared trace by trace"
T = {}
for i in "C30 C31 C32 C33 C34 C35 C36 C37".split():
    T[i] = (CONC, "Every interleaving of the listed small programs within the stated bounds is executed on the code of craballoc itself. Trusted: the scheduler and its shims of std::sync and async-channel, which are compared with the originals on serial traces in every run.")
for i in "C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C21 C22 C23 C25 C26 C27".split():
    T[i] = (SEQ, "Every history over the listed alphabets up to the stated depth is executed on the code itself. Trusted: the reference model and the simulated wgpu. Longer histories and bigger alphabets are not covered.")
for i in "C01 C02 C03 C04 C05 C06 C09 C20".split():
    T[i] = (INP, "Every case of the stated finite domain is executed on the code itself. Trusted: the reference model. Values outside of the boundary domains are not covered.")
for i in "C07 C08".split():
    T[i] = (PRG, "Every definition of the stated grammar is compiled with the derive macro of the tree and executed. Trusted: the independent layout calculation.")
T["C24"] = (CFG, "Every feature configuration is built; all histories and inputs of the stated bounds give the same digest of outcomes in each.")
import sys
sys.path.insert(0, V)
import check
have = check.CONC | check.SEQ | (check.INPUTS if "inputs" in check.DIRECT else set()) | set(getattr(check, "EXTRA", ()))
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
    notes="One driver, check.py, builds the harness of a property from /repo's working tree and runs it. No hooks in /repo are needed: the harnesses use its public API, and the interleaving engine replaces std and async-channel underneath it at build time.")
for p in sorted(T):
    if p in have:
        m["checks"].append(dict(property=p, quick_cmd=f"./check.py {p} quick", thorough_cmd=f"./check.py {p} thorough", evidence_file=f"evidence/{p}.json", technique=T[p][0], level="model_checking", level_note=T[p][1]))
    else:
        m["not_applicable"].append(dict(property=p, reason="the check is not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

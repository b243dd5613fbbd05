"""Writes MANIFEST.json (development helper)."""
import json
import os

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CBMC = ("contract-based deductive verification of the real C code: function contracts (and lemmas over them) "
        "discharged by CBMC 6.11 (goto-instrument --dfcc where it scales, generated contract wrappers otherwise)")
NOTE = ("every obligation generated from the current sources for all inputs; environment (allocation, system calls) "
        "replaced by the models of include/vp*.h; bounded parts and assumptions are listed in the evidence and DESIGN.md")
CLAIMED = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P14 P25 P26 P28".split()
BOUNDED = {}
TODO = "no contract has been written for it: not decided here (the family applies in principle: %s)"
NA = {
    "P13": TODO % "same harness as P12, with recorded typed reads",
    "P15": TODO % "two defects of the dump were found by reading and repaired",
    "P16": TODO % "one defect was found by reading and repaired",
    "P17": TODO % "contracts of the connection over a model of sendmsg",
    "P18": TODO % "contracts of the connection over a model of sendmsg",
    "P19": TODO % "contracts of the connection over a model of recvmsg",
    "P20": "a history of many asynchronous steps of several objects (context, connections, loop): the invariant of the "
           "whole context was not reached with the memory model of CBMC",
    "P21": "a history of timer expirations and connection attempts; liveness over a real clock is not expressible in "
           "these contracts",
    "P22": "harness/loop.c states the clauses, but the list based registration table over a model of epoll was not "
           "discharged by the solver within the time of a check",
    "P23": "harness/loop.c states the clauses; the SAT formula of a dispatch round is not solved within the time of a check",
    "P24": "harness/loop.c states the clauses; the queue of idle entries is not solved within the time of a check",
    "P27": "needs two implementations, one of them in Python: no contract verifier for Python is installed and the "
           "property is not about one call of the C code (the C side of the format is covered by P01 and P02)",
}

if __name__ == "__main__":
    props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
         "notes": "See DESIGN.md. ./check PXX decides a property, ./check PXX --replay FILE runs a replay file again."}
    for p in props:
        if p in CLAIMED:
            m["checks"].append({"property": p, "quick_cmd": "./check %s" % p,
                                "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
                                "technique": CBMC, "level": "proof",
                                "level_note": NOTE + BOUNDED.get(p, "")})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "no contract written yet")})
    with open(os.path.join(D, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

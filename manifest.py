#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and check.py's PROPS."""
import json, os
import check
TECH = {
 "C01": "runtime oracle: every node and weight of the running code against double-double recurrences",
 "C02": "runtime oracle: nodes and weights against double-double recurrences",
 "C03": "runtime oracle: nodes and weights against double-double recurrences",
 "C04": "runtime oracle: nodes and weights against double-double recurrences",
 "C05": "runtime oracle: nodes and weights against closed forms",
 "C06": "runtime monitor: integrals of random orthogonal-polynomial products against exact values",
 "C07": "runtime monitor: recorded integrand calls and results against the affine functional",
 "C08": "runtime monitor: recorded integrand calls and results of composite rules, histories of degree changes",
 "C09": "runtime monitor: recorded integrand calls, injected NaN/inf/panics, histories on one rule",
 "C10": "schedule perturbation with recorded parallel integrand calls, multiset oracle",
 "C11": "AddressSanitizer, ThreadSanitizer, Miri, and exit status of child processes under a shared-rule workload",
 "C12": "runtime oracle: model-based histories of operations on bit-pattern pools",
 "C13": "runtime monitor: random iterator histories against a deque model",
 "C14": "runtime monitor: structural invariants of every constructed rule, CPU budget and exit status of children",
 "C15": "runtime monitor: round trips and corrupted inputs through serde, rkyv and zerocopy",
 "C16": "runtime oracle: metamorphic relations between rules",
 "C17": "offline comparison of result logs recorded in each build configuration",
 "C18": "counting allocator and instruction counts of executions",
 "C19": "runtime oracle: errors of integrals against the bounds of the theory",
 "C20": "runtime monitor: histories of value operations against a model",
 "C21": "runtime monitor: recorded nested integrand calls against tensor sums",
 "C22": "freestanding execution under strict seccomp with a guarded arena, compared with the hosted execution",
}
NOTE = "Decides only the executions counted in the evidence file; breadth comes from random and boundary workloads, not from enumeration."
NA = {}
EXTRA = {}
def main():
    here = os.path.dirname(os.path.abspath(__file__))
    ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    checks = [dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                   technique=TECH[i], level="exploration", level_note=EXTRA.get(i, NOTE)) for i in ids if i in check.PROPS]
    na = [dict(property=i, reason=NA.get(i, "No check yet.")) for i in ids if i not in check.PROPS]
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()

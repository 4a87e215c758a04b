#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from plan import PLAN
TECH = ("runtime monitoring: the real library, built from /repo with ASan+UBSan and a tracking/faulting allocator, "
        "runs generated workloads while %s")
HOW = {
 "C01": "sanitizers, an ownership-checking allocator and a CPU/memory watchdog observe every call",
 "C02": "the registered allocator and renamed libc resource calls record every acquisition and release (leak, double, foreign release)",
 "C03": "every operation is re-run with injected allocation failures and its result and side effects are compared with a model",
 "C04": "an online reference parser decides every verdict",
 "C05": "an online reference parser and tree walker decide every tree",
 "C06": "an online reference completer decides every proposal set",
 "C07": "an online checker of the completion container and of recorded parse states inspects every list",
 "C08": "histories of queries are compared with recorded answers and fingerprints of the grammar taken before and after",
 "C09": "an online reference tokeniser decides every split and quoting round trip",
 "C10": "an online matcher built on an independent regex evaluation decides every match and token",
 "C11": "an online wide-integer reference decides every conversion and range verdict",
 "C12": "a model of the string vector is compared with it after every call of random histories",
 "C13": "a model map is compared with the table after every call of random histories",
 "C14": "a model value tree is compared with the configuration after every call of random histories",
 "C15": "behaviour, children and configuration are compared before and after every accepted or refused configuration",
 "C16": "a reference-ownership model predicts which nodes are alive and traced destructors are compared with it",
 "C17": "traced evaluation callbacks are compared with a reference evaluator of the precedence rules",
 "C18": "a reference parser of the command expression language predicts the grammar, whose verdicts and trees are compared",
 "C19": "a reference evaluator of conditions over the recorded parse decides every verdict",
 "C20": "traced builder callbacks, and the same request on the built node, decide every answer; node lifetimes are traced",
 "C21": "proposals are compared with what a scratch directory really contains, with failing directory calls injected",
 "C22": "imported grammars are compared with the same grammar built through the API; mutated documents must be refused cleanly",
 "C23": "helpers driven over scripted terminals are compared with the completion engine's own answers and a line-editor model",
 "C24": "traced start/stop functions, log sinks and registrations of random histories are compared with a model, one process per history",
 "C26": "application-defined types written against the public API trace every callback they receive; the reference parser and completer decide every result",
 "C28": "the tool and a shell using the helpers are run on generated descriptions and lines; what the shell prints is compared with the library's tree and candidates",
 "C27": "each helper is compared with a direct transcription of its definition on tightly allocated buffers",
 "C29": "errno is cleared before and read after every refused or failing call, on random objects, refused documents and injected faults",
 "C30": "children lists, lookups, types and dump texts are compared with the grammar that was asked for and with the trees and lists read through the accessors",
 "C25": "a model vector with traced element callbacks is compared after every call of random histories",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH % HOW.get(i, "an online checker compares every observable step with an executable model"),
        "level": PLAN[i]["level"],
        "level_note": PLAN[i].get("note") or "sampled executions under sanitizers and online oracles; seeded, reproducible, no exhaustiveness claim",
    })
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: instrumentation is applied at build time (sanitizers, objcopy symbol renaming, ec_malloc_register)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Every check builds the instrumented library from /repo's working tree into a private temporary directory."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
TRUST = (" Trusted: TLC, the TLA+ modules as the statement of the property, the executor's recording (it only calls "
         "public API and encodes what it gets), cargo/rustc.")
T = "TLA+ specification model checked with TLC; TLC validates traces recorded from the real code, "
CHECKS = {
    "C01": (T + "cases enumerated by TLC and generated",
            "Exhaustive for the specification's algorithm on small sequences; the code's change lists are judged by the "
            "declarative definition IsEditScript on enumerated and generated pairs, not by comparison with the algorithm."),
    "C02": (T + "longest common run queried directly",
            "Real results of the common run search, on whole and partial ranges, are judged by the declarative definition."),
    "C03": (T + "clumps compared with their definition",
            "Clumps of real change lists for contexts 0 to 255 are compared with the declarative definition of clumps."),
    "C04": (T + "round trips through real files",
            "The apply machine replays the recorded clumps; output, counts and queries have to be the other file, all clean."),
    "C05": (T + "round trips through real files",
            "The byte apply machine replays the recorded clumps; output, counts and queries have to be the other file."),
    "C06": (T + "nondeterministic machine of all legal applications",
            "Each recorded output must be reachable in a machine that allows any legal placement; panics and runs that do "
            "not complete are violations."),
    "C07": (T + "one run per clump prefix against the placement machine",
            "The placement policy machine decides place and reduction for every clump; outputs must agree."),
    "C08": (T + "one run per clump prefix and the whole-diff query",
            "The placement policy machine decides which clumps are already applied; outputs and answers must agree."),
    "C09": (T + "one run per clump prefix against the conflict action",
            "Conflict blocks and all five counts must agree with the machine after every clump."),
    "C10": (T + "one run per clump prefix against the byte machine",
            "Outputs, counts and query of byte application must agree with the machine after every clump."),
    "C11": (T + "delivery in pieces, interruptions and failures injected",
            "The reader machine with a UTF-8 automaton gives the lines or the error; all pieces of a record are replayed."),
    "C12": (T + "histories enumerated by TLC replayed into the real code",
            "All histories of the design module are replayed; state after each operation must agree."),
    "C13": (T + "failing, short and interrupted writers injected",
            "Every call the writer got is replayed as an action; success may only be reported after all bytes."),
    "C14": (T + "documents stored, loaded, damaged",
            "The loaded diff must agree in every accessor and behaviour with the original; documents that the "
            "specification does not accept must be refused."),
    "C15": (T + "all combinations of kinds of files",
            "The kind decided by the specification (UTF-8 automaton) and the whole content must agree."),
    "C16": (T + "histories of the real programs, a snapshot of the scratch directory after every step",
            "Each step of a history is an action of the file system specification."),
    "C17": (T + "a kill before and after every file operation and a failure of every file operation injected",
            "Each injected crash or fault is explained by an action of the file system specification."),
    "C18": (T + "structured and mutated clumps parsed",
            "The parser machine consumes the same lines; fields, errors and lines consumed must agree."),
    "C19": (T + "emitted clumps parsed by the specification, by the real parser and applied",
            "Emitted text must be what the specification says; parse and apply must round trip."),
    "C20": (T + "header lines recognised character by character",
            "The recogniser in the specification gives path and time stamp; the real functions must agree."),
    "C21": (T + "reverse against exchanged diffs and coordinates",
            "Every query asked in reverse must be what the other side reports; reverse application must be application "
            "of the exchanged diff."),
    "C22": (T + "the same questions asked by several threads of several processes",
            "Answers given before are kept as state; no answer to the same question may differ from it."),
    "C23": (T + "two or three real programs stopped at chosen file operations and interleaved",
            "Each recorded schedule must be explained by atomic steps of the runs, each taken while that run was going on; "
            "the design model, one file operation at a time, refines those atomic steps."),
    "C24": (T + "distorted and invented documents loaded and applied",
            "Each recorded result must be reachable in a machine that allows any legal application of the clumps loaded; "
            "panics and runs that do not complete are violations."),
}


def main():
    import sys
    sys.path.insert(0, V)
    src = open(f"{V}/check.py").read()
    have = [p for p in CHECKS if f'"{p}"' in src]
    checks = [{
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": CHECKS[p][0],
        "level": "model_checking",
        "level_note": CHECKS[p][1] + " Exhaustive only within the bounds given in the evidence." + TRUST,
    } for p in have]
    m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks,
         "not_applicable": [{"property": p, "reason": "check not built yet"} for p in CHECKS if p not in have],
         "notes": "No hooks in /repo: everything is observed through the public API and the programs. "
                  "Known and fixed findings: known-findings.txt."}
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)


main()

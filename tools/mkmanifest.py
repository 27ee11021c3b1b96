"""Writes MANIFEST.json (run by hand)."""
import importlib, json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ".")
NOTE = {
 "C01": "Seeded exploration of schedules and inputs; the reference is each member run alone on a newly imported package. Trusts the simulated executor to behave as concurrent.futures does.",
 "C02": "Seeded fault sequences (member errors at any line, worker death, hand-over failures, out of memory) over simulated schedules. Trusts the simulated executor.",
 "C03": "Seeded schedules, durations, failures and time limits on the job runner against its definition. Trusts the simulated executor.",
 "C04": "Seeded histories of runs on instances against new instances, which is a relation: an error common to new and reused instances is not seen.",
 "C05": "Interruptions at sampled lines of the package (first, last and middle visits), inside library calls only at the file layer.",
 "C06": "Seeded interleavings of real threads at line granularity of the package and at file operations; switches inside one line or inside library code are not explored.",
 "C07": "Bit for bit comparison of everything the caller handed in, at sampled lines during runs, after success, errors and interruptions.",
 "C08": "Seeded write, open and close errors, short writes and crashes of the simulated lowest io layer; files compared with the results of a reference run.",
 "C09": "Seeded save and load histories with write errors, torn writes and crashes; loading compared with what was saved.",
 "C10": "Seeded and extreme outcomes of the random generators; structural definition of the ensemble.",
 "C11": "Seeded open and read errors, split reads, missing, empty, cut and later changed files; results compared with those from complete files.",
 "C12": "Same jobs under two seeded sets of circumstances, one in a new interpreter with another hash seed.",
}
NOTE["C13"] = "Seeded operations with failures and interruptions; the settings and resources looked at are those listed in cscmsim/procstate.py."
NOTE["C14"] = "Seeded histories of copies between simulated processes, each run against a new instance."
NOTE["C16"] = "Seeded interleavings of years of several models in two simulated processes, copies, crashes and restarts from saved states against single models alone."
NOTE["C15"] = "Seeded histories of calls on carbon cycle models against new models, interruptions at lines of the package."
NA = {
 "C20": "numerical identity of a single-threaded calculation: no schedule, fault, clock or history it depends on, only input values; simulation adds nothing over evaluating it",
 "C21": "arithmetic identity within a single-threaded calculation: depends on input values only",
 "C22": "causality of a single-threaded calculation in its inputs: no nondeterminism, fault or history to simulate",
 "C23": "arithmetic of a single-threaded calculation: depends on parameter values only",
 "C24": "accuracy of a numerical inversion: depends on input values only",
}
checks = []
for i in range(1, 17):
    pid = "C%02d" % i
    m = importlib.import_module("cscmsim.props." + pid.lower())
    checks.append({"property": pid, "quick_cmd": "./check.py %s --tier quick" % pid,
                   "thorough_cmd": "./check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": "deterministic simulation with fault injection (seeded search, replayable)",
                   "level": m.LEVEL, "level_note": NOTE[pid]})
man = {"version": 1, "setup_cmd": "./check.py C03 --tier quick --runs 8",
       "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "No hooks in /repo: the seams are the import system, concurrent.futures, the clock, io.FileIO, trace functions and the random module. Fixed defects are listed in known-findings.txt."}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")

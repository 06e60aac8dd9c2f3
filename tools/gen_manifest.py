#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
EN = "bounded-exhaustive enumeration on the real code against "
T = {
 "C01": (EN + "an independent tiling model", "all texts to a length bound over class representatives x all grammars, both builds"),
 "C02": (EN + "the Unicode property tables", "every scalar value in context and all texts to a length bound, both builds"),
 "C03": ("explicit-state exploration of all request histories on the real registry against a map model", "all histories to a depth bound"),
 "C04": ("stateless model checking of the real source under a controlled scheduler (all schedules to a preemption bound)", "std::sync replaced at build time by scheduling points; every schedule of 2-3 threads"),
 "C05": (EN + "the totality requirement, under a crash and hang monitor", "all token strings to a length bound x value sets, cached and uncached"),
 "C06": (EN + "a reference parser and evaluator", "all strings of the bounded grammar fragment"),
 "C07": (EN + "a reference evaluator", "all placeholder patterns x all value assignments of the bounded sets"),
 "C08": (EN + "a reference parser of the documented grammar", "all token strings to a length bound"),
 "C09": (EN + "a reference evaluator with CLDR plural rules", "all selector sets x numbers x languages of the bound"),
 "C10": (EN + "a reference evaluator", "all branch texts to a length bound x nestings, cached histories included"),
 "C11": (EN + "ICU4X FixedDecimalFormatter called directly", "all values x options x languages of the bound"),
 "C12": (EN + "ICU4X date-time formatter called directly", "all lengths x calendars x option orders x languages of the bound"),
 "C13": (EN + "an independent ISO 8601 reader", "all documented forms x all field values of the bound"),
 "C14": (EN + "a reference evaluator and a recording command", "all parameter lists to a length bound x delay x values"),
 "C15": ("explicit-state exploration of all histories on the real command registry against a map model", "all histories to a depth bound"),
 "C16": (EN + "a reference evaluator", "all placements of strings over related tags x requested tags x settings"),
 "C17": ("explicit-state exploration of all request histories on the real localiser against a fresh uncached localiser", "all histories to a depth bound"),
 "C18": ("explicit-state exploration of all histories of default changes on the real localiser against a state model", "all histories to a depth bound"),
 "C19": (EN + "a lookup model", "all placements x default languages x requests x fallback settings"),
 "C20": (EN + "a bottom-up reference evaluation", "all data trees to a depth bound"),
 "C21": (EN + "ICU likely subtags and a script table, and all default change histories", "all languages x scripts x regions of the bound"),
 "C22": (EN + "the carried details", "every error value constructible x every shipped language"),
 "C23": (EN + "a whole-subtag lookup model", "all subsets of a tag family x placements over the two files x requests"),
 "C24": (EN + "a whole-subtag lookup model", "all subsets of a tag family x placements over the two files x requests"),
 "C25": (EN + "a map model", "all subsets of a tag family x placements over the two files x requests"),
 "C26": (EN + "counts computed from the generated content", "all bounded repository contents"),
 "C27": (EN + "a model of the generated content", "all bounded repository contents"),
 "C28": (EN + "a directory model", "all bounded directory contents"),
 "C29": ("exhaustive fault enumeration over the database schema on the real verifier", "all single and paired schema mutations"),
 "C30": ("exploration of all operation histories on the real provider with a byte-exact directory monitor", "all histories to a depth bound x placements"),
 "C31": ("explicit-state exploration of all request histories on the real provider against a fresh provider", "all histories to a depth bound"),
 "C32": ("stateless model checking of the real source under a controlled scheduler (all schedules to a preemption bound)", "std::sync replaced at build time by scheduling points; every schedule of 2-3 threads"),
 "C33": ("outcome comparison of both builds over the exhaustively enumerated spaces of the other properties", "line by line comparison of all outcomes"),
 "C34": (EN + "the documented results", "every scalar value as first character, all parameter lists to a length bound"),
 "C36": (EN + "ICU4X called directly with the full locale, and outcome comparison with the ordinary build", "all extension sequences to a length bound; line by line comparison of all outcomes"),
 "C37": (EN + "a reference parser run on every prefix of the string", "all token strings to a length bound in all contexts of the grammar"),
 "C38": ("explicit-state exploration of all histories of re-entrant requests on the real localiser against a recursive model", "all sequences of actions to a depth bound x caching histories, both builds"),
 "C39": ("stateless model checking of the real source under a controlled scheduler (all schedules to a preemption bound)", "std::sync and RefCell replaced at build time by scheduling points; every schedule of 2-3 threads using one localiser"),
 "C35": (EN + "Unicode bidi classes of the letters of each script", "the whole table, all values"),
}
import sys
NOT_BUILT = set(filter(None, open(os.path.join(V, "tools", "not_built")).read().split())) if os.path.exists(os.path.join(V, "tools", "not_built")) else set()
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert set(T) == set(ids), set(T) ^ set(ids)
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + T[i][0], "level": "model_checking",
                 "level_note": T[i][1] + "; nothing sampled; bounds in the evidence file"} for i in ids if i not in NOT_BUILT],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i in NOT_BUILT],
     "notes": "No hooks are needed in /repo: the concurrency checks substitute std::sync when they compile a copy of the sources of /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "open")

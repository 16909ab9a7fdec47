#!/usr/bin/env python3
"""Writes MANIFEST.json for the drivers that exist."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SL = "stateless model checking of the real code: exhaustive enumeration of "
T = {
 "C01": SL + "PO texts built from an abstract catalogue, compared with that catalogue",
 "C02": SL + "token strings, line sequences, truncations and byte changes under sanitizers and a termination monitor",
 "C03": SL + "malformed blocks x positions x neighbours",
 "C04": SL + "layouts within a bound on deviations from the plain layout",
 "C05": SL + "comment placements and of setting/lookup histories",
 "C06": SL + "message sequences over charset pairs, against one-shot conversion",
 "C07": SL + "rules x counts x spellings, against an evaluator of the written C expression",
 "C08": SL + "operation sequences on a dictionary, against a reference catalogue",
 "C09": SL + "contents of chained dictionaries, against a reference chain",
 "C10": SL + "locale strings over an alphabet, against a reference resolver",
 "C11": SL + "all pairs of known languages, against the rank definition",
 "C12": SL + "operation sequences on a manager, against a fresh manager per state",
 "C13": SL + "directory contents, listing orders and search path histories, against a reference selection",
 "C14": SL + "directory contents and search path histories, against a reference set",
 "C15": "fault enumeration: all placements of file system faults in all operation sequences within bounds",
 "C16": "controlled-scheduler exploration of all thread interleavings within a preemption bound, with a happens-before race detector, on the instrumented real code",
 "C17": SL + "callback configurations x event histories x fault positions",
 "C18": SL + "converter operation sequences x iconv fault placements, monitored by a descriptor automaton",
 "C19": SL + "populations of a scratch directory, against the names and bytes written",
 "C21": SL + "ambient settings x scenarios, each in a fresh process, against the scenario in the plain C locale; process-wide state compared before and after",
 "C22": SL + "placements of nested uses at every call-out within a deviation bound, against the same calls without nesting",
 "C23": SL + "repeated input elements at two sizes on the real code compiled with edge coverage; work and peak memory compared",
 "C24": SL + "manager operation sequences and listings over a recording file system, and over real directories with the C library's file functions interposed",
 "C25": SL + "moments of a process's life x uses of the library x ways to end, each in a process of its own, against the answers in main",
 "C26": SL + "short strings over hostile alphabets and combinations of odd arguments for every public function, against reference answers",
 "C27": "fault enumeration: every allocation of every call, alone, with all later ones, by size and in pairs, on the real code, against the state before and after",
 "C28": SL + "operation sequences over eight objects and interleavings of scripts, against the answers of each object alone in a process of its own",
 "C20": SL + "sequences of files loaded into one dictionary, against a reference merge",
}
COMMON = "Every execution within the stated bounds runs on the real code built from /repo with AddressSanitizer and UBSan; outside the bounds nothing is claimed. Trusts the reference model, glibc and the compiler."
NOTE = {
 "C23": "Growth is measured between two sizes only (512 and 4096, or 64 and 512); families are all short sequences of the listed elements. Work inside libstdc++.so and glibc counts only as far as it moves, compares, searches, converts or allocates memory.",
 "C28": "All sequences and interleavings within the bounds on the real code (plain build), each in a forked process of its own; the oracle is the code itself with one object only, so that a fault that does not depend on other objects is left to the other properties.",
 "C24": "All operation sequences within the bounds on the real code (plain build). Access to the real file system is seen where it goes through the C library's symbols (not through raw system calls or glibc internals).",
 "C07": "All rules and, per rule, all counts in large ranges on the real code (plain build); trusts the expression evaluator and the compiler.",
 "C16": "All interleavings of the listed small thread programs within the preemption bound; scheduling points are every shared access and synchronisation operation the clang thread-sanitizer pass instruments in /repo's code, races are judged by happens-before on all of them. Trusts that glibc and libstdc++ internals not instrumented are thread-safe; assumes sequential consistency.",
}
ids = sorted({os.path.basename(f)[:3].upper() for f in glob.glob(V + "/drivers/c*_*.cpp")})
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "technique": T[i],
                 "level": "model_checking", "level_note": NOTE.get(i, COMMON)} for i in ids],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in props if i not in ids],
     "notes": "No hooks in /repo are needed: drivers use the public API; C16 instruments /repo's code at compile time, C18 interposes iconv, C23 the memory functions and C24 the file functions of the C library at link time."}
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")

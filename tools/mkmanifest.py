#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp import checks
TECH = {
 "C01": "differential monitor: every search compared online with a reference edit distance, under ASan/UBSan and in three builds",
 "C02": "differential monitor: every match compared with a reference matcher, under ASan/UBSan and in three builds",
 "C03": "differential monitor: filtered matches compared with a reference filter over a reference matcher",
 "C04": "differential monitor: online matches compared with a reference scorer",
 "C05": "metamorphic monitor: outcomes of equal queries across histories, index partitions and orders must agree",
 "C06": "differential monitor: own UTF-8 decoder and ICU case mapping as oracle, under ASan with exact-size buffers",
 "C07": "model-based monitor: word pools checked after every operation, under ASan/UBSan",
 "C08": "differential monitor: reference splitter as oracle",
 "C09": "model-based monitor: word store compared with a map after every call",
 "C10": "model-based monitor: index counts compared with a map after every insertion",
 "C11": "model-based monitor: all pair costs compared with the rules after every setting",
 "C12": "table monitor: all pair costs compared with independently written tables",
 "C13": "model-based monitor: results compared with a stably sorted list",
 "C14": "model-based monitor: containers compared with maps and lists",
 "C15": "differential monitor: C calls compared with the C++ calls they stand for",
 "C16": "model-based and differential monitor from Python, under ASan/UBSan",
 "C17": "random API sequences under ASan, UBSan, assertions and valgrind memcheck",
 "C18": "resource monitor: allocated bytes, descriptors and mappings before and after; leftovers after SIGKILL injected at every file-related system call",
 "C19": "fault injection at every system call and allocation of recorded scenarios, under ASan, with a model of what must survive",
 "C20": "ThreadSanitizer with per-thread results compared to a sequential run",
 "C22": "structural monitor: the trie is walked at quiescent points and compared with the set of prefixes",
 "C23": "cost monitor: instruction counts (valgrind cachegrind) and peak bytes of workloads of growing size",
 "C24": "output monitor: the tool is run on generated files (sanitizer builds and release), its lines and exit status compared with a reference distance",
 "C21": "offline comparison of result logs of one workload recorded from differently built libraries and in other locales and surroundings",
}
NOTE = {}
for p, (level, rule, meaning, assumptions, fn) in checks.SPECS.items():
    NOTE[p] = "Holds on the executions explored: " + rule + ((" Assumes: " + "; ".join(assumptions) + ".") if assumptions else "")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=TECH[p], level=checks.SPECS[p][0], level_note=NOTE[p])
                 for p in sorted(checks.SPECS)],
         not_applicable=[dict(property=p, reason="check under construction") for p in sorted(TECH) if p not in checks.SPECS],
         notes="No hooks in /repo: every monitor observes public interfaces, sanitizer reports and process resources. Checks build /repo's working tree themselves into /verif/build.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")

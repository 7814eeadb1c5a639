import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "A": "runtime monitoring: exact reference model fed by allocator, cleanup, destructor and hook callbacks; ASan+UBSan; injected block-allocation failures",
    "A09": "runtime monitoring: differential run of pmr containers against the default resource, address confinement monitor; ASan+UBSan",
    "A11": "ThreadSanitizer and per-thread differential monitors under stress schedules",
    "M01": "runtime monitoring: metric counters against an event model, interposed clock; ASan+UBSan",
    "M02": "ThreadSanitizer and conservation monitor over concurrent reports with injected delays",
    "M03": "runtime monitoring: parsed report against the counters in random and boundary states; ASan+UBSan",
    "S": "runtime monitoring: differential oracle against std::string on random histories; heap tracker; ASan+UBSan and a release build",
    "S05": "fault injection at every allocation point of random histories, differential and leak monitors; ASan+UBSan",
    "V": "runtime monitoring: differential oracle against std::vector, element lifetime ledger, heap tracker; ASan+UBSan and a release build",
    "V04": "fault injection at every allocation and element copy, lifetime ledger and leak monitors; ASan+UBSan",
    "O": "runtime monitoring: reference interpreter of the option rules against the parser on random registrations and command lines; ASan+UBSan",
    "L": "runtime monitoring: arithmetic oracle over boundary and random values; UBSan",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "technique": TECH.get(i) or TECH[i[0]],
            "level": s.get("level", "exploration"),
            "level_note": s.get("note", "every generated execution is judged by the monitors; executions that were not generated are not covered"),
        })
    else:
        na.append({"property": i, "reason": "check still under construction"})
m = {"version": 1, "setup_cmd": "python3 -c \"import checks\"",
     "hooks": {"guard": "STDB_VERIF_NO_WORD_COPY",
               "enable": "the checks compile /repo's sources with -DSTDB_VERIF_NO_WORD_COPY in the sanitized release configuration (checks.py, CONFIGS)",
               "source_commits": [os.popen("git -C /repo log --format=%H --grep='^hook:'").read().split()[0]]},
     "checks": checks}
m["not_applicable"] = na
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

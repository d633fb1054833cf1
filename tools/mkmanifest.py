"""writes MANIFEST.json"""
import json

DIFF = "runtime monitor: executions compared online with an executable specification, coverage-guided workload"
META = "runtime monitor: relations between recorded executions (metamorphic), seeded hostile workload"
T = {
    "P01": "runtime monitor: exactly-once and ordering of uniquely named tokens in every execution's output", "P02": DIFF, "P03": DIFF, "P04": DIFF, "P05": DIFF + "; grid read back from the output",
    "P06": DIFF, "P07": DIFF + "; canary text", "P08": DIFF, "P09": DIFF, "P10": "runtime monitor: planted wrong counts must raise, valid documents must not", "P11": META, "P12": META,
    "P13": "runtime monitor: every Unicode character and dictionary entry driven through the library, against the reviewed dictionary", "P14": "runtime monitor: outputs of all characters decoded by a reader built on the Unicode database",
    "P15": DIFF, "P16": DIFF, "P17": "runtime monitor: output decoded back to the characters, no live LaTeX specials", "P18": DIFF, "P19": META, "P20": META, "P21": META,
    "P22": "runtime monitor: corrupted documents, expat as the oracle of well-formedness", "P23": META, "P24": "runtime monitor: outcome classes over text, tag and tree fuzzing, coverage-guided",
    "P25": "runtime monitor: invariant on every output", "P26": "runtime monitor: LaTeX scanner as invariant on every output",
    "P27": "runtime monitor: long recorded histories against fresh processes", "P28": "controlled interleavings (sys.monitoring) and free-running stress against fresh processes",
    "P29": "differential execution under about 60 interpreter configurations", "P30": "audit hook, state snapshots and stream capture around every conversion",
    "P31": "executed lines counted (sys.monitoring) on growing families; CPU guard on hostile text", "P32": DIFF + " at and beyond the supported depth",
    "P34": "fault injection at points of running conversions (sys.monitoring, signals); later conversions against fresh processes",
    "P35": "conversions injected into running conversions (sys.monitoring, signals, collector) against fresh processes",
    "P36": "outcomes copied, pickled and sent through worker pools, compared with direct calls",
    "P37": "forks injected into running conversions (sys.monitoring) and beside converting threads, against fresh processes",
    "P38": "peak of traced allocations (tracemalloc) on growing families",
    "P39": "differential execution of installed, packed and vendored copies, and of import orders, in separate interpreters",
    "P33": "allocated-block accounting over repeated conversions",
}
NOTE = {
    "P13": "Every character of Unicode is driven in the thorough tier; the quick tier drives the planes that hold entries and a sample of the rest. The reviewed dictionary is a committed table.",
}
props = [json.loads(x) for x in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 -B -c \"import sys; sys.path.insert(0, '.'); import rv.sut, rv.registry\"",
    "checks": [dict(property=p["id"], quick_cmd="python3 -B check.py %s --tier quick" % p["id"], thorough_cmd="python3 -B check.py %s --tier thorough" % p["id"],
                    evidence_file="evidence/%s.json" % p["id"], technique=T[p["id"]], level="exploration",
                    level_note=NOTE.get(p["id"], "Held on the executions produced; the evidence file counts them and says what was observed. Nothing is claimed beyond them."))
               for p in props],
    "not_applicable": [],
    "notes": "Pure Python, no native code and no shared state by design: nothing to build, no hooks in /repo; all monitors sit outside (public entry point, sys.monitoring, audit hook, other processes).",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")

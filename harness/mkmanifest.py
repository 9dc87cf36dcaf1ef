"""Writes MANIFEST.json from the property modules present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

NOTE = {
    "C24": "AddressSanitizer + UndefinedBehaviorSanitizer builds of the extension driven with hostile arguments, plus reference-count and memory-growth monitors: nothing was reported on the executions explored. CPython and numpy themselves are not instrumented.",
    "C28": "The viewer is driven without a display through a recording stand-in of tkinter: what is decided is which canvas operations it asks for, not what tk paints.",
}
DEFAULT = "The oracle held on every execution explored (seeded generation; counts in the evidence file). It trusts the oracle code in harness/ (numpy only, nothing imported from gdspy) and float arithmetic within the stated margins; it says nothing about inputs not generated."
TECH = {
    "C24": "runtime monitoring: ASan/UBSan instrumented extension under hostile workloads, refcount and leak monitors",
    "C13": "runtime monitoring: online reference-model monitor over mutation histories",
    "C14": "runtime monitoring: online reference-model monitor over operation histories",
    "C27": "runtime monitoring: deep-fingerprint monitor around every call, in random histories",
    "C29": "runtime monitoring: injected input/output faults and cuts, watched by monitors of streams and file objects",
    "C30": "runtime monitoring: repetition of recorded programs under other histories, thread schedules and processes",
    "C31": "runtime monitoring: equal calls in different forms, compared by fingerprints of objects, results and files",
    "C32": "runtime monitoring: equal calls and programs with values of different types, compared by fingerprints",
    "C28": "runtime monitoring: recorded trace of canvas calls against a geometric oracle",
}
DEFTECH = "runtime monitoring: generated workloads watched by an independent oracle"
REASON = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
            cmd = "/opt/venv/bin/python harness/run.py " + i
            checks.append({
                "property": i,
                "quick_cmd": cmd,
                "thorough_cmd": cmd + " --thorough",
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH.get(i, DEFTECH),
                "level": "exploration",
                "level_note": NOTE.get(i, DEFAULT),
            })
        else:
            na.append({"property": i, "reason": REASON.get(i, "The check is not built yet.")})
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python harness/stage.py plain asan",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every monitor observes the public interface, the bytes written, or an instrumented build of the extension made in /verif/.build.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()

"""Rewrite MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {
    "C01": "JuiceWire", "C02": "JuiceCalls", "C03": "JuiceCalls", "C04": "JuiceSwitch", "C05": "JuiceTLS",
    "C06": "JuiceArgs", "C07": "Liner", "C08": "Router", "C09": "Router", "C10": "Auth", "C11": "Auth",
    "C12": "Auth", "C13": "Extime", "C14": "Extime", "C15": "Extime", "C16": "Extime", "C17": "Extime",
    "C18": "Record", "C19": "Views", "C20": "Caseless", "C21": "Expose", "C22": "Modes",
    "C23": "Attributes", "C24": "Pending", "C25": "React", "C26": "Scheduling", "C27": "Tracing",
    "C28": "Hotfix", "C29": "Child", "C30": "Timing", "C31": "Stats", "C32": "Packages",
    "C33": "Literals", "C34": "Template", "C35": "Certificates",
    "C36": "JuiceCalls", "C37": "Repairs", "C38": "Process", "C39": "Bench",
}
NOT_APPLICABLE = []

checks = []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    for line in f:
        pid = json.loads(line)["id"]
        if pid in [n["property"] for n in NOT_APPLICABLE]:
            continue
        s = SPECS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "bash check.sh %s quick" % pid,
            "thorough_cmd": "bash check.sh %s thorough" % pid,
            "technique": "TLA+ specification (specs/%s.tla) model-checked by TLC; every transition of it "
                         "replayed in the real code, and recorded random histories of the real code "
                         "validated against it by TLC" % s,
            "level": "model_checking",
            "level_note": "Exhaustive over the specification's bounded state graph (invariants and every "
                          "transition stepped through the real code); beyond those bounds, seeded random "
                          "histories validated step by step by TLC. Trusts TLC, the adapter which performs "
                          "the operations, and the specification as a statement of the property.",
        })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks: the checks import /repo's working tree unmodified."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

"""Writes MANIFEST.json from the check modules (run by hand)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    try:
        m = importlib.import_module("mc.checks." + pid.lower())
    except ImportError:
        na.append(dict(property=pid, reason="no check yet: the machinery for it is still being built"))
        continue
    note = ("Exhaustive within the bounds reported in the evidence (bounds, counters); every explored state is evaluated on the "
            "real code of /repo's working tree and compared with an independent reference. Nothing is claimed beyond the bounds. "
            + "Assumes: " + "; ".join(m.ASSUMPTIONS) + ".")
    checks.append(dict(property=pid, quick_cmd="./check %s --tier quick" % pid,
                       thorough_cmd="./check %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=m.TECHNIQUE,
                       level="model_checking", level_note=note))
doc = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
           notes="No hooks in /repo: the checks drive the public interface. Every check imports /repo's working tree "
                 "(SCAKS_REPO selects another tree for experiments). Bounded exhaustive enumeration in fixed order; VERIF_SEED has no effect.")
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [x["property"] for x in na])

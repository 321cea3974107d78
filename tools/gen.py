"""Writes properties.jsonl and MANIFEST.json from the table below (run: python3 tools/gen.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INF = ["pystruct/inference/inference_methods.py", "pystruct/inference/maxprod.py",
       "pystruct/inference/linear_programming.py", "pystruct/inference/common.py",
       "pystruct/inference/_viterbi.pyx", "pystruct/utils/graph_functions.py"]
MOD = ["pystruct/models/crf.py", "pystruct/models/graph_crf.py", "pystruct/models/chain_crf.py",
       "pystruct/models/grid_crf.py", "pystruct/models/edge_feature_graph_crf.py",
       "pystruct/models/multilabel_svm.py", "pystruct/models/unstructured_svm.py",
       "pystruct/models/base.py", "src/utils.pyx"]
LAT = ["pystruct/models/latent_graph_crf.py", "pystruct/models/latent_grid_crf.py",
       "pystruct/models/latent_node_crf.py"]
TYP = ["pystruct/models/typed_crf.py", "pystruct/models/node_type_edge_feature_graph_crf.py"]
CP = ["pystruct/learners/n_slack_ssvm.py", "pystruct/learners/one_slack_ssvm.py",
      "pystruct/learners/ssvm.py"]
FW = ["pystruct/learners/frankwolfe_ssvm.py", "pystruct/learners/ssvm.py"]
SG = ["pystruct/learners/subgradient_ssvm.py", "pystruct/learners/ssvm.py"]
ALL = CP + FW[:1] + SG[:1] + ["pystruct/learners/structured_perceptron.py",
                              "pystruct/learners/subgradient_latent_ssvm.py",
                              "pystruct/learners/latent_structured_svm.py"]

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, level,
         level_note, built=True, reason=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, observe=observe, technique=technique,
                  level=level, level_note=level_note, built=built, reason=reason, state=state))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": dict({"files": p["files"],
                                 "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                                 "observe_at": p["observe"], "hook_needed": None},
                                **({"state": p["state"]} if p["state"] else {}))}) + "\n")
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        if p["built"]:
            checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                           "thorough_cmd": "./check %s --tier thorough" % p["id"],
                           "technique": p["technique"], "level": p["level"],
                           "level_note": p["level_note"]})
        else:
            na.append({"property": p["id"], "reason": p["reason"] or "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks were added to /repo; checks import /repo's working tree and compile its "
                  "two .pyx files privately when the in-place build is not current."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(P), len(checks)))


if __name__ == "__main__":
    main()

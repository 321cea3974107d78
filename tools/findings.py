"""Writes known_findings.json: one entry per fix commit in /repo (from git log) and the known ones below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {  # commit subject -> (property, what failed)
 "max-product on graphs without edges and on parallel edges": ("P01", "max-product raised on graphs without edges and ignored parallel edges"),
 "max-product on trees returned a non-maximal labeling if there are ties": ("P01", "tree max-product mixed different maximisers"),
 "DirectionalGridCRF with neighborhood=8 has four edge directions": ("P04", "DirectionalGridCRF(neighborhood=8) could not predict or compute joint features"),
 "BinaryClf loss-augmented inference returned label 0 on the margin": ("P05", "label 0 for scores exactly on the margin"),
 "integer class weights broke loss-augmented inference": ("P05", "integer class weights raised in loss-augmented inference"),
 "return_energy was silently ignored by max-product and unary inference": ("P07", "return_energy=True returned labels only"),
 "LatentDirectionalGridCRF.loss_augmented_inference lacked return_energy": ("P07", "TypeError for return_energy"),
 "MultiLabelClf.joint_feature of relaxed labels failed for integer features": ("P08", "casting error for integer features"),
 "MultiLabelClf(n_features=...) failed if n_labels is to be inferred": ("P12", "TypeError when n_labels is inferred"),
 "TypedCRF.initialize checked nothing in Python 3": ("P12", "wrong multi-type instances were accepted"),
 "forbidden states of latent CRFs were chosen for large weights": ("P13", "latent() and inference chose states of other labels for large weights"),
 "initial hidden states of instances without hidden nodes (LatentNodeCRF)": ("P13", "wrong initial hidden states"),
 "unflattenY failed if there are no nodes of some type (None)": ("P14", "AttributeError"),
 "multi-type inference failed on edges without features": ("P14", "inference raised"),
 "ad3+ failed with one pairwise matrix shared by all edges": ("P15", "GraphCRF with ad3+ raised"),
 "joint features of labels stored in small integer types": ("P06", "uint8 labels: wrong pair index with 17 or more states; sign -1 stored as 255 in MultiLabelClf"),
}
KNOWN = []
if os.path.exists(os.path.join(ROOT, "tools", "findings_more.py")):
    exec(open(os.path.join(ROOT, "tools", "findings_more.py")).read())
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "ca7dade..HEAD"], capture_output=True, text=True).stdout
out = []
for l in log.strip().split("\n")[::-1]:
    h, s = l.split(" ", 1)
    s = s[len("fix: "):]
    if s not in FIX:
        print("NOT LISTED:", s)
        continue
    p, what = FIX[s]
    out.append({"property": p, "status": "fixed", "commit": h, "what": what,
                "line": "fixed: property=%s %s %s" % (p, h, what)})
for p, key, what in KNOWN:
    out.append({"property": p, "status": "known", "key": key, "what": what})
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
print(len(out), "findings")

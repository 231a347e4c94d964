#!/usr/bin/env python3
# writes known_findings.json: the recorded findings and the repaired ones (mapping of fix commits to the property that showed them)
import json, subprocess
F = []
def finding(pid, probe, sig, what, harness="findings"):
    F.append({"property": pid, "id": probe, "harness": harness, "signature": sig, "what": what})
leak = "expressions over constants alone (sin/sum/matmul/reduce of constant nodes, also such parts of gradients) are never freed"
finding("R04", "R04-constant-graph", "constant-graph-leak", leak)
finding("M01", "R04-constant-graph", "constant-graph-leak", leak)
finding("D01", "D01-clip", "clip-derivative", "derivative of clip_val(x,lo,hi) is clip(x) times the derivative of x instead of 1 inside and 0 outside (pinned by the ELEMENTARY tests)")
finding("D01", "D01-round", "round-derivative", "derivative of round(x) is round of the derivative of x instead of 0 (pinned by the ELEMENTARY tests)")
finding("D01", "D01-clip-norm", "clip-norm-derivative", "derivative of clip_norm(x,cap) clips the derivative by its own norm instead of scaling and projecting")
finding("D01", "D01-abs-second", "comparison-second-derivative", "second derivative of |f(x)|, whose first one contains a comparison")
finding("D01", "D01-assigned", "assigned-argument", "expressions that depend on an expression keep the variables (and their gradients) they were built with when that expression is assigned another one")
finding("D02", "D02-two-products", "several-products", "gradient by a weight that enters the loss through several matrix products, e.g. sum(sin(xw)w)")
finding("D02", "D02-softmax", "several-products", "gradient by a weight whose product is used by several branches, e.g. log(softmax(xw))")
finding("D02", "D02-transpose", "shape-op-gradient", "gradient through an explicit transpose")
finding("D02", "D02-extend", "shape-op-gradient", "gradient through extend/fit")
finding("D02", "D02-reduce-max", "shape-op-gradient", "gradient of reduce_max selects every element instead of the maximum")
finding("D02", "D02-two-reductions", "reductions-along-dimensions", "gradient of products of reductions along different dimensions")
finding("D02", "D02-compress", "reductions-along-dimensions", "gradient of nonlinear functions of a reduction along one dimension keeps the reduced shape (TRANSFORM.Compress pins it)")
finding("G01", "G01-leaf-gradient", "leaf-gradient-frozen", "gradients over leaves only (x of d(x*y)/dy) belong to no part of the loss' graph and are not frozen with it")
finding("N04", "N04-finetune", "finetune-gradient", "fine-tuning belief nets steps along a wrong gradient (softmax outputs)", "findingsN")
MAP = """9048c6a E02
9734f65 E02
3702f26 E02
a761032 E02
8a32144 E02
3b6f760 M01
d42180b E01
ef94e7f E01
7568144 C02
fc89b27 C02
386cb8e C02
b797df6 C01
fae78d5 C01
b5291cb C01
7053591 N05
2d33f7d N05
eef4a29 N05
52caf0f N05
8bec550 V01
d3d9a0f N04
e810d66 N05
94346a0 N03
46a50cf G02
1549686 D02
78376b7 D02
95060a0 D02
3e458b6 D02
65b580e S02
8173923 V01
0e523da V01
8ff4517 V01
d9abb0f V01
4a812e5 O07
ef784a7 O07
dfbca65 R03
0d97ca6 R03
1d163ae R03
fa2cf7a R03
886837c T02
cc34081 T02
97d8b4a T02
3c5c9cc T02
0b9d94a T02
512e38f T03
66b3d6e T02
9a40e5b T01
8d6e357 R05
ec4eefe R05
b2709ef R05
34b4e0e R05
3268422 R05
5d52598 R05
7c6e6e5 R05
f7b0059 R05
e628dd9 R07
b2a924f R07
7ae282c R04
d25bf4d O04
29bd509 T03
1b4c12f O06
0d6bae2 O04
fbd7e5f O05
aaaa8b0 O05
8470acb O04
cea239a O04
b9dae62 O03
31adec7 O01
107a82b R06
14e4f24 O02
672951a R06
500666f R06
2461831 O01
52ed057 O01
5bfb04d O01"""
MAP = dict(l.split() for l in MAP.splitlines())
fixed = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "6c111f7..HEAD"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    if h not in MAP: print("unmapped", l); continue
    fixed.append("fixed: property=%s %s %s" % (MAP[h], h, s[5:]))
json.dump({"findings": F, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
print(len(F), "findings", len(fixed), "fixed")

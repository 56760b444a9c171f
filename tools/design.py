#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, os, sys, glob, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V + "/bin")
import props
from design_text import *
out = [HEAD]
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = {}
exec(open(V + "/tools/na.py").read(), {"NA": na, "p": lambda *a, **k: None, "Y": "", "G": ""})
tab = []
for x in P:
    i = x["id"]
    out.append("### %s %s\n\n%s\n" % (i, x["title"], x["statement"]))
    if i not in props.PROPS:
        out.append("*Not applicable*: %s\n" % na[i])
        continue
    q = props.PROPS[i]
    out.append("* *Oracle*: %s" % ORACLE[i])
    hs = collections.OrderedDict()
    for pk, fn, a in q["quick"] + q["thorough"]:
        hs.setdefault("gen/*" if "/gen/" in pk else pk.split("/", 1)[1], collections.OrderedDict())[fn] = 1
    out.append("* *Harness*: " + "; ".join("`%s`: %s" % (k, ", ".join(v)) for k, v in hs.items()))
    try:
        e = json.load(open(V + "/evidence/%s.json" % i))
        c = e["coverage"]
        pk = collections.Counter()
        for f in c["functions_encoded"]:
            n = f if isinstance(f, str) else f.get("name", "")
            if "KSpaceer/yamly" in n:
                n = n.split("KSpaceer/yamly", 1)[1].lstrip("/")
                d = n.split("[")[0]
                d, l = (d.rsplit("/", 1) + [""])[:2] if "/" in d else ("", d)
                pk[(d + "/" + l.split(".")[0].rstrip(")")).strip("/")] += 1
        if pk:
            out.append("* *Encoded from /repo*: " + ", ".join("`%s` (%d functions)" % (k, v) for k, v in sorted(pk.items())))
        tab.append("| %s | %s | %s | %s | %s | %.0f s |" % (i, len(q["quick"]), c["states"], c["queries_discharged"], c["traces_validated_against_impl"], e["wall_s"]) if e["tier"] == "quick" else "| %s | | | | | |" % i)
    except FileNotFoundError:
        pass
    out.append("* *Bounds* (quick): %s. Thorough: %s." % (q["bounds"]["quick"], q["bounds"]["thorough"]))
    if q.get("outside"):
        out.append("* *Outside*: %s." % q["outside"])
    if q.get("assumptions"):
        out.append("* *Assumes*: %s." % "; ".join(q["assumptions"]))
    out.append("* *Beyond the tests*: %s\n" % x["why_tests_cant"])
out.append("### Cost of the quick checks (8 cores)\n\n| property | jobs | paths | solver queries | native replays that agreed | wall |\n|---|---|---|---|---|---|\n" + "\n".join(tab) + "\n")
k = json.load(open(V + "/known-findings.json"))
out.append("## 3. Defects found\n\nFirst runs of the checks reported these on the original tree; each was confirmed natively. They were repaired by small `fix:` commits in /repo:\n\n" +
           "\n".join("* %s: %s (`%s`)" % (f.split()[1].split("=")[1], " ".join(f.split()[3:]), f.split()[2]) for f in k["fixed"]) +
           "\n\nKnown findings, not repaired (reported as KNOWN-FINDING, everything else still is a violation):\n\n" + "\n".join("* %s: %s" % (f["property"], f["what"]) for f in k["findings"]) + "\n")
out.append(TAIL)
out.append("## 6. Planted bugs\n\nEach is in `seeded/<id>/` with a demonstration. Found by the check of its property unless said otherwise.\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
cb = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], cb.get(n, "")))
out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out))

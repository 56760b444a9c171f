#!/bin/bash
# sg.sh pkg fn args... : quick run
. /opt/vp/env.sh; export GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
pkg=$1; fn=$2; shift 2
args=$(IFS=,; echo "$*")
echo "[{\"pkg\":\"verif/$pkg\",\"fn\":\"$fn\",\"args\":[$args],\"timeout\":${T:-200},\"samples\":5,\"maxviol\":${V:-12}}]" > /tmp/sg.$$.json
/verif/build/symgo -dir /verif/harness -jobs /tmp/sg.$$.json -out /tmp/sg.$$.out.json -deadline ${T:-200} $X > /tmp/sg.$$.log 2>&1
tail -3 /tmp/sg.$$.log
python3 - /tmp/sg.$$.out.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
for j in (d["results"]):
    vs=j.pop("violations",None) or []
    print({k:j[k] for k in ("paths","complete","timed_out","pending","queries","assert_queries","solver_s","wall_s","unsupported","limits","reach")}); j={}
    for v in vs:
        ins=v.get("inputs") or []
        s=bytes(x&255 for x in ins)
        print("  ",(v.get("where") or "")[:300] if "W" in __import__("os").environ else "",v.get("kind"),v.get("label"),(v.get("msg") or "")[:150],s, ins[:6] )
P
rm -f /tmp/sg.$$.*

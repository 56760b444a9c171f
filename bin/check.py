#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property: symbolically executes the harnesses of the property together with the code of
/repo (SSA is regenerated from the current working tree), asks the SMT solver for a violation of any
assertion on any path, replays every counterexample on the natively compiled real code, and writes
/verif/evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1: confirmed violation.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
GOROOT = "/opt/veriftools/go1.27.3"


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["GOROOT"] = GOROOT
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["GOTOOLCHAIN"] = "local"
    e["GOPATH"] = "/root/go"
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    e["GOCACHE"] = "/root/.cache/go-build"
    e["GOFLAGS"] = "-mod=mod"
    e["GOPROXY"] = "off"
    e["GOWORK"] = "off"
    e["GOSUMDB"] = "off"
    return e


ENV = env()


def run(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_symgo():
    out = os.path.join(BUILD, "symgo")
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "symgo")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src) if f.endswith(".go"))
    if os.path.exists(out) and os.path.getmtime(out) > newest:
        return out
    r = run(["go", "build", "-o", out, "."], cwd=src)
    if r.returncode != 0:
        sys.stderr.write(r.stderr)
        sys.exit(3)
    return out


FN = re.compile(r"^func (H[A-Za-z0-9_]*)\(([^)]*)\)", re.M)


def build_replay(pkgs, scratch, HARN, race=False):
    """A native runner for the harness packages, compiled against /repo's working tree."""
    imports, entries = [], []
    for i, p in enumerate(sorted(pkgs)):
        d = os.path.join(HARN, p.split("/", 1)[1])
        imports.append('\tp%d "%s"' % (i, p))
        for f in sorted(os.listdir(d)):
            if not f.endswith(".go"):
                continue
            for m in FN.finditer(open(os.path.join(d, f)).read()):
                names = [x for x in m.group(2).replace(" int", "").split(",") if x.strip()]
                call = ", ".join("int(a[%d])" % k for k in range(len(names)))
                entries.append('\t"%s.%s": func(a []int64) { p%d.%s(%s) },' % (p, m.group(1), i, m.group(1), call))
    src = RUNNER % ("\n".join(imports), "\n".join(entries))
    gen = os.path.join(scratch, "main.go")
    open(gen, "w").write(src)
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": {os.path.join(HARN, "zz_replay", "main.go"): gen}}, open(ov, "w"))
    out = os.path.join(scratch, "replay-race" if race else "replay")
    r = run(["go", "build"] + (["-race"] if race else []) + ["-overlay", ov, "-o", out, "./zz_replay"], cwd=HARN)
    if r.returncode != 0:
        sys.stderr.write(r.stderr)
        print("cannot build the harness natively against /repo")
        sys.exit(3)
    return out


RUNNER = '''package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"verif/vf"
%s
)

var funcs = map[string]func([]int64){
%s
}

type req struct {
	Fn     string   `json:"fn"`
	Args   []int64  `json:"args"`
	Inputs []uint64 `json:"inputs"`
}

type resp struct {
	Kind  string   `json:"kind"` // ok, assert, assume, panic
	Label string   `json:"label"`
	Msg   string   `json:"msg"`
	Obs   []string `json:"obs"`
	Short bool     `json:"short"`
	Stack string   `json:"stack"`
}

func one(r req) (res resp) {
	defer func() {
		res.Obs = vf.Obs
		res.Short = vf.Short
		if x := recover(); x != nil {
			if s, ok := x.(vf.Stop); ok {
				res.Kind, res.Label = s.Kind, s.Label
				return
			}
			res.Kind, res.Msg = "panic", fmt.Sprint(x)
			st := strings.Split(string(debug.Stack()), "\\n")
			if len(st) > 40 {
				st = st[:40]
			}
			res.Stack = strings.Join(st, "\\n")
		}
	}()
	f := funcs[r.Fn]
	if f == nil {
		return resp{Kind: "missing", Msg: r.Fn}
	}
	vf.Reset(r.Inputs)
	f(r.Args)
	return resp{Kind: "ok"}
}

func main() {
	debug.SetMaxStack(64 << 20)
	if os.Getenv("VERIF_ROUNDS") != "" {
		vf.Rounds = 1000
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for sc.Scan() {
		var r req
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			panic(err)
		}
		b, _ := json.Marshal(one(r))
		w.Write(b)
		w.WriteByte('\\n')
		w.Flush()
	}
}
'''


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native(replay, reqs, timeout):
    data = "\n".join(json.dumps(r) for r in reqs) + "\n"
    e = dict(ENV)
    e["GOMEMLIMIT"] = "3GiB"
    try:
        r = subprocess.run([replay], input=data, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, errors="replace", preexec_fn=limits)
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        if isinstance(out, bytes):
            out = out.decode("utf-8", "replace")
        return [json.loads(l) for l in out.splitlines() if l.startswith("{")], "timeout"
    except MemoryError:
        return [], "oom"
    res = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
    if r.returncode != 0:
        return res, "crash: " + (r.stderr.splitlines() or [""])[0][:200]
    return res, None


def confirm(replay, v):
    """Replays one counterexample; returns (reproduced, description)."""
    req = {"fn": v["harness"], "args": v["args"] or [], "inputs": v["inputs"] or []}
    res, bad = native(replay, [req], 20)
    if bad:
        if v["kind"] in ("limit", "panic"):
            return True, bad
        return True, "assertion counterexample makes the code " + bad
    r = res[0]
    if r["kind"] == "panic":
        return v["kind"] in ("panic", "limit"), "panic: " + r["msg"]
    if r["kind"] == "assert":
        return True, "assertion %r fails" % r["label"]
    return False, r["kind"]


def confirm_race(v, pkgs, scratch, harn, cache={}):
    """Two goroutines do what the counterexample does, under the race detector."""
    if "bin" not in cache:
        cache["bin"] = build_replay(pkgs, scratch, harn, race=True)
    req = {"fn": v["harness"], "args": v["args"] or [], "inputs": v["inputs"] or []}
    e = dict(ENV, GORACE="halt_on_error=1 exitcode=66", VERIF_ROUNDS="1")
    try:
        r = subprocess.run([cache["bin"]], input=json.dumps(req) + "\n", env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, errors="replace")
    except subprocess.TimeoutExpired:
        return False, "timeout"
    if r.returncode == 66 or "DATA RACE" in r.stderr:
        return True, "data race: " + " ".join(r.stderr.split()[:80])
    return r.returncode != 0, "crash: " + r.stderr[:300] if r.returncode else "no race seen"


def show_input(v):
    bs = bytes(x & 255 for x, k in zip(v["inputs"] or [], v["kinds"] or []) if k in ("byte", "u8"))
    rest = [(k, x) for x, k in zip(v["inputs"] or [], v["kinds"] or []) if k not in ("byte", "u8")]
    s = repr(bs)
    if rest:
        s += " other=" + repr(rest)
    return s


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "bin"))
    import props
    P = props.PROPS[prop]
    jobs = P["quick"] if tier == "quick" else P["thorough"]
    jobs = [dict(pkg=j[0], fn=j[1], args=list(j[2]), samples=25, **(j[3] if len(j) > 3 else {})) for j in jobs]
    deadline = P.get("deadline", {}).get(tier, 420 if tier == "quick" else 3 * 3600)
    symgo = build_symgo()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, tier, seed, P, jobs, deadline, symgo, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, P, jobs, deadline, symgo, scratch, t0):
    pkgs = {j["pkg"] for j in jobs}
    known = [k for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"] if k["property"] == prop]
    harn, ungenerated = HARN, {}
    gens = {p.rsplit("/", 1)[1] for p in pkgs if p.startswith("verif/gen/")}
    if gens:
        import gen
        harn, ungenerated, fatal = gen.generate(HARN, scratch, ENV, gens)
        if fatal:
            sys.stderr.write(fatal[-4000:])
            print("cannot build yamlygen or the library")
            return 3
        pkgs = {p for p in pkgs if p.rsplit("/", 1)[1] not in ungenerated}
        jobs = [j for j in jobs if j["pkg"] in pkgs]
    replay = build_replay(pkgs | {k["harness"].rsplit(".", 1)[0] for k in known}, scratch, harn)
    jf, of = os.path.join(scratch, "jobs.json"), os.path.join(scratch, "out.json")
    json.dump(jobs, open(jf, "w"))
    cmd = [symgo, "-dir", harn, "-jobs", jf, "-out", of, "-deadline", str(deadline)]
    r = run(cmd)
    if r.returncode != 0 or not os.path.exists(of):
        sys.stderr.write(r.stderr[-4000:])
        print("symgo failed")
        return 3
    if os.environ.get("VERIF_DEBUG"):
        sys.stderr.write(r.stderr)
    out = json.load(open(of))
    nviol = 0
    unconfirmed = []
    seen = {}
    repdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(repdir, exist_ok=True)
    for p, log in sorted(ungenerated.items()):
        nviol += 1
        path = os.path.join(repdir, "%s-%d.json" % (prop, nviol))
        json.dump({"property": prop, "corpus": p, "label": "code is generated for the type and compiles", "native": log}, open(path, "w"), indent=1)
        print("  no working code is generated for harness/gen/%s (%s): %s" % (p.split("_", 1)[1], p[0], log[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for k in known:
        v = {"harness": k["harness"], "args": k["args"], "inputs": k["inputs"], "kinds": [], "kind": k.get("kind", "assert"), "label": k["label"]}
        ok, how = confirm(replay, v)
        if ok:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for res in out["results"]:
        for v in res["violations"] or []:
            key = (v["harness"], v["label"], v["where"] if v["kind"] != "assert" else "")
            if seen.get(key, 0) >= 2:
                continue
            ok, how = confirm(replay, v) if v["kind"] != "race" else confirm_race(v, pkgs, scratch, harn)
            if not ok:
                unconfirmed.append({"violation": v, "native": how})
                if v["kind"] == "race":
                    seen[key] = seen.get(key, 0) + 1  # a write under a lock, say: two tries are enough
                continue
            if any(k["harness"] == v["harness"] and k["inputs"] == v["inputs"] and k["args"] == v["args"] for k in known):
                continue
            seen[key] = seen.get(key, 0) + 1
            nviol += 1
            os.makedirs(repdir, exist_ok=True)
            path = os.path.join(repdir, "%s-%d.json" % (prop, nviol))
            json.dump({"property": prop, "fn": v["harness"], "args": v["args"], "inputs": v["inputs"], "kinds": v["kinds"],
                       "label": v["label"], "msg": v["msg"], "where": v["where"], "native": how, "shown": show_input(v)}, open(path, "w"), indent=1)
            print("  %s%s %s: %s; input %s; %s" % (v["harness"], v["args"], v["label"], how, show_input(v), v["where"][:200]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    # sampled paths: the engine's prediction against the native run of the same harness
    validated, mism, samples = 0, [], []
    for res in out["results"]:
        reqs, exp = [], []
        for s in res["samples"] or []:
            reqs.append({"fn": res["job"]["pkg"] + "." + res["job"]["fn"], "args": res["job"]["args"] or [], "inputs": s["inputs"] or []})
            exp.append(s["obs"] or [])
        if not reqs:
            continue
        got, bad = native(replay, reqs, 120)
        for q, e, g in zip(reqs, exp, got):
            if g["kind"] == "ok" and (g["obs"] or []) == e and not g["short"]:
                validated += 1
            elif g["kind"] == "ok" or g["kind"] == "assume":
                mism.append({"req": q, "symbolic": e, "native": g})
            elif g["kind"] in ("assert", "panic") and not g["short"]:
                # the executor saw no violation on this path but the real code has one
                key = (q["fn"], g["label"] or g["msg"])
                if seen.get(key, 0) < 2:
                    seen[key] = seen.get(key, 0) + 1
                    nviol += 1
                    path = os.path.join(repdir, "%s-%d.json" % (prop, nviol))
                    json.dump({"property": prop, "fn": q["fn"], "args": q["args"], "inputs": q["inputs"], "label": g["label"], "msg": g["msg"],
                               "native": g["kind"], "where": g["stack"]}, open(path, "w"), indent=1)
                    print("  %s%s %s: native run of a sampled path; input %s" % (q["fn"], q["args"], g["label"] or g["msg"], q["inputs"]))
                    print("VIOLATION property=%s replay=%s" % (prop, path))
            else:
                mism.append({"req": q, "symbolic": e, "native": g})
        if bad and len(got) < len(reqs):
            mism.append({"req": reqs[len(got)], "symbolic": exp[len(got)], "native": {"kind": bad}})
        for q, e in list(zip(reqs, exp))[:2]:
            samples.append({"harness": q["fn"], "args": q["args"], "inputs": q["inputs"], "observed": e[:12]})
    R = out["results"]
    tot = lambda k: sum(r[k] for r in R)
    merge = lambda k: {x: sum((r[k] or {}).get(x, 0) for r in R) for x in sorted({x for r in R for x in (r[k] or {})})}
    fns = sorted({f for r in R for f in (r["functions"] or [])})
    incomplete = [{"harness": r["job"]["fn"], "args": r["job"]["args"], "timed_out": r["timed_out"], "pending_paths": r["pending"],
                   "unsupported": r["unsupported"], "unknown": r["unknown"]} for r in R if not r["complete"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") - tot("infeasible"),
            "transitions": tot("branches"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "explanation": "states = feasible symbolic paths of harness+implementation explored to the end; transitions = symbolic branch decisions; "
                           "every path stands for all inputs satisfying its path condition, and each assertion on it was decided by the SMT solver for all of them",
            "exhaustive": not incomplete,
            "bounds": P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"],
            "outside_bounds": P.get("outside", ""),
            "generated_packages": sorted(gens),
            "functions_encoded": fns,
            "functions_encoded_count": len(fns),
            "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
            "assertion_queries": tot("assert_queries"), "assertions_evaluated": merge("asserts"),
            "certified_value_sets": tot("certified_prunings"),
            "solver": "z3 4.8.12", "solver_seconds": round(tot("solver_s"), 2), "max_query_seconds": round(max(r["max_query_s"] for r in R), 3),
            "ssa_instructions_executed": tot("steps"),
            "reach": merge("reach"), "incomplete": incomplete,
            "unconfirmed_counterexamples": unconfirmed[:5], "unconfirmed_count": len(unconfirmed),
            "trace_mismatches": mism[:3], "trace_mismatch_count": len(mism),
            "jobs": [{"harness": r["job"]["pkg"] + "." + r["job"]["fn"], "args": r["job"]["args"], "paths": r["paths"], "complete": r["complete"],
                      "wall_s": round(r["wall_s"], 2)} for r in R],
        },
        "assumptions": P.get("assumptions", []) + [
            "the executor's model of Go (SSA semantics, intrinsics for sync.Pool, regexp, strconv, fmt, bytealg) is faithful; sampled paths are re-run natively to check it",
            "z3 is sound"],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    miss = [l for l in P.get("reach", []) if not merge("reach").get(l)]
    print("%s %s: %d paths, %d branch decisions, %d solver queries (%.1f s), %d assertion queries, complete=%s, %d/%d sampled traces agree natively, %d unconfirmed, %d violations, %.1f s%s" % (
        prop, tier, ev["coverage"]["states"], tot("branches"), tot("queries"), tot("solver_s"), tot("assert_queries"), not incomplete, validated, validated + len(mism),
        len(unconfirmed), nviol, time.time() - t0, (" NOT REACHED: %s" % miss) if miss else ""))
    if incomplete:
        for i in incomplete[:6]:
            print("  bound not exhausted:", json.dumps(i)[:400])
    if mism:
        print("  trace mismatch:", json.dumps(mism[0])[:600])
    if unconfirmed:
        print("  unconfirmed:", json.dumps(unconfirmed[0])[:600])
    return 1 if nviol else 0


main()

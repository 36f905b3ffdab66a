#!/usr/bin/env python3
"""Run one property's check:  check.py C01 [--tier quick|thorough]
   or replay a finding:       check.py replay FILE
   or re-search by hand:      check.py search C01 [seconds]

1. build govc (the deductive verifier in govc/) and generate, from /repo's
   current source and contracts/*.gvc, every proof obligation of the property;
   discharge them with z3/cvc5.
2. build harness/ against /repo's current source (go test -overlay) and search
   for a failing input with oracles that do not use the code's own text.
3. a failing input or a failed obligation is a violation.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
PROPS = json.load(open(f"{V}/props.json"))

ENV = dict(os.environ)
if os.path.isdir("/opt/veriftools/go1.27.3"):
    ENV["GOROOT"] = "/opt/veriftools/go1.27.3"
    ENV["PATH"] = ENV["GOROOT"] + "/bin:" + ENV.get("PATH", "")
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=mod")
ENV.setdefault("HOME", "/root")
ENV["GORACE"] = "halt_on_error=1"


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=kw.pop("env", ENV), **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return 124, (o.decode(errors="replace") if isinstance(o, bytes) else o) + "\ntimed out"


class Die(Exception):
    pass


def build_govc(d):
    rc, out = run(["go", "build", "-o", f"{d}/govc", "."], cwd=f"{V}/govc", timeout=600)
    if rc:
        raise Die("cannot build govc:\n" + out)
    return f"{d}/govc"


def build_harness(d, race=False):
    rep = {f: "" for f in glob.glob(f"{R}/*_test.go")}
    for f in sorted(glob.glob(f"{V}/harness/*.go")):
        rep[f"{R}/zz_verif_{os.path.basename(f)}"] = f
    for n in ("go.mod", "go.sum"):
        if not os.path.exists(f"{R}/{n}"):
            rep[f"{R}/{n}"] = f"{V}/harness/{n}.txt"
    json.dump({"Replace": rep}, open(f"{d}/ov.json", "w"))
    exe = f"{d}/h{'race' if race else ''}.test"
    rc, out = run(["go", "test", "-overlay", f"{d}/ov.json", "-vet=off", "-c", "-o", exe] + (["-race"] if race else []) + ["."], cwd=R, timeout=600)
    if rc or not os.path.exists(exe):
        raise Die("cannot build the harness:\n" + out)
    return exe


def search(d, exe, prop, seed, ms, procs, extra=None):
    """procs searches in parallel; returns (results, first failing result)"""
    ps = []
    for i in range(procs):
        w = f"{d}/w{i}"
        os.makedirs(w, exist_ok=True)
        out = f"{w}/out.json"
        if os.path.exists(out):
            os.remove(out)
        env = dict(ENV, VERIF_SEED=str(seed * 100 + i if i else seed), VERIF_BUDGET_MS=str(ms), VERIF_OUT=out, TMPDIR=w)
        env.update(extra or {})
        log = open(f"{w}/log", "w")
        ps.append((subprocess.Popen([exe, "-test.run", f"^Test{prop}$", "-test.timeout", "0"], cwd=w, env=env, stdout=log, stderr=log), w, out))
    end = time.time() + ms / 1000 + 120
    res, bad = [], None
    for p, w, out in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log = open(f"{w}/log", errors="replace").read()
        r = None
        if os.path.exists(out):
            r = json.load(open(out))
            res.append(r)
        if p.returncode != 0:
            if r is None or not r.get("violation"):
                # the process died (fatal error, out of memory, data race): that is a finding as well
                if "no tests to run" in log:
                    raise Die("no test for " + prop)
                r = dict(r or {}, property=prop, violation=True, message="the test process died", log=log[-6000:].splitlines(), case=(r or {}).get("case", -1), seed=(r or {}).get("seed", seed))
            r["output"] = log[-4000:]
            bad = bad or r
        elif "no tests to run" in log:
            raise Die("no test for " + prop)
    return res, bad


def prove(d, govc, prop, tier):
    out = f"{d}/proof.json"
    lim = ["-fast", "4", "-slow", "30", "-budget", "420"] if tier == "quick" else ["-fast", "10", "-slow", "90", "-budget", "1500"]
    cmd = [govc, "verify", "-repo", R, "-contracts", f"{V}/contracts", "-jobs", "8", "-prop", prop, "-fn", ".*", "-json", out, "-dump", f"{d}/dump"] + lim
    rc, log = run(cmd, timeout=700 if tier == "quick" else 3000)
    rep = json.load(open(out)) if os.path.exists(out) else None
    return rc, log, rep, " ".join(cmd[:1] + cmd[1:])


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        govc = build_govc(d)
        harness, herr = None, None
        try:
            harness = build_harness(d)
        except Die as e:
            herr = str(e)
        rc, log, rep, cmd = prove(d, govc, prop, tier)
        proof_ok = rc == 0 and rep is not None and rep["total"] > 0 and not rep["failed"] and not rep["vacuous"]
        failed = []
        if not proof_ok:
            if rep:
                failed = [dict(obligation=o["name"], line=o.get("line"), status=o.get("status"), trace=o.get("trace"), verifier=o.get("by"), detail=o.get("detail", ""), props=o.get("props", [])) for o in rep["failed"] + rep["vacuous"]]
            if not failed:
                failed = [dict(obligation="(front end)", status="failed", detail=log[-3000:])]
        res, bad = [], None
        if harness:
            ms = cfg.get("search_ms", 8000) if proof_ok else cfg.get("deep_ms", 60000)
            if tier == "thorough":
                ms = max(ms, 300000)
            res, bad = search(d, harness, prop, seed, ms, cfg.get("procs", 8))
            if cfg.get("race") and not bad:
                res2, bad = search(d, build_harness(d, True), prop, seed, cfg["race"] * (1 if tier == "quick" else 8), 4, {"VERIF_RACE": "1"})
                res += res2
        violation = bad is not None or not proof_ok or herr is not None
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
            "coverage": {
                **({"explanation": cfg["explanation"]} if cfg.get("explanation") else {}),
                "obligations": rep["total"] if rep else 0,
                "discharged": rep["discharged"] if rep else 0,
                "checker_cmd": cmd.replace(d + "/govc", "govc"),
                "trusted_base": ["govc (this verifier: Go front end, VC generation)", "z3 4.8.12 / z3 5.3.2 / cvc5 1.1.2", "govc/prelude.txt: axioms about strings, sequences and maps"]
                + (["trusted contract: " + t for t in (rep or {}).get("trusted_contracts") or []])
                + (["axiom: " + t for t in (rep or {}).get("axioms") or []]),
                "functions_under_contract": [f["fn"] for f in (rep or {}).get("functions") or []],
                "obligations_per_function": {f["fn"]: f["obligations"] for f in (rep or {}).get("functions") or []},
                "lemmas": (rep or {}).get("lemmas") or [],
                "discharged_by": (rep or {}).get("by"),
                "solver_time_s": (rep or {}).get("solver_time_s"),
                "contracts_discharged_by_another_check": (rep or {}).get("contracts_relied_on_not_verified_here") or [],
                "verified_by_inlining": (rep or {}).get("verified_by_inlining") or [],
                "unmodelled_library_functions": (rep or {}).get("unmodelled_library_functions") or [],
                "reachability_covers": (rep or {}).get("covers"),
                "failed_obligations": [f["obligation"] for f in failed],
                "bounded_not_proved": cfg.get("bounded", []),
                "bounded_search": {
                    "what": "random search with independent oracles; supports the proof, decides only what bounded_not_proved names",
                    "evaluations": sum(r.get("evaluations", 0) for r in res),
                    "distinct_nontrivial": sum(r.get("distinct_nontrivial", 0) for r in res),
                    "samples": (res[0].get("samples") or [])[:1] if res else [],
                    "wall_s": max([r.get("wall_s", 0) for r in res] or [0]),
                },
            },
            "assumptions": PROPS["_assumptions"] + cfg.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1),
            "violations": 1 if violation else 0,
        }
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
        for l in open(f"{V}/known_findings.txt"):
            if l.startswith(f"finding: property={prop} "):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
        print(f"{prop}: {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations discharged, {ev['coverage']['bounded_search']['evaluations']} cases searched, {ev['wall_s']} s")
        if not violation:
            return 0
        os.makedirs(f"{V}/replays", exist_ok=True)
        rp = f"{V}/replays/{prop}.json"
        rec = {"property": prop, "failed_obligations": failed, "failing_case": bad, "verifier_output": log[-6000:],
               "replay": f"./check.py replay {rp}"}
        if herr:
            rec["harness_error"] = herr[-4000:]
        json.dump(rec, open(rp, "w"), indent=1)
        for f in failed[:10]:
            print("failed obligation:", f["obligation"], "line", f.get("line"), f.get("status"))
        if bad:
            print("failing case:", bad.get("message", "")[:2000])
            print(f"VIOLATION property={prop} replay={rp}")
        else:
            if herr:
                print(herr[-2000:])
            print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        return 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    for f in rec["failed_obligations"]:
        print("failed obligation:", f["obligation"], "line", f.get("line"), f.get("status"))
    bad = rec["failing_case"]
    if not bad:
        print("no failing input; verifier output:\n" + rec["verifier_output"])
        return 1
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        exe = build_harness(d, bool(PROPS[rec["property"]].get("race")))
        os.makedirs(f"{d}/w", exist_ok=True)
        env = dict(ENV, VERIF_SEED=str(bad["seed"]), VERIF_CASE=str(bad["case"]), TMPDIR=f"{d}/w")
        rc, out = run([exe, "-test.run", f"^Test{rec['property']}$"], env=env, cwd=f"{d}/w", timeout=300)
        print(out)
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a and a[0] == "replay":
            sys.exit(replay(a[1]))
        if a and a[0] == "search":
            d = tempfile.mkdtemp(prefix="verif-")
            try:
                res, bad = search(d, build_harness(d), a[1], int(os.environ.get("VERIF_SEED", "1")), int(float(a[2]) * 1000) if len(a) > 2 else 10000, 8)
                print(sum(r["evaluations"] for r in res), "cases,", sum(r["dropped"] for r in res), "dropped,", sum(r["distinct_nontrivial"] for r in res), "nontrivial")
                if bad:
                    print(bad.get("output") or bad)
                sys.exit(1 if bad else 0)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        sys.exit(main(a[0], tier))
    except Die as e:
        print("check error:", e)
        sys.exit(2)

#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

The deciding step is gov, the deductive verifier in /verif/gov: it builds the
SSA form of /repo's current source together with the contracts of
/verif/contracts and discharges every obligation of the property with SMT
solvers. When an obligation fails, the witness search runs the same
specification functions as ordinary Go against the real code to find a
concrete failing input.

Exit 0: every obligation was discharged. Exit 1: VIOLATION.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS, ASSUMPTIONS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def go_env(scratch):
    e = dict(os.environ)
    root = "/opt/veriftools/go1.27.3"
    e.update(HOME="/root", GOROOT=root, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOTOOLCHAIN="local", GOPROXY="off",
             GOWORK="off", GOSUMDB="off", GONOSUMDB="*", GOFLAGS="-mod=mod")
    e["PATH"] = root + "/bin:" + e["PATH"]
    mf = os.path.join(scratch, "mf")
    os.makedirs(mf, exist_ok=True)
    shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(mf, "go.mod"))
    sums = set()
    for f in (os.path.join(REPO, "go.sum"), os.path.join(VERIF, "gov", "extra.sum")):
        with open(f) as fh:
            sums.update(l for l in fh.read().split("\n") if l)
    with open(os.path.join(mf, "go.sum"), "w") as fh:
        fh.write("\n".join(sorted(sums)) + "\n")
    r = dict(e)
    r["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(mf, "go.mod")
    return e, r


def tool_hash():
    h = hashlib.sha256()
    d = os.path.join(VERIF, "gov")
    for f in sorted(os.listdir(d)):
        if f.endswith((".go", ".mod", ".sum")):
            with open(os.path.join(d, f), "rb") as fh:
                h.update(f.encode() + fh.read())
    return h.hexdigest()[:16]


def build_tool(env):
    """Builds gov, or reuses the binary made from the same sources."""
    out = os.path.join(VERIF, ".bin", "gov-" + tool_hash())
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    p = sh(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "gov"), env=env)
    if p.returncode != 0:
        sys.stderr.write(p.stdout)
        raise SystemExit("cannot build gov")
    os.replace(tmp, out)
    return out


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as fh:
            for l in fh:
                m = re.match(r"known: property=(\S+) obligation=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def run_go_test(gov, genv, scratch, cfg, run, extra, timeout, tag):
    """Runs witness tests over the overlay; returns (status, output)."""
    wo = os.path.join(scratch, "wo_" + tag)
    os.makedirs(wo, exist_ok=True)
    p = sh([gov, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-witnesses",
            os.path.join(VERIF, "witness"), "-witness", wo, "-pkgs", cfg["pkgs"]], env=genv)
    if p.returncode != 0:
        return "error", p.stdout
    env = dict(genv)
    env.update(extra)
    try:
        p = sh(["go", "test", "-vet=off", "-overlay", os.path.join(wo, "overlay.json"), "-count=1", "-v",
                "-timeout", "%ds" % timeout, "-run", "^(" + run + ")$", "./" + cfg["wpkg"]],
               cwd=REPO, env=env, timeout=timeout + 60)
    except subprocess.TimeoutExpired as e:
        return "error", "timeout\n" + str(e.stdout)[-2000:]
    ws = [l[len("WITNESS "):] for l in p.stdout.split("\n") if l.startswith("WITNESS ")]
    if ws:
        return "witness", "\n".join(ws)
    if p.returncode == 0:
        return "none", p.stdout
    m = re.search(r"^(panic:|fatal error:).*", p.stdout, re.M)
    if m and "goroutine" in p.stdout:
        # A crash no recover can stop (a stack overflow, say): the log's last
        # CASE line names the input.
        cs = [l[len("CASE "):] for l in p.stdout.split("\n") if l.startswith("CASE ")]
        if cs:
            return "witness", m.group(0) + " on " + cs[-1]
    return "error", p.stdout[-4000:]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        code = decide(prop, tier, seed, cfg, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, cfg, t0, scratch):
    tenv, genv = go_env(scratch)
    genv["VERIF_SEED"] = str(seed)
    gov = build_tool(tenv)
    out = os.path.join(scratch, "report.json")
    gs = os.path.join(scratch, "gov")
    os.makedirs(gs)
    cmd = [gov, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-pkgs", cfg["pkgs"], "-prop", prop,
           "-scratch", gs, "-out", out, "-timeout", "20" if tier == "quick" else "60"]
    cenv = dict(genv)
    if tier == "thorough":
        cenv["GOV_CROSS"] = "1"
    try:
        p = sh(cmd, env=cenv, cwd=VERIF, timeout=700)
        log = p.stdout
    except subprocess.TimeoutExpired as e:
        log = "gov: timeout\n" + str(e.stdout or "")[-2000:]
    rep = None
    if os.path.exists(out):
        with open(out) as fh:
            rep = json.load(fh)
    failures = []
    if rep is None:
        failures = [{"obligation": "verifier-run", "status": "error", "solver_output": log[-3000:]}]
        rep = {"obligations": 1, "discharged": 0, "functions": [], "load_error": "no report", "notes": []}
    elif rep.get("load_error"):
        failures = [{"obligation": "contracts-attach-to-the-source", "status": "error", "solver_output": rep["load_error"]}]
        rep["obligations"] = max(1, rep.get("obligations") or 0)
    else:
        failures = rep.get("failures") or []
        if not rep.get("obligations"):
            failures = [{"obligation": "no-obligations", "status": "error", "solver_output": "nothing to prove"}]
    known = known_findings(prop)
    shown = []
    rest = []
    for f in failures:
        k = [x for x in known if x[0] == f["obligation"]]
        if k:
            if k[0] not in shown:
                shown.append(k[0])
        else:
            rest.append(f)
    for k in shown:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    bounded = []
    witness = None
    for b in cfg.get("bounded", []):
        n = b["quick"] if tier == "quick" else b["thorough"]
        st, o = run_go_test(gov, genv, scratch, cfg | {"wpkg": b.get("wpkg", cfg["wpkg"])}, b["test"], {"GOV_CASES": str(n)}, 600, "b")
        tried = sum(int(x) for x in re.findall(r"^TRIED (\d+)", o, re.M))
        bounded.append({"check": b["what"], "bound": "%d generated cases, seed %d" % (n, seed), "cases": tried, "result": st,
                        "detail": re.findall(r"^(?:PARSED|STAT) .*", o, re.M)})
        if st == "witness":
            witness = o
            rest.append({"obligation": "bounded:" + b["test"], "status": "failed", "kind": "bounded", "solver_output": o[:2000]})
        elif st == "error":
            rest.append({"obligation": "bounded:" + b["test"], "status": "error", "kind": "bounded", "solver_output": o[-3000:]})
    search = None
    if rest and witness is None and cfg.get("witness"):
        budget = 60 if tier == "quick" else 240
        search = {"budget_s": budget}
        st, o = run_go_test(gov, genv, scratch, cfg, cfg["witness"], {"GOV_BUDGET": str(budget)}, budget + 240, "w")
        search["result"] = st
        search["detail"] = o[-1500:] if st != "none" else ""
        if st == "witness":
            witness = o
    elif tier == "thorough" and cfg.get("witness") and not rest:
        st, o = run_go_test(gov, genv, scratch, cfg, cfg["witness"], {"GOV_BUDGET": "120"}, 500, "t")
        tried = sum(int(x) for x in re.findall(r"^TRIED (\d+)", o, re.M))
        search = {"budget_s": 120, "result": st, "cases": tried,
                  "note": "cross-check of contracts against the running code; not part of the proof"}
        if st == "witness":
            witness = o
            rest.append({"obligation": "specification-matches-execution", "status": "failed", "solver_output": o[:2000]})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": rep.get("obligations") or 0,
            "discharged": rep.get("discharged") or 0,
            "checker_cmd": "gov -repo %s -pkgs %s -prop %s (via check.py)" % (REPO, cfg["pkgs"], prop),
            "trusted_base": ASSUMPTIONS["trusted"],
            "functions_under_contract": rep.get("functions") or [],
            "functions_inlined_at_call_sites": rep.get("inlined") or [],
            "contracts_relied_on": rep.get("contracts_relied_on") or [],
            "library_models_assumed": rep.get("assumed_models") or [],
            "obligations_by_kind": rep.get("by_kind") or {},
            "discharged_by_backend": rep.get("by_backend") or {},
            "solver_calls": rep.get("solver_calls") or {},
            "solver_seconds": rep.get("solver_secs") or {},
            "units": rep.get("units") or 0,
            "samples": rep.get("samples") or [],
            "bounded_stand_ins": bounded,
            "contracts_without_a_function": rep.get("missing") or [],
        },
        "assumptions": ASSUMPTIONS["common"] + cfg.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(rest),
    }
    if search:
        ev["coverage"]["witness_search"] = search
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    print("%s: %d obligations, %d discharged, %d functions, %.1fs" % (
        prop, rep.get("obligations") or 0, rep.get("discharged") or 0, len(rep.get("functions") or []), wall))
    if not rest:
        return 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + ".txt")
    with open(rp, "w") as fh:
        fh.write("property %s: %d failed obligations\n" % (prop, len(rest)))
        if witness:
            fh.write("\nfailing input on the real code (specification functions as oracle):\n%s\n" % witness)
            fh.write("replay: VERIF_SEED=%d ./check.py %s\n" % (seed, prop))
        for f in rest:
            fh.write("\nobligation: %s\n" % f.get("obligation"))
            for k in ("kind", "status", "pos", "path", "goal", "solver_output"):
                if f.get(k):
                    fh.write("  %s: %s\n" % (k, f[k]))
        if search:
            fh.write("\nwitness search: %s\n" % json.dumps(search)[:3000])
    for f in rest[:10]:
        print("failed obligation: %s (%s)%s" % (f.get("obligation"), f.get("status"), " at " + f["pos"] if f.get("pos") else ""))
    if witness:
        print("failing input: " + witness.split("\n")[0][:600])
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if witness else " no-failing-input-found"))
    return 1


main()

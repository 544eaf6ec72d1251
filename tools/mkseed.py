#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the entries of seeds/*.py and confirms each one in a scratch copy.

usage: mkseed.py [ID...]
Each entry: seed(id, property, [(file, old, new[, count])], demo={pkg: go test source}, needs=, breaks=)
"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDS = {}

def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

DEMO = r'''#!/bin/bash
# exit 0 when the property holds on this input, non-zero otherwise
D=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
cp "$REPO/go.mod" "$S/go.mod"
sort -u "$REPO/go.sum" /opt/vp/extra.sum > "$S/go.sum"
export GOFLAGS="-mod=mod -modfile=$S/go.mod"
echo "{\"Replace\": {\"$REPO/@PKG@/zz_demo_test.go\": \"$D/demo_test.go.txt\"}}" > "$S/overlay.json"
cp "$D/demo_test.go.txt" "$S/demo_test.go"
echo "{\"Replace\": {\"$REPO/@PKG@/zz_demo_test.go\": \"$S/demo_test.go\"}}" > "$S/overlay.json"
cd "$REPO" && go test -vet=off -count=1 -overlay "$S/overlay.json" -run 'TestSeedDemo$' ./@PKG@
'''.replace('echo "{\\"Replace\\": {\\"$REPO/@PKG@/zz_demo_test.go\\": \\"$D/demo_test.go.txt\\"}}" > "$S/overlay.json"\n', '')

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def goenv(repo, scratch):
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.27.3/bin:" + e["PATH"], GOROOT="/opt/veriftools/go1.27.3", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    shutil.copy(repo + "/go.mod", scratch + "/go.mod")
    sh("sort -u %s/go.sum /opt/vp/extra.sum > %s/go.sum" % (repo, scratch), "/")
    e["GOFLAGS"] = "-mod=mod -modfile=%s/go.mod" % scratch
    return e

def main():
    for f in sorted(glob.glob(HERE + "/seeds/*.py")):
        exec(compile(open(f).read(), f, "exec"), globals())
    ids = sys.argv[1:] or sorted(SEEDS)
    tmp = tempfile.mkdtemp(prefix="mkseed")
    repo = tmp + "/repo"
    sh(["git", "worktree", "prune"], "/repo")
    sh(["git", "clone", "-q", "/repo", repo], "/")
    env = goenv(repo, tmp)
    # the text of the original repository, to see that a seed changes original lines
    ok = True
    try:
        for id in ids:
            s = SEEDS[id]
            sh("git checkout -q -- . && git clean -qfd", repo)
            for ed in s["edits"]:
                p = repo + "/" + ed[0]
                t = open(p).read()
                want = ed[3] if len(ed) > 3 else 1
                if t.count(ed[1]) != want:
                    print(id, "edit matches", t.count(ed[1]), "times:", ed[1][:60]); ok = False; break
                open(p, "w").write(t.replace(ed[1], ed[2]))
            else:
                diff = sh("git diff", repo).stdout
                d = VERIF + "/seeded/" + id
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                (pkg, src), = s["demo"].items()
                open(d + "/patch.diff", "w").write(diff)
                open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", pkg)); os.chmod(d + "/demo.sh", 0o755)
                open(d + "/demo_test.go.txt", "w").write(src.lstrip())
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                open(d + "/meta.json", "a").write("\n")
                b = sh("go build ./... && go vet ./%s >/dev/null 2>&1; go test -count=1 ./..." % pkg, repo, env=env)
                bad = [l for l in b.stdout.splitlines() if l.startswith(("FAIL", "--- FAIL", "#"))]
                dm = sh(["bash", d + "/demo.sh"], repo, env={k: v for k, v in os.environ.items()})
                sh("git checkout -q -- .", repo)
                d0 = sh(["bash", d + "/demo.sh"], repo, env={k: v for k, v in os.environ.items()})
                good = b.returncode == 0 and not bad and dm.returncode != 0 and "[build failed]" not in dm.stdout and d0.returncode == 0
                print(id, s["prop"], "ok" if good else "BAD tests=%d demo_patched=%d demo_base=%d" % (b.returncode, dm.returncode, d0.returncode))
                if not good:
                    ok = False
                    print("\n".join(bad[:8])); print(b.stdout[-600:] if b.returncode else ""); print("PATCHED", dm.stdout[-700:]); print("BASE", d0.stdout[-700:])
                    shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
    sys.exit(0 if ok else 1)

main()

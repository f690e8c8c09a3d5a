#!/usr/bin/env python3
"""mkseed.py ID...: creates /verif/seeded/ID from tools/seeds/*.py and verifies it: the patch applies, the stable tests pass,
the demonstration fails with the patch and passes without it, and whether the property's check reports it.
A seed is seed(id, property, needs, breaks, edits=[(file, old, new)...], pkg, test) with a Go test as demonstration."""
import glob, json, os, subprocess, sys, shutil

# Scratch copy of /repo in which the changes are made.
REPO = "/tmp/seedrepo"
BASE = "0ad5650"  # the original code

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}

HEAD = '''#!/bin/bash
# Runs the test beside this file inside the repository's package (overlay, nothing is written to the repository).
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME="$T/home" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" TMPDIR="$T"
mkdir -p "$HOME"
'''


def seed(id, prop, needs, breaks, edits, pkg, test):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


CLEAN = [""]


def tests():
    """The failing unit tests of the copy (the integration tests are left to vcheck)."""
    t = sh("cd %s/src && rm -rf .test-cache && go build ./... && go test -vet=off -count=1 -p 1 ./... 2>&1 | grep -E '^(--- FAIL|FAIL|\\s+--- FAIL)' | sed 's/ *[(0-9.]*s)*$//; s/[0-9.]*s$//'; rm -rf .test-cache" % REPO)
    return t.stdout.strip()


def touches_original(id):
    """A removed line (or a neighbour of an inserted one) has to be part of the original repository."""
    old, removed, around = {}, False, False
    for line in open(os.path.join(ROOT, "seeded", id, "patch.diff")):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            blame = sh("git -C %s blame -s HEAD -- %s" % (REPO, f)).stdout.split("\n")
            base = [b.lstrip("^").startswith(BASE) for b in blame]
        elif line.startswith("@@"):
            n = int(line.split()[1][1:].split(",")[0]) - 1
        elif line[0] in " -" and not line.startswith("---"):
            if line[0] == "-":
                removed = True
                if base[n]:
                    around = True
            n += 1
    return around or not removed


def bookseed(id, prop, needs, breaks, edits, articles, must=(), mustnot=(), config="", order=(), first="A"):
    """A seed whose demonstration builds a book and looks for texts in its HTML."""
    q = lambda x: json.dumps(x, ensure_ascii=False)
    body = "package main\n\nimport (\n\t\"strings\"\n\t\"testing\"\n\t\"wiki2book/config\"\n)\n\nvar _ = config.Current\n\nfunc TestZZDemo(t *testing.T) {\n\tw := newDemoWorld(t)\n"
    for k, v in articles.items():
        body += "\tw.articles[%s] = %s\n" % (q(k), q(v))
    if config:
        body += "\t" + config.replace("\n", "\n\t") + "\n"
    body += "\tb := w.book(%s)\n" % ", ".join(q(o) for o in (order or [first]))
    for m in must:
        body += "\tif !strings.Contains(b, %s) {\n\t\tt.Fatalf(\"missing %%q in: %%s\", %s, b)\n\t}\n" % (q(m), q(m))
    for m in mustnot:
        body += "\tif strings.Contains(b, %s) {\n\t\tt.Fatalf(\"unexpected %%q in: %%s\", %s, b)\n\t}\n" % (q(m), q(m))
    body += "}\n"
    seed(id, prop, needs, breaks, edits, "main", body)


def make(id):
    s = SEEDS[id]
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert sh("git -C %s status --porcelain" % REPO).stdout.strip() == "", "repo not clean"
    try:
        for f, old, new in s["edits"]:
            p = REPO + "/src/" + f
            t = open(p).read()
            assert t.count(old) == 1, "%s: %s: %d occurrences of %r" % (id, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % REPO).stdout)
    finally:
        sh("git -C %s checkout -- ." % REPO)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    body, files = s["test"], {}
    if s["pkg"] == "main":
        files["zz_world_test.go"] = open(os.path.join(ROOT, "tools/seeds/world.go.txt")).read()
    files["zz_demo_test.go"] = body
    ov = []
    pkgdir = "" if s["pkg"] == "main" else s["pkg"] + "/"
    for f, c in files.items():
        open(os.path.join(d, f), "w").write(c)
        ov.append('"\'"$R"\'/src/%s%s": "\'"$D"\'/%s"' % (pkgdir, f, f))
    demo = HEAD + "echo '{\"Replace\": {" + ", ".join(ov) + "}}' > \"$T/overlay.json\"\n"
    demo += 'cd "$R/src" && timeout 200 go test -count=1 -vet=off -overlay "$T/overlay.json" -run "TestZZDemo" ./%s\n' % pkgdir
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)


def verify(id, check=True):
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    r = sh("cd %s && bash %s/demo.sh" % (REPO, d))
    if r.returncode != 0:
        print(id, "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:])
        return
    r = sh("git -C %s apply %s/patch.diff" % (REPO, d))
    if r.returncode != 0:
        print(id, "PATCH DOES NOT APPLY", r.stdout)
        return
    try:
        t = tests()
        r = sh("cd %s && bash %s/demo.sh" % (REPO, d))
        res = "?"
        if check:
            c = sh("cd %s && VERIF_REPO=%s bash run.sh %s" % (ROOT, REPO, prop))
            if c.returncode not in (0, 1):
                res = "CHECK ERROR " + c.stdout[-600:]
            else:
                res = ("caught: " + " ".join(c.stdout.split("\n")[1:3])[:300]) if c.returncode == 1 else "MISSED"
        ok = t == CLEAN[0]
        print(id, prop, "tests ok" if ok else "TESTS: " + t.strip()[-300:], "demo fails (good)" if r.returncode != 0 else "DEMO PASSES WITH BUG", "|", res)
        if "build failed" in r.stdout:
            print("   demo build failure:", r.stdout[-800:])
    finally:
        sh("git -C %s checkout -- ." % REPO)


if __name__ == "__main__":
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/*.py"))):
        exec(open(f).read())
    ids = sys.argv[1:]
    mode = "both"
    if ids and ids[0] in ("verify", "make"):
        mode, ids = ids[0], ids[1:]
    if not ids:
        ids = sorted(SEEDS)
    shutil.rmtree(REPO, ignore_errors=True)
    sh("git clone -q /repo %s" % REPO)
    if mode != "make":
        CLEAN[0] = tests()
    for i in ids:
        if mode != "verify":
            try:
                make(i)
            except AssertionError as e:
                print(e)
                continue
        if not touches_original(i):
            print(i, "CHANGES ONLY LINES OF OUR OWN COMMITS")
        if mode != "make":
            verify(i)
        sys.stdout.flush()
    shutil.rmtree(REPO, ignore_errors=True)

#!/usr/bin/env python3
"""Builds one harness binary from /repo's working tree plus the harness sources of /verif.

build.py NAME [--main] [--sync] [--os] [--points] [--race] [--out FILE]

NAME      directory under /verif/harness holding the harness sources.
--main    NAME holds *_test.go files that are compiled into /repo/src's package main (go test -c).
--sync    import "sync" of every non-test repository file is redirected to the scheduler's vsync package.
--os      import "os" of every non-test repository file is redirected to the recording package vos.
--exec    import "os/exec" is redirected to vexec, which runs stand-ins for external programs in the process.
--points  a scheduling point is inserted at the start of every function of the repository.
--time    time.Sleep and friends go to the package vtime.
--race    build with the race detector.

Nothing below /repo is written: everything goes through `go build -overlay` and `-modfile`.
"""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.setdefault("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["GOTOOLCHAIN"] = "local"
    e["GOPROXY"] = "off"
    e["GOFLAGS"] = "-mod=mod"
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def sh(args, cwd=None, capture=False):
    r = subprocess.run(args, cwd=cwd, env=env(), stdout=subprocess.PIPE if capture else None, text=True)
    if r.returncode != 0:
        sys.stderr.write("build.py: failed: %s\n" % " ".join(args))
        sys.exit(3)
    return r.stdout


def main():
    args = sys.argv[1:]
    name = args[0]
    flags = set(a for a in args[1:] if a.startswith("--") and not a.startswith("--out="))
    out = None
    for a in args[1:]:
        if a.startswith("--out="):
            out = a[6:]
    bdir = os.path.join(VERIF, ".build", name + "".join(sorted(flags)))
    os.makedirs(bdir, exist_ok=True)
    if out is None:
        out = os.path.join(bdir, name + ".bin")

    # 1. sigolo copy: same API, but fatal errors go to a hook and output can be silenced.
    sdir = os.path.join(bdir, "sigolo")
    src_sig = sh(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/hauke96/sigolo/v2"], cwd=SRC, capture=True).strip()
    if not os.path.isdir(sdir):
        os.makedirs(sdir)
    for f in os.listdir(src_sig):
        if f.endswith("_test.go") or not (f.endswith(".go") or f == "go.mod"):
            continue
        text = open(os.path.join(src_sig, f)).read()
        text = text.replace("os.Exit(1)", "verifExit()")
        text = re.sub(r"(func \(l \*Logger\) log\([^\n]*\{\n)", r"\1\tverifNote(level, message)\n\tif VerifSilent {\n\t\treturn\n\t}\n", text)
        text = re.sub(r"(func increaseTraceId\(\) \{\n)", r"\1\tif VerifSilent {\n\t\treturn\n\t}\n", text)
        put(os.path.join(sdir, f), text)
    put(os.path.join(sdir, "verif.go"), '''package sigolo

import (
	"os"
	"sync"
)

var (
	VerifSilent    bool
	VerifOnFatal   func(message string)
	VerifLastError string
	verifMutex     sync.Mutex
)

func verifNote(level Level, message string) {
	if level >= LOG_ERROR {
		verifMutex.Lock()
		VerifLastError = message
		verifMutex.Unlock()
	}
}

func verifExit() {
	if VerifOnFatal != nil {
		verifMutex.Lock()
		m := VerifLastError
		verifMutex.Unlock()
		VerifOnFatal(m)
	}
	os.Exit(1)
}
''')

    # 2. go.mod / go.sum copies with a replace for sigolo.
    mod = open(os.path.join(SRC, "go.mod")).read()
    mod += "\nreplace github.com/hauke96/sigolo/v2 => %s\n" % sdir
    put(os.path.join(bdir, "go.mod"), mod)
    put(os.path.join(bdir, "go.sum"), open(os.path.join(SRC, "go.sum")).read())

    # 3. overlay.
    replace = {}
    hroot = os.path.join(VERIF, "harness")
    for lib in ("vlib", "vsched", "vsync", "vos", "vexec", "vtime"):
        d = os.path.join(hroot, lib)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".go"):
                    replace[os.path.join(SRC, "zz_verif", lib, f)] = os.path.join(d, f)
    hdir = os.path.join(hroot, name)
    for f in sorted(os.listdir(hdir)):
        if not f.endswith(".go"):
            continue
        if "--main" in flags:
            replace[os.path.join(SRC, f)] = os.path.join(hdir, f)
        else:
            replace[os.path.join(SRC, "zz_verif", name, f)] = os.path.join(hdir, f)
    if "--main" in flags:
        for f in sorted(os.listdir(SRC)):
            if f.endswith("_test.go"):
                replace[os.path.join(SRC, f)] = ""
    resets = []
    if "--main" in flags or flags & {"--sync", "--os", "--exec", "--points", "--time"}:
        tool = os.path.join(VERIF, ".build", "rewrite.bin")
        sh(["go", "build", "-o", tool, os.path.join(VERIF, "tools", "rewrite.go")], cwd=os.path.join(VERIF, "tools"))
        rdir = os.path.join(bdir, "rewritten")
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        for root, dirs, files in os.walk(SRC):
            dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d not in ("testdata",))
            for f in sorted(files):
                p = os.path.join(root, f)
                if not f.endswith(".go") or f.endswith("_test.go"):
                    continue
                rel = os.path.relpath(p, SRC)
                dst = os.path.join(rdir, rel.replace("/", "__"))
                extra = []
                if "--main" in flags and root == SRC:
                    resets.append("zzReset%d" % len(resets))
                    extra = ["--reset=" + resets[-1]]
                sh([tool, p, dst] + sorted(flags & {"--sync", "--os", "--exec", "--points", "--time"}) + extra)
                if os.path.exists(dst):
                    replace[p] = dst
    if "--main" in flags:
        # resetGlobals gives the variables of package main their initial values.
        put(os.path.join(bdir, "zz_reset.go"), "package main\n\nfunc resetGlobals() {\n%s}\n" % "".join("\t%s()\n" % r for r in resets))
        replace[os.path.join(SRC, "zz_reset.go")] = os.path.join(bdir, "zz_reset.go")
    ov = os.path.join(bdir, "overlay.json")
    put(ov, json.dumps({"Replace": replace}, indent=1))

    # 4. build.
    cmd = ["go"]
    if "--main" in flags:
        cmd += ["test", "-c", "-vet=off"]
    else:
        cmd += ["build"]
    cmd += ["-modfile=" + os.path.join(bdir, "go.mod"), "-overlay=" + ov, "-o", out]
    if "--race" in flags:
        cmd.append("-race")
    cmd.append("." if "--main" in flags else "./zz_verif/" + name)
    sh(cmd, cwd=SRC)
    print(out)


def put(path, text):
    if os.path.exists(path):
        try:
            if open(path).read() == text:
                return
            os.chmod(path, 0o644)
        except OSError:
            pass
    with open(path, "w") as f:
        f.write(text)


main()

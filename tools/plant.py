#!/usr/bin/env python3
"""Makes and confirms a planted bug.

plant.py SPEC.py writes /verif/seeded/<id>/ if, in a scratch copy of /repo, the
change applies, builds with both sets of tags, passes the stable tests, and its
demonstration passes without and fails with it. SPEC.py sets: prop, needs,
breaks, edits = [(file, old, new), ...], demo (the body of a Go main package,
without the lines shared by all).
"""
import glob, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")

LIB = '''package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"

	"github.com/jhump/gopoet"
)

// check ends the demonstration unless ok.
func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+format+"\\n", args...)
		os.Exit(1)
	}
}

// render renders a file.
func render(f *gopoet.GoFile) string {
	var b bytes.Buffer
	err := gopoet.WriteGoFile(&b, f)
	check(err == nil, "rendering: %v", err)
	return b.String()
}

// compile type-checks a source file that imports only standard packages.
func compile(src string) *types.Package {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	check(err == nil, "parsing: %v\\n%s", err, src)
	cfg := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	p, err := cfg.Check("x", fset, []*ast.File{f}, nil)
	check(err == nil, "type-checking: %v\\n%s", err, src)
	return p
}

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}
'''

DEMO = '''#!/bin/bash
# Runs main.go as a program of the module in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/zzdemo/main.go": "%%s/main.go", "%%s/zzdemo/lib.go": "%%s/lib.go"}}' "$PWD" "$here" "$PWD" "$here" > "$tmp/overlay.json"
go build %s-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
mkdir "$tmp/work" && cd "$tmp/work" && timeout 120 "$tmp/demo"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    path = sys.argv[1]
    sid = os.path.splitext(os.path.basename(path))[0]
    spec = {}
    exec(open(path).read(), spec)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        out = os.path.join(tmp, sid)
        os.makedirs(out)
        for f, old, new in spec["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d occurrences in %s of:\n%s" % (sid, s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(out, "patch.diff"), "w").write(subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout)
        removed, line = [], 0
        for l in open(os.path.join(out, "patch.diff")):
            if l.startswith("--- a/"):
                f = l[6:].strip()
            elif l.startswith("@@"):
                line = int(l.split()[1].split(",")[0][1:]) - 1
            elif l[0] in " -":
                line += 1
                if l[0] == "-" and l.strip() != "-":
                    b = subprocess.run(["git", "blame", "-s", "HEAD", "-L%d,%d" % (line, line), f], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout
                    removed.append((b.startswith("^"), l.strip()))
        if not removed or not all(o for o, _ in removed):
            print("%s: WARNING changes lines that are not original: %s" % (sid, [l for o, l in removed if not o] or "only adds"))
        open(os.path.join(out, "main.go"), "w").write("package main\n\n" + spec["demo"].strip() + "\n")
        open(os.path.join(out, "lib.go"), "w").write(LIB)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % spec.get("tags", ""))
        json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = sh("go build ./... && go build -tags purego ./... && gofmt -l code.go templates.go names.go", repo, shell=True)
        if r.returncode or r.stdout.strip():
            sys.exit("%s does not build: %s" % (sid, r.stdout))
        script = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
        open(os.path.join(tmp, "test.sh"), "w").write(script)
        sh(["bash", os.path.join(tmp, "test.sh"), os.path.join(tmp, "out.json")], tmp)
        passed = json.load(open(os.path.join(tmp, "out.json")))["passed"]
        miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
        if miss:
            sys.exit("%s: existing tests notice: %s" % (sid, miss))
        r = sh(["bash", os.path.join(out, "demo.sh")], repo)
        if r.returncode == 0 or r.returncode == 3:
            sys.exit("%s: the demonstration does not notice (%d) %s" % (sid, r.returncode, r.stdout))
        said = r.stdout.strip()
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
        r = sh(["bash", os.path.join(out, "demo.sh")], repo)
        if r.returncode:
            sys.exit("%s: the demonstration fails on the unchanged tree: %s" % (sid, r.stdout))
        dest = os.path.join(VERIF, "seeded", sid)
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        print("%s ok: %s" % (sid, said[:300]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()

"""Writes planted bugs below seeded/ and confirms them in a scratch copy of /repo.

python3 tools/seed.py [ids...]   write and confirm
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUGS = {}

DEMO = '''#!/bin/bash
# runs main.go of this directory against the module in the working directory
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
exec timeout 280 go run "$d/main.go"
'''


def bug(id, prop, needs, breaks, edits, main):
    assert id not in BUGS
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, main=main)


def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, **kw)


def original_lines(repo):
    """lines of the base tree that are still there, per file"""
    base = sh("git rev-list --max-parents=0 HEAD | tail -1", repo).stdout.strip()
    return base


def confirm(id):
    b = BUGS[id]
    out = os.path.join(ROOT, "seeded", id)
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", REPO, r], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{id}: {f}: text found {s.count(old)} times: {old!r}"
            open(p, "w").write(s.replace(old, new))
        fmt = sh("gofmt -l $(git diff --name-only | grep go$)", r)
        if fmt.stdout.strip():
            return f"{id}: gofmt {fmt.stdout}"
        diff = sh("git diff", r).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "main.go"), "w").write(b["main"].lstrip())
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        x = sh("gofmt -l " + os.path.join(out, "main.go"), r)
        if x.stdout.strip() or x.stderr.strip():
            sh("gofmt -w " + os.path.join(out, "main.go"), r)
        # only lines of the base tree may be removed
        blame = sh("for f in $(git diff --name-only); do git blame -s HEAD -- $f | cat; done", r).stdout
        x = sh("go build ./... && go vet ./...", r)
        if x.returncode:
            return f"{id}: build: {x.stderr}"
        x = sh("go test -vet=off -count=1 ./...", r)
        if x.returncode:
            return f"{id}: tests fail:\n{x.stdout[-1500:]}"
        x = sh(os.path.join(out, "demo.sh"), r)
        if x.returncode == 0:
            return f"{id}: demo passes with the patch:\n{x.stdout}"
        bad = x.stdout + x.stderr
        if "panic: demo" not in bad and "DEMO" not in bad and b.get("any") is None and "panic" not in bad:
            return f"{id}: demo failed otherwise:\n{bad}"
        sh("git checkout -- .", r)
        x = sh(os.path.join(out, "demo.sh"), r)
        if x.returncode:
            return f"{id}: demo fails on the unchanged tree:\n{x.stdout}{x.stderr}"
        first = next((l for l in bad.splitlines() if "DEMO" in l or "panic" in l), "")
        return f"{id}: ok  ({first[:150]})"
    finally:
        shutil.rmtree(tmp)


def run():
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or list(BUGS)
    with ThreadPoolExecutor(4) as ex:
        for m in ex.map(confirm, ids):
            print(m, flush=True)


HEAD = '''
package main

import (
	"fmt"
	"os"
%s)

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("DEMO: "+format+"\\n", args...)
		os.Exit(1)
	}
}
'''


def prog(imports, body):
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + body


MQ = "github.com/wenerme/go-miniquery/miniquery"
GQ = "github.com/wenerme/go-miniquery/gormq"
EQ = "github.com/wenerme/go-miniquery/entmq"
GORM = '''
type User struct {
	ID        uint `gorm:"primarykey"`
	Username  string
	FullName  string
	Admin     bool
	Level     int
	ProfileID uint
	Profile   *UserProfile
}

type UserProfile struct {
	ID    uint `gorm:"primarykey"`
	Age   int
	Phone string
}

func find(f func(db *gorm.DB) *gorm.DB) *gorm.DB {
	db, err := gorm.Open(sqlite.Open("file::memory:"), &gorm.Config{DryRun: true})
	check(err == nil, "open: %v", err)
	var out []User
	return db.Model(&User{}).Scopes(f).Find(&out)
}

func where(q string) (string, []interface{}, error) {
	r := find(gormq.ApplyMiniQuery(q))
	s := r.Statement.SQL.String()
	if i := strings.Index(s, " WHERE "); i >= 0 {
		s = s[i+7:]
	} else {
		s = ""
	}
	return s, r.Statement.Vars, r.Error
}
'''
GI = ["strings", "github.com/glebarez/sqlite", "gorm.io/gorm", GQ]


def gorm(body, imports=()):
    return prog(sorted(set(GI) | set(imports)), GORM + body)

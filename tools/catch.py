#!/usr/bin/env python3
"""Run the checks on every planted bug, each in a scratch copy of the repository.

usage: catch.py <analyser binary> [--all] [bug ...]
With --all every check that looks at the changed package is run, otherwise only the check of the
property of the bug.
Prints a Markdown table row per bug."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "--all"]
every = "--all" in sys.argv
binary, bugs = args[0], args[1:] or sorted(os.listdir(root + "/seeded"))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]


# first letters of the properties that look at a package
LOOKS = {"gormq": "GX", "entmq": "SQX", "miniquery": "PGX"}


def related(bug):
    files = [l[6:] for l in open(f"{root}/seeded/{bug}/patch.diff") if l.startswith("+++ b/")]
    letters = "".join(LOOKS.get(f.split("/")[0], "PGSQX") for f in files)
    return [i for i in ids if i[0] in letters]


def run(bug):
    meta = json.load(open(f"{root}/seeded/{bug}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="catch-")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        os.mkdir(tmp + "/v")
        shutil.copy(root + "/known-findings.txt", tmp + "/v/")
        subprocess.run(["git", "-C", tmp + "/repo", "apply", f"{root}/seeded/{bug}/patch.diff"], check=True)
        caught, other = [], []
        for p in related(bug) if every else [meta["property"]]:
            r = subprocess.run([binary, p, tmp + "/repo", tmp + "/v"], capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout:
                caught.append(p)
            elif r.returncode != 0:
                other.append(p)
        return bug, meta, caught, other
    finally:
        shutil.rmtree(tmp)


missed = 0
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for bug, meta, caught, other in ex.map(run, bugs):
        p = meta["property"]
        missed += p not in caught
        rest = [c for c in caught if c != p]
        print(f"| {bug} | {meta['needs']} | {p if p in caught else 'missed'}{' (also ' + ', '.join(rest) + ')' if rest else ''}{' no answer: ' + ' '.join(other) if other else ''} |", flush=True)
print(f"{len(bugs)} bugs, {missed} missed", file=sys.stderr)

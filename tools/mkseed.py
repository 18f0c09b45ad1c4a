#!/usr/bin/env python3
"""mkseed.py SPEC.py...: each spec defines ID, PROP, NEEDS, BREAKS, EDITS
[(file, old, new)] and DEMO (Go source body); writes /verif/seeded/ID."""
import os, sys, subprocess, json, shutil, tempfile, re
HEAD = '''package main

import (
%s
	"github.com/cloudprivacylabs/lpg/v2"
)

func fail(f string, a ...any) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

var _ = lpg.NewGraph

'''
def build(ID, PROP, NEEDS, BREAKS, EDITS, DEMO, IMPORTS=(), RACE=False):
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % w, shell=True, check=True)
        base = subprocess.run(["git", "-C", "/repo", "ls-tree", "-r", "--name-only", "5505cff"], capture_output=True, text=True).stdout.split()
        subprocess.run("cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x" % w, shell=True, check=True)
        for f, old, new in EDITS:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("%s: %s: old text occurs %d times" % (ID, f, s.count(old)))
                return False
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run("cd %s && gofmt -l . ; go build ./..." % w, shell=True, capture_output=True, text=True)
        if r.stdout.strip() or r.returncode:
            print(ID, "gofmt/build:", r.stdout, r.stderr); 
            if r.returncode: return False
        diff = subprocess.run("cd %s && git diff" % w, shell=True, capture_output=True, text=True).stdout
        # changed lines must exist in the original
        orig = {}
        for f, _, _ in EDITS:
            orig[f] = set(l.strip() for l in subprocess.run(["git", "-C", "/repo", "show", "5505cff:" + f], capture_output=True, text=True).stdout.split("\n"))
        cur = None
        removed_orig = False
        for l in diff.split("\n"):
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("-") and not l.startswith("---"):
                if l[1:].strip() and l[1:].strip() not in orig[cur]:
                    print("%s: note: removed line is not original: %s" % (ID, l))
                else: removed_orig = True
        d = "/verif/seeded/" + ID
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        imports = sorted(set(["fmt", "os"] + list(IMPORTS)))
        open(d + "/demo.go", "w").write(HEAD % "\n".join('\t"%s"' % i for i in imports) + DEMO.strip() + "\n")
        subprocess.run(["gofmt", "-w", d + "/demo.go"])
        if RACE: open(d + "/race", "w").write("run the demonstration under the race detector\n")
        shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
        json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(d + "/meta.json", "w"), indent=1)
        return True
    finally:
        shutil.rmtree(w)
if __name__ == "__main__":
    os.environ["PATH"] += ":/usr/local/go/bin"
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            print(s["ID"], "ok" if build(**s) else "FAILED")

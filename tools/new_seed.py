"""new_seed.py ID SPEC.py: writes seeded/ID from SPEC, which defines edits, demo, prop, needs, breaks.

edits is a list of (file, old, new); every old must occur exactly once.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")


def main():
    name, spec = sys.argv[1:]
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    d = os.path.join(SEEDED, name)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && "
                       "git -c user.name=x -c user.email=x commit -qm x" % (tmp, tmp), shell=True, check=True)
        for path, old, new in ns["edits"]:
            p = os.path.join(tmp, path)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d occurrences of\n%s" % (path, s.count(old), old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tmp, stdout=subprocess.PIPE, check=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    for f in ("lib.py", "demo.sh"):
        shutil.copy(os.path.join(HERE, "demo", f), d)
    open(os.path.join(d, "demo.py"), "w").write(ns["demo"].strip() + "\n")
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


main()

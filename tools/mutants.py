"""Applies small changes to a scratch copy of /repo, one at a time, and runs the checks on it.

mutants.py LIST [filter]: LIST is a python file defining M = [(name, file, old, new, [properties])].
Prints which of the named checks report a violation. For development only; no check uses it."""
import os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("MUTANTS_DIR", "/tmp/mutants")
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
repo = os.path.join(WORK, "repo")
os.makedirs(WORK, exist_ok=True)
shutil.rmtree(repo, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
env = dict(os.environ, SUBSWEEP_REPO=repo, VERIF_SEED="1")
bad = 0
for name, file, old, new, props in ns["M"]:
    if flt not in name and flt not in props:
        continue
    p = os.path.join(repo, file)
    s = open(p).read()
    if s.count(old) < 1:
        print(f"{name}: TEXT NOT FOUND in {file}", flush=True)
        bad += 1
        continue
    open(p, "w").write(s.replace(old, new, 1))
    for prop in props:
        r = subprocess.run([os.path.join(VERIF, "bin", "check"), prop, "quick"], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        verdict = {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(r.returncode, f"exit {r.returncode}")
        why = r.stdout.strip().split("\n")
        print(f"{name}: {prop} {verdict} | {(why[-2] if r.returncode == 1 and len(why) > 1 else why[-1])[-150:]}", flush=True)
        bad += r.returncode != 1
    open(p, "w").write(s)
shutil.rmtree(repo, ignore_errors=True)
print("not caught:", bad)

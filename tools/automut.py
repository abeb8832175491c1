"""Mutation testing of the code the repository's own tests are compiled from.

automut.py OUT [file-filter] [seed] [limit per file]: makes one-token changes to non-test lines of a scratch copy of /repo and
runs the checks that are about the file. Prints the changes no check reports. For development only."""
import os, random, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "src/communication/exchange_communicator.rs": ["C01", "C04"],
    "src/communication/mpi_world.rs": ["C02", "C03", "C01"],
    "src/communication/data_by_rank.rs": ["C05", "C01"],
    "src/communication/communicated_option.rs": ["C11"],
    "src/communication/sized_communicator.rs": ["C01", "C02", "C05"],
    "src/io/file_distribution.rs": ["C06", "C07", "C04"],
    "src/io/mod.rs": ["C06", "C07", "C04"],
    "src/peano_hilbert.rs": ["C08"],
    "src/extent.rs": ["C10", "C11"],
    "src/quadtree/node_index.rs": ["C17"],
    "src/sweep/count_by_dir.rs": ["C12"],
    "src/sweep/direction/mod.rs": ["C13"],
    "src/sweep/direction/healpix.rs": ["C13"],
    "src/voronoi/math/utils.rs": ["C14", "C15"],
    "src/voronoi/math/traits.rs": ["C15", "C14"],
    "src/voronoi/math/precision_types.rs": ["C14", "C15"],
    "src/voronoi/indexed_arena.rs": ["C16"],
}
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
        (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
        (r"\b(\d+\.\d+)\b", r"(\1 + 0.5)"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
        (r"\.insert\((.*)\);$", r".clone();"), (r"\bx\b", "y"), (r"\by\b", "z"), (r"\bz\b", "x"), (r" % ", " / "), (r" << ", " >> "), (r" \| ", " & "),
        (r"p1", "p2"), (r"Less", "Greater"), (r"Positive$", "Negative"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.abs\(\)", ""),
        (r"min_by", "max_by"), (r"(\w+)\.0\b", r"\1.1"), (r"\[i\]\[j\]", "[j][i]"), (r"^(\s+)(self\.[\w.]+\(.*\)|[\w.\[\]]+ [+-]?= .*);$", r"\1;"),
        (r"^(\s+)return .*;$", r"\1;"), (r"\bSome\((\w+)\)", r"None"), (r"!(\w)", r"\1"), (r"wrapping_add", "wrapping_sub"), (r"floor", "ceil"), (r"ceil", "floor")]
out, flt = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ""
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
limit = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
work = os.environ.get("MUTANTS_DIR", "/tmp/automut")
repo = os.path.join(work, "repo")
shutil.rmtree(repo, ignore_errors=True)
os.makedirs(work, exist_ok=True)
subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
env = dict(os.environ, SUBSWEEP_REPO=repo, VERIF_SEED="1")
cands = []
for f in FILES:
    if flt not in f:
        continue
    lines = open(os.path.join(repo, f)).read().split("\n")
    for n, line in enumerate(lines):
        if "#[cfg(test)]" in line:
            break
        if re.match(r"\s*(//|use |#|debug_assert|assert|info!|warn!|error!|pub fn|fn |impl|type |pub struct|struct |pub trait)", line) or "panic!" in line:
            continue
        seen = set()
        for a, b in SUBS:
            for m in re.finditer(a, line):
                new = line[:m.start()] + m.expand(b) + line[m.end():]
                if a.startswith("^"):
                    new = re.sub(a, b, line)
                if new != line and new not in seen:
                    seen.add(new)
                    cands.append((f, n, new))
rnd.shuffle(cands)
picked, per = [], {}
for c in cands:
    per[c[0]] = per.get(c[0], 0) + 1
    if per[c[0]] <= limit:
        picked.append(c)
cands = picked
log = open(out, "w")
count = {"caught": 0, "missed": 0, "no build": 0, "no answer": 0}
for f, n, new in cands:
    p = os.path.join(repo, f)
    s = open(p).read()
    lines = s.split("\n")
    old, lines[n] = lines[n], new
    open(p, "w").write("\n".join(lines))
    verdict = "missed"
    for prop in FILES[f]:
        r = subprocess.run([os.path.join(VERIF, "bin", "check"), prop, "quick"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            verdict = "caught"
            break
        if r.returncode == 2:
            verdict = "no build" if "could not compile" in r.stdout or "error" in r.stdout[-400:] else "no answer"
            break
    count[verdict] += 1
    if verdict != "caught" and verdict != "no build":
        log.write(f"{verdict}: {f}:{n+1}\n  - {old.strip()}\n  + {new.strip()}\n")
        if verdict == "no answer":
            log.write("    " + r.stdout[-300:].replace("\n", " | ") + "\n")
        log.flush()
    open(p, "w").write(s)
    open(out + ".count", "w").write(f"{count} of {len(cands)}\n")
log.write(f"{count}\n")
shutil.rmtree(repo, ignore_errors=True)

#!/usr/bin/env python3
"""plant.py BUGS.py ... : writes seeded/<id>/ for every entry of BUGS in the given files.

Each entry: id, property, edits [(file, old, new)], demo (Rust, appended to the file `where`),
ranks (optional), needs, breaks. The edits are made in a scratch copy of /repo's HEAD."""
import json, os, shutil, stat, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    tmp = tempfile.mkdtemp(prefix="plant")
    work = os.path.join(tmp, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
    try:
        for path in sys.argv[1:]:
            env = {}
            exec(open(path).read(), env)
            for b in env["BUGS"]:
                subprocess.run(["git", "-C", work, "checkout", "-q", "--", "."], check=True)
                for f, old, new in b["edits"]:
                    p = os.path.join(work, f)
                    s = open(p).read()
                    assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                    open(p, "w").write(s.replace(old, new))
                d = os.path.join(VERIF, "seeded", b["id"])
                os.makedirs(d, exist_ok=True)
                diff = subprocess.run(["git", "-C", work, "diff"], check=True, capture_output=True).stdout
                assert diff
                open(os.path.join(d, "patch.diff"), "wb").write(diff)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(os.path.join(d, "meta.json"), "w"), indent=1)
                if b.get("full"):
                    continue
                shutil.copy(os.path.join(VERIF, "tools/seed/demo.sh"), d)
                imports = b.get("uses", "use super::*;")
                body = b["demo"]
                if b.get("ranks"):
                    body += "\n        unsafe { mpi::ffi::MPI_Finalize() };\n"
                    open(os.path.join(d, "demo.ranks"), "w").write(str(b["ranks"]) + "\n")
                rs = "\n#[cfg(test)]\nmod planted_demo {\n    " + imports + "\n\n    #[test]\n    fn planted_demo() {\n" + body + "\n    }\n}\n"
                open(os.path.join(d, "demo.rs"), "w").write(rs)
                open(os.path.join(d, "demo.where"), "w").write(b["where"] + "\n")
                print("wrote", b["id"])
    finally:
        shutil.rmtree(tmp)


main()

"""Builds the harnesses from /repo's working tree."""
import fcntl, os, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SUBSWEEP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true")


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(f"{' '.join(cmd)} in {cwd}: exit {p.returncode}\n{p.stdout[-2500:]}")


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, f".lock-{name}"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *_):
        self.f.close()


def build_core():
    with Lock("core"):
        tools = os.path.join(BUILD, "target-tools")
        run(["cargo", "build", "--release", "--offline", "-q", "--target-dir", tools],
            os.path.join(VERIF, "tools", "coreview"))
        view = os.path.join(BUILD, "coreview")
        run([os.path.join(tools, "release", "coreview"), REPO, view,
             os.path.join(VERIF, "tools", "core_rules.txt")], VERIF)
        feats = []
        if subprocess.run(["grep", "-rqs", "fn get_rotation_matrix", os.path.join(view, "src")]).returncode == 0:
            feats = ["--features", "rotation"]
        target = os.path.join(BUILD, "target-core")
        run(["cargo", "build", "--offline", "-q", "--target-dir", target] + feats,
            os.path.join(VERIF, "harness_core"))
        return os.path.join(target, "debug", "harness_core")


def build_full(harness="harness_full"):
    with Lock("full"):
        tools = os.path.join(BUILD, "target-tools")
        with Lock("core"):
            run(["cargo", "build", "--release", "--offline", "-q", "--target-dir", tools],
                os.path.join(VERIF, "tools", "coreview"))
        view = os.path.join(BUILD, "fullview")
        run([os.path.join(tools, "release", "coreview"), "--full", REPO, view,
             os.path.join(VERIF, "shims")], VERIF)
        target = os.path.join(BUILD, "target-full")
        run(["cargo", "build", "--offline", "-q", "--target-dir", target],
            os.path.join(VERIF, harness))
        return os.path.join(target, "debug", harness)


def build_prog():
    return build_full("harness_prog")


if __name__ == "__main__":
    import sys
    try:
        print(build_core())
        print(build_full())
        print(build_prog())
    except BuildError as e:
        print(e)
        sys.exit(1)

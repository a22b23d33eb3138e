#!/usr/bin/env python3
"""Driver of the checks:  check.py setup | check.py <property> [--tier quick|thorough] [--replay FILE] [...]

Mirrors /repo's current working tree into build/tree (only files whose content changed get a new time stamp),
builds what the check needs incrementally and runs the check's explorer."""
import fcntl, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TREE = os.path.join(BUILD, "tree")
OBJ = os.path.join(BUILD, "h")
sys.path.insert(0, VERIF)
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))


def same(a, b):
    try:
        sa, sb = os.stat(a), os.stat(b)
        if sa.st_size != sb.st_size:
            return False
        with open(a, "rb") as x, open(b, "rb") as y:
            return x.read() == y.read()
    except FileNotFoundError:
        return False


def mirror():
    want = set()
    for top in ("src", "thirdparty", "extras/bindings", "tools/profiling"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            for f in files:
                want.add(os.path.relpath(os.path.join(d, f), REPO))
    want.add("CMakeLists.txt")
    changed = 0
    for rel in sorted(want):
        s, t = os.path.join(REPO, rel), os.path.join(TREE, rel)
        if not same(s, t):
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(s, t)  # new time stamp
            changed += 1
    for d, dirs, files in os.walk(TREE):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), TREE)
            if rel not in want:
                os.unlink(os.path.join(d, f))
                changed += 1
    return changed


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G")
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror()
        if not os.path.exists(os.path.join(OBJ, "build.ninja")):
            os.makedirs(OBJ, exist_ok=True)
            cmd = ["cmake", "-G", "Ninja", "-S", os.path.join(VERIF, "harness"), "-B", OBJ, "-DREPO=" + TREE]
            if shutil.which("ccache"):
                cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
            r = run(cmd, env=env)
            if r.returncode:
                print(r.stdout[-4000:])
                shutil.rmtree(OBJ, ignore_errors=True)
                return False
        r = run(["ninja", "-C", OBJ] + targets, env=env)
        if r.returncode:
            print(r.stdout[-3000:])
            return False
    return True


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    what = sys.argv[1]
    if what == "setup":
        targets = sorted({t for c in CHECKS.values() for t in c["targets"]})
        return 0 if build(targets) else 2
    if what not in CHECKS:
        print("unknown property", what)
        return 2
    c = CHECKS[what]
    tier = os.environ.get("VERIF_TIER", "quick")
    rest, extra = sys.argv[2:], []
    while rest:
        a = rest.pop(0)
        if a == "--tier":
            tier = rest.pop(0)
        elif a == "--replay":
            f = json.load(open(rest.pop(0)))
            tier = f.get("tier", tier)
            os.environ.setdefault("VERIF_STDERR", "1")
            extra += ["--case", "%s:%d" % (f["stage"], f["case"])]
        else:
            extra.append(a)
    if not build(c["targets"]):
        print("the check could not be built")
        return 2
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    cmd = [os.path.join(OBJ, c["binary"]), "--lib", os.path.join(OBJ, c.get("lib", "librank.so")), "--tier", tier,
           "--replays", os.path.join(ev, "replays"), "--known", os.path.join(VERIF, "known_findings.txt")] + c.get("args", []) + extra
    if "--case" not in extra and "--stage" not in extra:
        cmd += ["--evidence", os.path.join(ev, what + ".json")]
    sys.stdout.flush()
    rc = subprocess.run(cmd).returncode
    return rc if rc in (0, 1) else 2


sys.exit(main())

#!/usr/bin/env python3
"""Makes and confirms planted bugs (maintenance tool; no check uses it).

plant.py SPEC.py ...        write /verif/seeded/<id>/ from specs (a spec calls bug(...) for each)
plant.py --confirm ID ...   build + stable tests with the patch, demo without and with, then the check"""
import glob, io, json, os, re, shutil, subprocess, sys, tarfile, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
KIT = ["stubs", "tools/msggen.py", "harness/mc.hpp", "harness/mc.cpp", "harness/ref.hpp", "harness/sched.hpp",
       "harness/sched.cpp", "harness/mapper_util.hpp"]

DEMO = """#!/bin/bash
# Compiles the sources in the working directory with stand-ins for ROS, and runs demo.cpp on them.
R="$PWD"
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
tar xzf "$D/kit.tgz" -C "$T" || exit 3
python3 "$T/tools/msggen.py" "$T/gen" "$T/stubs/msgs" "$R" || exit 3
F="-std=c++17 -O1 -w -pthread @FLAGS@ -I$T/stubs/shadow -I$T/stubs/include -I$T/harness -I$T/gen -I$R/include -I/usr/include/eigen3"
for s in @REPO_SRC@; do g++ $F -c "$R/src/$s.cpp" -o "$T/$s.o" & done
for s in @KIT_SRC@; do g++ @KFLAGS@ -I$T/stubs/shadow -I$T/stubs/include -I$T/harness -I$T/gen -I$R/include -I/usr/include/eigen3 -std=c++17 -O2 -w -pthread -c "$T/$s" -o "$T/$(basename $s).o" & done
g++ $F -c "$D/demo.cpp" -o "$T/demo.o" &
wait
g++ -pthread @LDFLAGS@ -o "$T/demo" "$T"/*.o @LIBS@ || exit 3
cd "$T" && GLOG_minloglevel=3 timeout 250 ./demo @ARGS@
"""
ALL = ["ceres_solver", "constraint", "graph", "motion_model", "ndt_mapper", "ndt_model", "occupancy_grid", "particle_filter", "scan", "scan_matcher_ndt"]
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset")) + " -rdynamic"


def head(path):
    return subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + path], stdout=subprocess.PIPE, text=True, check=True).stdout


def mine(path):
    """line numbers of HEAD's file that are not in the original"""
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", path], stdout=subprocess.PIPE, text=True, check=True).stdout
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "bdde976..HEAD"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    return {i for i, l in enumerate(out.splitlines(), 1) if any(b.startswith(l.split()[0].lstrip("^")) for b in base)}


def kit_tar(dst, node):
    def flt(ti):
        ti.mtime = 0
        ti.uid = ti.gid = 0
        ti.uname = ti.gname = ""
        return ti
    with tarfile.open(dst, "w:gz") as t:
        for k in KIT:
            if not node and ("sched" in k or "mapper_util" in k or "mc." in k):
                continue
            t.add(os.path.join(HERE, k), k, filter=flt)


def bug(id, property, edits, needs, breaks, demo, node=False, src=None, script=None):
    d = os.path.join(SEEDED, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp()
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run("git -C /repo archive HEAD | tar x -C " + w, shell=True, check=True)
    subprocess.run("cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % w, shell=True, check=True)
    for path, old, new in edits:
        p = os.path.join(w, path)
        s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff", "-U3"], stdout=subprocess.PIPE, text=True, check=True).stdout
    shutil.rmtree(w)
    # changes an original line?
    orig = False
    path = None
    for l in diff.splitlines():
        m = re.match(r"--- a/(.*)", l)
        if m:
            path, mm = m.group(1), mine(m.group(1))
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
            continue
        if path is None or l.startswith(("+++", "diff", "index")):
            continue
        if l.startswith("-"):
            if n in mm:
                print("note: %s removes line %d of %s, not an original one" % (id, n, path))
            else:
                orig = True
            n += 1
        elif not l.startswith("+"):
            n += 1
    if not orig:
        print("WARNING: %s changes no original line" % id)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if script:
        open(os.path.join(d, "demo.sh"), "w").write(script)
        for n, text in (demo or {}).items():
            open(os.path.join(d, n), "w").write(text)
        return
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    kit_tar(os.path.join(d, "kit.tgz"), node)
    src = src or (ALL if node else ["scan"])
    libs = "-lceres -lglog" if "ceres_solver" in src else ""
    s = DEMO.replace("@REPO_SRC@", " ".join(src)).replace("@LIBS@", libs + (" -ldl" if node else ""))
    if node:
        s = s.replace("@FLAGS@", "-fno-omit-frame-pointer -fsanitize=thread -DVERIF_SCHED").replace("@LDFLAGS@", WRAP)
        s = s.replace("@KIT_SRC@", "harness/mc.cpp harness/sched.cpp stubs/world.cpp").replace("@KFLAGS@", "-DVERIF_SCHED").replace("@ARGS@", '--out "$T/o.json" --replays "$T"')
    else:
        s = s.replace("@FLAGS@", "").replace("@LDFLAGS@", "").replace("@KIT_SRC@", "stubs/world.cpp").replace("@KFLAGS@", "").replace("@ARGS@", "")
    open(os.path.join(d, "demo.sh"), "w").write(s)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def confirm(id, checks=True, tests=True):
    d = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    res = {"id": id, "property": meta["property"]}
    patch = os.path.join(d, "patch.diff")
    if tests:
        assert not run(["git", "-C", "/repo", "status", "--short"]).stdout
        assert run(["git", "-C", "/repo", "apply", patch]).returncode == 0
        try:
            b = run(["bash", "/opt/vp/build.sh"])
            if b.returncode == 0:
                run(["bash", "/opt/vp/test.sh", "/tmp/t.json"])
                t = json.load(open("/tmp/t.json"))
                res["tests"] = "%d passed, %d failed" % (len(t["passed"]), len(t["failed"]))
            else:
                res["tests"] = "BUILD FAILS " + b.stdout[-800:]
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
    w = tempfile.mkdtemp(prefix="w-", dir="/tmp")
    run("git -C /repo archive HEAD | tar x -C " + w, shell=True)
    dd = tempfile.mkdtemp(prefix="d-", dir="/tmp")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(d, f), dd)
    a = run(["bash", os.path.join(dd, "demo.sh")], cwd=w)
    ap = run(["git", "apply", patch], cwd=w)
    assert ap.returncode == 0, ap.stdout
    b = run(["bash", os.path.join(dd, "demo.sh")], cwd=w)
    res["demo"] = (a.returncode, b.returncode)
    if a.returncode != 0 or b.returncode == 0:
        res["demo_out"] = a.stdout[-500:] + "\n-----\n" + b.stdout[-300:]
    elif b.returncode == 3:
        res["demo_out"] = b.stdout[-500:]
    if checks:
        pid = meta["property"]
        env = dict(os.environ, VERIF_REPO=w, VERIF_TIER="quick")
        c = run([sys.executable, os.path.join(HERE, "check.py"), pid], env=env)
        res["check"] = c.returncode
        res["line"] = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:1]
        res["why"] = c.stdout[-900:] if c.returncode != 1 else [l for l in c.stdout.splitlines()][:3]
    shutil.rmtree(w)
    shutil.rmtree(dd)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "--confirm":
        opt = [a for a in sys.argv[2:] if a.startswith("--")]
        for id in [a for a in sys.argv[2:] if not a.startswith("--")]:
            r = confirm(id, "--nocheck" not in opt, "--notests" not in opt)
            for k in ("tests", "demo", "demo_out", "check", "why"):
                if k in r and not (k == "why" and r.get("check") == 0):
                    print("   ", k, r[k][0] if k == "why" and isinstance(r[k], list) and r[k] else r[k])
            ok = r["demo"][0] == 0 and r["demo"][1] not in (0, 3)
            print("=== %s demo %s check %s" % (id, "ok" if ok else "BAD", r.get("check")), flush=True)
    else:
        for f in sys.argv[1:]:
            exec(compile(open(f).read(), f, "exec"))

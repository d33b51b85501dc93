#!/usr/bin/env python3
"""Builds /repo's current tree with the stand-ins and decides one property.

    check.py <ID> [--replay FILE] [--suite NAME]        tier: environment variable VERIF_TIER

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. 2: error of the check."""
import concurrent.futures as cf
import glob, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS  # noqa: E402

COMMON = ["-std=c++17", "-g1", "-w", "-pthread", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          "-ftrivial-auto-var-init=pattern"]    # what is read uninitialised is the same in every execution
KINDS = {
    "seq": ["-O1", "-fsanitize=address"],
    "plain": ["-O2"],
    "sched": ["-O1", "-fsanitize=thread", "-DVERIF_SCHED"],
}
CXX = os.environ.get("VERIF_CXX", "g++")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, pats):
    out = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if any(f.endswith(s) for s in pats):
                    p = os.path.join(root, f)
                    out.append(os.path.relpath(p, d).encode() + b"\0" + read(p))
    return sha(*out)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def gen_messages():
    key = sha(read(os.path.join(HERE, "tools/msggen.py")),
              tree_hash([os.path.join(HERE, "stubs/msgs"), os.path.join(REPO, "msg"), os.path.join(REPO, "srv")],
                        [".msg", ".srv"]))
    out = os.path.join(BUILD, "gen-" + key)
    if not os.path.exists(os.path.join(out, ".done")):
        r = sh([sys.executable, os.path.join(HERE, "tools/msggen.py"), out, os.path.join(HERE, "stubs/msgs"), REPO])
        if r.returncode:
            raise BuildError("message generation failed:\n" + r.stdout)
        open(os.path.join(out, ".done"), "w").close()
    return out, key


def compile_one(src, flags, key, tag):
    """-> (object path or None, error text)"""
    obj = os.path.join(BUILD, "%s-%s-%s.o" % (tag, os.path.basename(src).rsplit(".", 1)[0], sha(key, flags, read(src))))
    if os.path.exists(obj):
        return obj, ""
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([CXX] + flags + ["-c", src, "-o", tmp])
    if r.returncode:
        return None, r.stdout[-4000:]
    os.replace(tmp, obj)
    return obj, ""


def build(pid):
    cfg = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    gen, gkey = gen_messages()
    inc = []
    if cfg.get("shadow", True):
        inc += ["-I" + os.path.join(HERE, "stubs/shadow")]
    inc += ["-I" + os.path.join(HERE, "stubs/include"), "-I" + os.path.join(HERE, "harness"), "-I" + gen,
            "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3"]
    flags = COMMON + KINDS[cfg["kind"]] + cfg.get("flags", []) + inc
    rkey = sha(gkey, tree_hash([os.path.join(REPO, "include")], [".hpp", ".h", ".hh"]),
               tree_hash([os.path.join(HERE, "stubs")], [".hpp", ".h", "random"]))
    hkey = sha(rkey, tree_hash([os.path.join(HERE, "harness")], [".hpp", ".h"]))
    repo_src = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    skip = set(cfg.get("skip", []))
    repo_src = [s for s in repo_src if os.path.basename(s) not in skip]
    want = cfg.get("only")
    own = [os.path.join(HERE, "harness", cfg["harness"]), os.path.join(HERE, "stubs/world.cpp")]
    own += [os.path.join(HERE, "harness", x) for x in cfg.get("extra", ["mc.cpp"])]
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # the engine and the thread runtime must not be instrumented themselves
        fo = []
        for s in own:
            f = flags
            if os.path.basename(s) in ("mc.cpp", "sched.cpp", "world.cpp"):
                f = [x for x in flags if x not in ("-fsanitize=thread", "-O1")] + ["-O2"]
            fo.append(ex.submit(compile_one, s, f, hkey, "own"))
        # where races are not looked for, only the file with the threads needs to be instrumented
        inst = cfg.get("instrument")
        fast = [x for x in flags if x not in ("-fsanitize=thread", "-O1")] + ["-O2"]
        fr = [(s, ex.submit(compile_one, s, flags if not inst or os.path.basename(s) in inst else fast, rkey, "repo")) for s in repo_src]
        own_o, errs = [], []
        for s, f in zip(own, fo):
            o, e = f.result()
            if o is None:
                raise BuildError("harness %s does not compile:\n%s" % (s, e))
            own_o.append(o)
        repo_o = []
        for s, f in fr:
            o, e = f.result()
            if o is None:
                errs.append("%s does not compile here:\n%s" % (s, e))
            else:
                repo_o.append(o)
    key = sha(*(own_o + repo_o + cfg.get("libs", []) + cfg.get("ldflags", [])))
    exe = os.path.join(BUILD, "%s-%s" % (pid, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        ar = tmp + ".a"
        whole = cfg.get("whole", [])
        forced = [o for o in repo_o if any(os.path.basename(o).startswith("repo-" + w + "-") for w in whole)]
        rest = [o for o in repo_o if o not in forced]
        if rest:
            r = sh(["ar", "rcs", ar] + rest)
            if r.returncode:
                raise BuildError(r.stdout)
        san = [] if cfg["kind"] != "seq" else ["-fsanitize=address"]
        r = sh([CXX, "-pthread", "-o", tmp] + san + cfg.get("ldflags", []) + forced + own_o +
               ([ar] if rest else []) + cfg.get("libs", []))
        if rest:
            os.unlink(ar)
        if r.returncode:
            raise BuildError("link failed:\n" + r.stdout[-3000:] + "\n" + "\n".join(errs))
        os.replace(tmp, exe)
    return exe


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                sig = line.split("signature=", 1)[1].split(" ", 1)
                out.append((sig[0], sig[1] if len(sig) > 1 else ""))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    cfg = PROPS[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    known = known_findings(pid)
    out = os.path.join(BUILD, "out-%s-%d.json" % (pid, os.getpid()))
    if cfg["kind"] == "py":
        cmd = [sys.executable, os.path.join(HERE, "harness", cfg["harness"])]
    else:
        try:
            cmd = [build(pid)]
        except BuildError as e:
            print("error of the check (build): %s" % e)
            return 2
    t_build = time.time() - t0
    kf = out + ".known"
    with open(kf, "w") as f:
        f.write("".join(s + "\n" for s, _ in known))
    cmd += ["--out", out, "--replays", os.path.join(HERE, "replays"), "--known", kf]
    if tier == "thorough":
        cmd.append("--thorough")
    cmd += ["--soft", os.environ.get("VERIF_SOFT", "480" if tier == "quick" else "3000")]
    for o in ("--replay", "--suite", "--workers"):
        if o in sys.argv:
            cmd += [o, sys.argv[sys.argv.index(o) + 1]]
    env = dict(os.environ)
    env["VERIF_REPO"] = REPO
    env["GLOG_minloglevel"] = "3"
    env["MALLOC_PERTURB_"] = "165"
    try:
        r = subprocess.run(cmd, env=env, timeout=float(os.environ.get("VERIF_LIMIT", "840" if tier == "quick" else "36000")))
        rc = r.returncode
    except subprocess.TimeoutExpired:
        print("error of the check: time limit")
        rc = 2
    finally:
        os.unlink(kf)
    if "--replay" in sys.argv:
        return rc
    if rc not in (0, 1) or not os.path.exists(out):
        print("error of the check: exit status %s" % rc)
        return 2
    data = json.load(open(out))
    os.unlink(out)
    for s, text in known:
        if s in data.get("known", []):
            print("KNOWN-FINDING: property=%s %s %s" % (pid, s, text))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": data["states"], "transitions": data["transitions"],
            "traces_validated_against_impl": data["executions"],
            "samples": data["samples"] or ["(none: the run ended at its first execution)"],
            "distinct_outcomes": data["outcomes"],
            "exhaustive": all(s.get("complete", True) for s in data["suites"]) and rc == 0,
            "suites": data["suites"],
            "explanation": "every execution of the bounded space named per suite was run on the code compiled from "
                           "/repo and compared with the reference model (traces_validated_against_impl counts them); "
                           "states are distinct canonical hashes of the implementation's observable state, "
                           "transitions are operations applied",
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": data["violations"],
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %s  executions=%d transitions=%d states=%d outcomes=%d build=%.1fs total=%.1fs" % (
        pid, tier, "held" if rc == 0 else "VIOLATED", data["executions"], data["transitions"], data["states"],
        data["outcomes"], t_build, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())

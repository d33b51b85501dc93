#!/usr/bin/env python3
"""C26: the command line scripts against every answer of a small middleware."""
import argparse, contextlib, io, itertools, json, os, runpy, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPTS = {"save_map.py": ("SAVE_TO_FILE", True), "load_map.py": ("LOAD_FROM_FILE", True),
           "enable_mapping.py": ("ENABLE_MAPPING", False), "disable_mapping.py": ("DISABLE_MAPPING", False)}
# what the service understands (srv/Configure.srv is part of the interface: the node tests bits)
NAMES = ["map", "/tmp/some map.bag", "-x", "\u00fc\u4e2d", "a/../b", ""]


class Broken(Exception):
    pass


class Hang(BaseException):
    pass


def constants():
    out, fields, part = {}, [], 0
    for line in open(os.path.join(REPO, "srv", "Configure.srv")):
        line = line.split("#")[0].strip()
        if line == "---":
            break
        if "=" in line:
            k, v = line.split("=")
            out[k.split()[1].strip()] = int(v)
        elif line:
            fields.append(line.split()[1])
    return out, fields


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.inited = False
        self.waits = 0
        self.ready = cfg["waits"] == 0
        self.sent, self.delivered = [], []
        self.other = []          # anything else it did to the graph
        self.nodes = 0
        self.ops = 0
        self.spins_left = cfg["spins"]
        self.shut = 0

    def tick(self):
        self.ops += 1
        if self.ops > 500:
            raise Hang("the script does not end")

    def spin(self):
        self.tick()
        self.alive("spins")
        if self.spins_left > 0:
            self.spins_left -= 1
        if self.spins_left == 0:
            self.deliver()

    def deliver(self):
        for s in self.sent:
            if not s[3].done_:
                self.delivered.append(s[:3])
                s[3].done_ = True
                for cb in s[3].cbs:
                    cb(s[3])

    def alive(self, what):
        if not self.inited:
            raise Broken("%s while rclpy is not initialised" % what)


def modules(w, consts, fields):
    rclpy = types.ModuleType("rclpy")
    rclpy.__path__ = []

    class Future:
        def __init__(self):
            self.done_, self.cbs = False, []

        def done(self):
            return self.done_

        def result(self):
            return Response() if self.done_ else None

        def exception(self):
            return None

        def cancel(self):
            pass

        def add_done_callback(self, cb):
            self.cbs.append(cb)

    class Request:
        def __init__(self, **kw):
            self.action, self.filename = 0, ""
            for k, v in kw.items():
                setattr(self, k, v)

        def __setattr__(self, k, v):
            if k not in fields:
                raise Broken("the request has no field %s" % k)
            if k == "action" and not isinstance(v, int):
                raise Broken("the action is %r" % (v,))
            if k == "filename" and not isinstance(v, str):
                raise Broken("the file name is %r" % (v,))
            object.__setattr__(self, k, v)

    for k, v in consts.items():
        setattr(Request, k, v)

    class Response:
        pass

    class Configure:
        pass
    Configure.Request, Configure.Response = Request, Response

    class Client:
        def __init__(self, t, name):
            self.t, self.name = t, name
            self.srv_name = name

        def wait_for_service(self, timeout_sec=None):
            w.tick()
            w.alive("waits for a service")
            if timeout_sec is None:
                w.ready = True
                return True
            w.waits += 1
            if w.waits > w.cfg["waits"]:
                w.ready = True
            return w.ready

        def service_is_ready(self):
            return self.wait_for_service(0.0)

        def call_async(self, req):
            w.tick()
            w.alive("sends a request")
            if not w.ready:
                raise Broken("a request is sent before the service is there")
            f = Future()
            w.sent.append((self.name.lstrip("/"), req.action, req.filename, f))
            return f

        def call(self, req, timeout_sec=None):
            f = self.call_async(req)
            w.deliver()
            return f.result()

    class Logger:
        def __getattr__(self, n):
            return lambda *a, **k: w.tick()

    class Node:
        def __init__(self, name, **kw):
            w.alive("creates a node")
            w.nodes += 1

        def create_client(self, t, name, **kw):
            if t is not Configure:
                raise Broken("a client of another type")
            return Client(t, name)

        def get_logger(self):
            return Logger()

        def destroy_node(self):
            w.nodes -= 1

        def destroy_client(self, c):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.destroy_node()

        def get_name(self):
            return "n"

        def __getattr__(self, n):
            if n.startswith("create_") or n.startswith("declare_"):
                def f(*a, **k):
                    w.other.append(n)
                return f
            raise AttributeError(n)

    class Executor:
        def __init__(self, *a, **k):
            pass

        def add_node(self, n):
            pass

        def remove_node(self, n):
            pass

        def spin_until_future_complete(self, f, timeout_sec=None):
            spin_until(None, f)

        def spin_once(self, timeout_sec=None):
            w.spin()

        def spin_once_until_future_complete(self, f, timeout_sec=None):
            w.spin()

        def shutdown(self, *a, **k):
            pass

    class ctx:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            shutdown()

    def init(*a, **k):
        w.inited = True
        return ctx()

    def shutdown(*a, **k):
        w.inited = False
        w.shut += 1

    def spin_until(node, f, executor=None, timeout_sec=None):
        if timeout_sec is not None and timeout_sec <= 0:
            w.spin()
            return
        n = 0
        while not f.done():
            w.spin()
            n += 1
            if timeout_sec is not None and n >= max(1, timeout_sec * 2):
                return

    rclpy.init, rclpy.shutdown, rclpy.try_shutdown = init, shutdown, shutdown
    rclpy.ok = lambda *a, **k: w.inited
    rclpy.spin_until_future_complete = spin_until
    rclpy.spin_once = lambda n, **k: w.spin()

    def spin(*a, **k):
        while w.inited:
            w.spin()
    rclpy.spin = spin
    rclpy.create_node = lambda name, **k: Node(name)
    node = types.ModuleType("rclpy.node")
    node.Node = Node
    ex = types.ModuleType("rclpy.executors")
    ex.SingleThreadedExecutor = ex.MultiThreadedExecutor = Executor
    ex.ExternalShutdownException = type("ExternalShutdownException", (Exception,), {})
    rclpy.node, rclpy.executors = node, ex
    util = types.ModuleType("rclpy.utilities")
    util.remove_ros_args = lambda args=None: list(args if args is not None else sys.argv)
    rclpy.utilities = util
    pkg = types.ModuleType("ndt_2d")
    pkg.__path__ = []
    srv = types.ModuleType("ndt_2d.srv")
    srv.Configure = Configure
    pkg.srv = srv
    return {"rclpy": rclpy, "rclpy.node": node, "rclpy.executors": ex, "rclpy.utilities": util, "ndt_2d": pkg, "ndt_2d.srv": srv}


def execute(cfg, consts, fields):
    """-> (None or what is wrong, outcome)"""
    w = World(cfg)
    mods = modules(w, consts, fields)
    saved = {k: sys.modules.get(k) for k in mods}
    argv, cwd = sys.argv, os.getcwd()
    name, has_file = SCRIPTS[cfg["script"]]
    sys.modules.update(mods)
    sys.argv = [cfg["script"]] + cfg["args"]
    err = None
    import builtins
    import subprocess
    import time
    real_open, real_popen, real_system, real_sleep = builtins.open, subprocess.Popen, os.system, time.sleep

    def spy_open(f, mode="r", *a, **k):
        if any(m in mode for m in "wax+"):
            raise Broken("the script writes the file %s" % f)
        return real_open(f, mode, *a, **k)

    def spy(*a, **k):
        raise Broken("the script starts another program")

    def sleep(s):
        w.tick()
    out = io.StringIO()
    builtins.open, subprocess.Popen, os.system, time.sleep = spy_open, spy, spy, sleep
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(os.path.join(REPO, "scripts", cfg["script"]), run_name="__main__")
    except Hang as e:
        err = str(e)
    except Broken as e:
        err = str(e)
    except SystemExit as e:
        if cfg["usable"] and e.code not in (0, None):
            err = "the script ends with status %r" % (e.code,)
    except BaseException as e:
        if cfg["usable"]:
            err = "the script fails: %s: %s" % (type(e).__name__, e)
    finally:
        builtins.open, subprocess.Popen, os.system, time.sleep = real_open, real_popen, real_system, real_sleep
        sys.argv = argv
        os.chdir(cwd)
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if err is None:
        if w.other:
            err = "the script also calls %s" % w.other[0]
        elif not cfg["usable"]:
            if w.sent:
                err = "a request is sent although no file name was given"
        else:
            want = [("configure", consts[name], cfg["args"][0] if has_file else "")]
            if [s[:3] for s in w.sent] != want:
                err = "requests sent: %r, must be %r" % ([s[:3] for s in w.sent], want)
            elif w.delivered != want:
                err = "the script ends before its request is answered"
    return err, (len(w.sent), w.waits, w.ops), w.ops


def space(thorough):
    for script, (_, has_file) in SCRIPTS.items():
        for waits, spins in itertools.product(range(0, 12 if thorough else 5), range(0, 12 if thorough else 4)):
            if has_file:
                for n in NAMES:
                    yield {"script": script, "waits": waits, "spins": spins, "args": [n], "usable": True}
                    if thorough:
                        yield {"script": script, "waits": waits, "spins": spins, "args": [n, "extra"], "usable": True}
                yield {"script": script, "waits": waits, "spins": spins, "args": [], "usable": False}
            else:
                yield {"script": script, "waits": waits, "spins": spins, "args": [], "usable": True}
                yield {"script": script, "waits": waits, "spins": spins, "args": ["map"], "usable": True}


def interface(consts):
    """the action bits of the service are distinct, as the node tests them one by one"""
    want = ["ENABLE_MAPPING", "DISABLE_MAPPING", "LOAD_FROM_FILE", "SAVE_TO_FILE"]
    for n in want:
        if n not in consts:
            return "the service has no action %s" % n
    for a, b in itertools.combinations(want, 2):
        if consts[a] & consts[b]:
            return "the actions %s and %s share a bit" % (a, b)
    return None


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--out")
    p.add_argument("--replays", default=".")
    p.add_argument("--known")
    p.add_argument("--thorough", action="store_true")
    p.add_argument("--replay")
    p.add_argument("--suite")
    p.add_argument("--workers")
    p.add_argument("--soft")          # the suites are small, there is nothing to cut short
    a = p.parse_args()
    consts, fields = constants()
    if a.replay:
        cfg = json.load(open(a.replay))
        err = interface(consts) if cfg is None else execute(cfg, consts, fields)[0]
        print(err or "held")
        if err:
            print("VIOLATION property=C26 replay=%s" % a.replay)
        return 1 if err else 0
    n = tr = 0
    outcomes, samples, viol = set(), [], []
    err, bad = interface(consts), None
    if not err:
        for cfg in space(a.thorough):
            err, o, ops = execute(cfg, consts, fields)
            n += 1
            tr += ops
            outcomes.add((cfg["script"],) + o)
            if n % 97 == 1 and len(samples) < 5:
                samples.append(json.dumps(cfg))
            if err:
                bad = cfg
                break
    if err:
        f = os.path.join(a.replays, "C26_scripts.replay")
        json.dump(bad, open(f, "w"))
        print("suite scripts: %s: %s" % (bad["script"] if bad else "srv/Configure.srv", err))
        print("VIOLATION property=C26 replay=%s" % f)
        viol.append({"suite": "scripts", "message": err, "replay": f})
    json.dump({"executions": n, "transitions": tr, "states": len(outcomes), "outcomes": len(outcomes), "samples": samples, "known": [],
               "violations": len(viol),
               "suites": [{"name": "scripts", "bound": "4 scripts x service there after 0..4 (11) waits x answer after 0..3 (11) spins x file names (6, none)",
                           "executions": n, "capped": False}]}, open(a.out, "w"))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())

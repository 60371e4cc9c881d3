"""W08: the bundled robot descriptions, fetched on demand, under faults, crashes and races.

Every session is a process of its own (forked, with the package imported afresh) that imports
the package and asks for the paths. The network is a stand-in below urllib (an opener that
serves /repo/data and fails as told), the crash points are the file operations seen by an audit
hook and every piece of a download."""
import email.message
import errno
import http.client
import io
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import urllib.error
import urllib.request
import urllib.response

NAMES = ("pr2.urdf", "fetch.urdf")
EVENTS = ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "shutil.move", "shutil.copyfile")


class Body(io.BytesIO):
    """What a server sends, up to the fault."""

    def __init__(self, data, fault, session):
        super().__init__(data)
        self.size, self.fault, self.session = len(data), fault, session

    def read(self, n=-1):
        s, f = self.session, self.fault
        s.pause()
        left = self.size - self.tell()
        n = left if n is None or n < 0 else min(n, left)
        if not f or self.tell() + n < f["at"]:
            return super().read(n)
        k = f["kind"]
        if k == "short" and self.tell() >= f["at"]:
            return b""
        if k == "short":
            if n == left:  # read up to the end: as http.client does
                raise http.client.IncompleteRead(super().read(f["at"] - self.tell()), left)
            return super().read(f["at"] - self.tell())
        s.hit(k)
        if k == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        raise {"reset": ConnectionResetError(errno.ECONNRESET, "reset"), "interrupt": KeyboardInterrupt(), "timeout": TimeoutError("timed out")}[k]

    readinto = None


class Server(urllib.request.BaseHandler):
    handler_order = 1

    def __init__(self, session):
        self.session = session

    def https_open(self, req):
        s = self.session
        i, s.requests = s.requests, s.requests + 1
        s.pause()
        f = s.plan.get("fault")
        f = f if f and f["kind"] != "event" and f["nth"] in (i, -1) else None
        if s.plan.get("offline") or f and f["kind"] == "refused":
            s.hit("refused")
            raise urllib.error.URLError("no network")
        name = req.full_url.split("/")[-1]
        head = email.message.Message()
        known = "HiroIshida/tinyfk/" in req.full_url and req.full_url.endswith("/data/" + name) and name in NAMES
        if not known or f and f["kind"] == "status":
            s.hit("status")
            r = urllib.response.addinfourl(io.BytesIO(b"Not Found"), head, req.full_url, 404 if not known else f["status"])
            r.msg = "Not Found"
            return r
        data = s.data[name]
        head["Content-Length"] = str(len(data))
        if f and f["kind"] == "short":
            s.hit("short")
        r = urllib.response.addinfourl(Body(data, f, s), head, req.full_url, 200)
        r.msg = "OK"
        return r

    http_open = https_open


class Session:
    """Runs in the child."""

    def __init__(self, home, plan, data, out):
        self.home, self.plan, self.data, self.out = home, plan, data, out
        self.requests = self.events = 0
        self.seed = plan["seed"]

    def say(self, **k):
        os.write(self.out, (json.dumps(k) + "\n").encode())

    def hit(self, what):
        self.say(hit=what)

    def pause(self):
        if self.plan.get("slow"):
            self.seed = (self.seed * 6364136223846793005 + 1442695040888963407) % 2 ** 64
            time.sleep((self.seed >> 40) % 1000 * 3e-6)

    def audit(self, event, args):
        if event not in EVENTS or not args or not isinstance(args[0], (str, bytes, os.PathLike)):
            return
        p = os.fsdecode(args[0])
        if not p.startswith(self.home):
            return
        if event == "open" and not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)):
            return
        self.pause()
        i, self.events = self.events, self.events + 1
        f = self.plan.get("fault")
        if f and f["kind"] == "event" and f["nth"] == i:
            self.hit("%s at %s" % (f["how"], event))
            if f["how"] == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            if f["how"] == "interrupt":
                raise KeyboardInterrupt
            raise OSError(errno.ENOSPC, "No space left on device")

    def run(self):
        os.environ["HOME"] = self.home
        for k in [k for k in sys.modules if k == "tinyfk" or k.startswith("tinyfk.") and k != "tinyfk._tinyfk"]:
            del sys.modules[k]
        o = urllib.request.OpenerDirector()
        for h in (Server(self), urllib.request.HTTPErrorProcessor(), urllib.request.HTTPDefaultErrorHandler(), urllib.request.UnknownHandler()):
            o.add_handler(h)
        urllib.request.install_opener(o)
        if self.plan.get("limit") is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.plan["limit"], resource.RLIM_INFINITY))
        sys.addaudithook(self.audit)
        m = None
        for step in self.plan["steps"]:
            if m is None:
                try:
                    import tinyfk as m
                    self.say(step="import", ok=True)
                except BaseException as e:  # noqa: BLE001
                    self.say(step="import", ok=False, why=repr(e)[:300])
                    m = None
                    continue
            try:
                p = getattr(m, step + "_urdfpath")()
            except BaseException as e:  # noqa: BLE001
                self.say(step=step, ok=False, why=repr(e)[:300])
                continue
            try:
                with open(p, "rb") as fp:
                    got = fp.read()
                state = "complete" if got == self.data[step + ".urdf"] else "%d bytes of %d" % (len(got), len(self.data[step + ".urdf"]))
            except OSError as e:
                state = "cannot be read: %s" % e
            self.say(step=step, ok=True, path=str(p), state=state, inside=str(p).startswith(self.home))
        self.say(end=True, requests=self.requests, events=self.events)


def start(home, plan, data, gate=None):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    try:
        os.close(r)
        signal.setitimer(signal.ITIMER_PROF, 60)
        if gate is not None:
            os.read(gate, 1)
        sys.stderr = open(os.devnull, "w")
        Session(home, plan, data, w).run()
    except BaseException as e:  # noqa: BLE001
        os.write(w, (json.dumps({"broken": repr(e)}) + "\n").encode())
    finally:
        os._exit(0)


def collect(children):
    text = {r: b"" for _, r in children}
    order = []
    todo, end = set(text), time.time() + 200
    while todo and time.time() < end:
        for r in select.select(list(todo), [], [], 1)[0]:
            b = os.read(r, 65536)
            text[r] += b
            order.append(r)
            if not b:
                todo.discard(r)
    out = []
    for pid, r in children:
        if r in todo:
            os.kill(pid, signal.SIGKILL)
        status = os.waitpid(pid, 0)[1]
        os.close(r)
        out.append((r in todo, os.WIFSIGNALED(status) and os.WTERMSIG(status), [json.loads(x) for x in text[r].decode().split("\n")[:-1]]))
    switches = sum(a != b for a, b in zip(order, order[1:]))
    return out, switches


def some_plan(r, healthy):
    """What one session does and what goes wrong in it."""
    steps = [("pr2", "fetch")[int(x)] for x in r.integers(0, 2, int(r.integers(1, 4)))]
    plan = {"seed": int(r.integers(2 ** 40)), "steps": steps}
    if healthy:
        plan["steps"] = ["pr2", "fetch"][::int(r.choice([-1, 1]))] + steps[1:]
        return plan
    if r.random() < 0.25:
        steps += ["pr2", "fetch"]
    k = r.random()
    if k < 0.1:
        plan["offline"] = True
    elif k < 0.2:
        plan["limit"] = int(r.choice([0, 1, 4096, 8192, 20000, 60000, int(r.integers(1, 200000))]))
    elif k < 0.55:
        plan["fault"] = {"kind": "event", "nth": int(r.integers(0, 5)), "how": str(r.choice(["kill", "kill", "error", "interrupt"]))}
    else:
        plan["fault"] = {"kind": str(r.choice(["kill", "kill", "kill", "reset", "interrupt", "timeout", "short", "refused", "status"])), "nth": int(r.choice([0, 1, 1, 2, -1])),
                         "at": int(r.choice([0, 1, 8191, 8192, 8193, 16384, int(r.integers(1, 30000)), int(r.integers(1, 200000))])), "status": int(r.choice([403, 404, 500, 503]))}
    return plan


def stamp(paths):
    out = {}
    for n, p in paths.items():
        s = os.stat(p)
        out[n] = (p, s.st_ino, s.st_mtime_ns, s.st_size)
    return out


def run_w08(ctx):
    r = ctx.rng
    data = {n: open(os.path.join(ctx.repo, "data", n), "rb").read() for n in NAMES}
    base = tempfile.mkdtemp(dir=ctx.scratch)
    home = os.path.join(base, str(r.choice(["home", "with space", "h\u00f6me", "deep/er", "." + "x" * 60])))
    os.makedirs(home)
    cache = os.path.join(home, ".tinyfk")
    try:
        if r.random() < 0.2:
            os.mkdir(cache)
        shape = []
        paths = {}

        def group(plans, what):
            gr, gw = os.pipe()
            kids = [start(home, p, data, gr) for p in plans]
            os.close(gr)
            os.write(gw, b"." * len(plans))
            os.close(gw)
            res, switches = collect(kids)
            if len(plans) > 1:
                ctx.count("races")
                ctx.count("switches_between_sessions", switches)
            for p, (hung, sig, said) in zip(plans, res):
                ctx.log("%s %s: %s%s" % (what, json.dumps(p), "killed by %d, " % sig if sig else "", json.dumps(said)))
                ctx.check(not hung, "hangs", lambda: "a session does not end: %s" % (p,))
                faulty = bool(p.get("fault") or p.get("offline") or p.get("limit") is not None)
                for x in said:
                    if "broken" in x:
                        raise RuntimeError("a session broke: %s" % x["broken"])
                    if "hit" in x:
                        ctx.count("hit " + x["hit"])
                    if "step" not in x:
                        continue
                    ctx.evaluations += 1
                    name = x["step"]
                    if x["ok"] and name != "import":
                        ctx.check(x["state"] == "complete", "incomplete", lambda: "after %s a session is given the path %s, which is not the complete %s: %s" % (", ".join(shape) or "nothing", x["path"], name, x["state"]))
                        ctx.count("paths_checked")
                        paths[name] = x["path"]
                        ctx.check(x["inside"], "elsewhere", lambda: "the path of %s is outside the home directory: %s" % (name, x["path"]))
                    ctx.check(faulty or x["ok"], "fails", lambda: "after %s, %s fails in a session with a good network: %s" % (", ".join(shape) or "nothing", name, x.get("why")))
                    if faulty and not x["ok"]:
                        ctx.count("failed_steps")
                ctx.check(sig in (0, signal.SIGKILL) or faulty, "dies", lambda: "a session ends with signal %d" % sig)
                ctx.check(faulty or said and said[-1].get("end"), "dies", "a session with a good network does not end properly")
                if sig == signal.SIGKILL:
                    ctx.count("sessions_killed")
                ctx.count("sessions")
                shape.append("a session with " + (p["fault"]["kind"] + " " + p["fault"].get("how", "") if p.get("fault") else "no network" if p.get("offline") else "a full disk" if p.get("limit") is not None else "no fault"))

        for _ in range(int(r.integers(0, 4))):
            k = r.random()
            if k < 0.12 and paths:
                if r.random() < 0.3:
                    shutil.rmtree(home)
                    os.makedirs(home)
                else:
                    n = paths[str(r.choice(sorted(paths)))]
                    if os.path.exists(n):
                        os.remove(n)
                shape.append("files deleted")
                ctx.count("deletions")
            elif k < 0.75:
                group([some_plan(r, r.random() < 0.15)], "session")
            else:
                plans = [some_plan(r, r.random() < 0.6) for _ in range(int(r.integers(2, 6)))]
                for p in plans:
                    p["slow"] = True
                group(plans, "race")
        if r.random() < 0.3:
            plans = [some_plan(r, True) for _ in range(int(r.integers(2, 7)))]
            for p in plans:
                p["slow"] = True
            group(plans, "race")
        group([some_plan(r, True)], "session")
        # now everything is there: no network is needed, and nothing is written
        ctx.check(len(set(paths.values())) == 2, "one-path", lambda: "the paths are %s" % paths)
        before = stamp(paths)
        plan = some_plan(r, True)
        plan["offline"] = bool(r.random() < 0.7)
        (pid, fd), = kids = [start(home, plan, data)]
        res, _ = collect(kids)
        hung, sig, said = res[0]
        ctx.log("again %s: %s" % (json.dumps(plan), json.dumps(said)))
        last = said[-1] if said else {}
        ctx.check(last.get("end") and all(x["ok"] and x.get("state", "complete") == "complete" for x in said if "step" in x), "needs-network", lambda: "with both files there a session fails: %s" % said)
        ctx.check(last["requests"] == 0, "needs-network", "with both files there they are fetched again")
        ctx.check(stamp(paths) == before, "files-touched", "with both files there they are written again")
        ctx.count("sessions_without_network")
        ctx.nontrivial("|".join(shape) + str(plan["seed"]))
        ctx.sample(" / ".join(ctx.note))
    finally:
        shutil.rmtree(base)


REGISTRY = {"W08": (run_w08, [], "one case: a new home directory and a history of up to four sessions or races of sessions with faults in between, then good ones; distinct by history")}

"""Deterministic discrete-event engine for the Python half of crlite.

Every actor (one process of the deployment: a publisher, a generator step, a
sign-off) is a thread, but exactly one thread runs at a time: an actor hands
control back at each operation on the outside world and continues when the
engine's event queue says so. Virtual time, latencies, faults and crashes all
come from the plan and its seed."""
import hashlib
import heapq
import random
import threading


class SimCrash(BaseException):
    """The process dies here (SIGKILL, node loss)."""


class SimStuck(Exception):
    pass


class Actor:
    def __init__(self, sim, name, host, fn, faults):
        self.sim, self.name, self.host, self.fn = sim, name, host, fn
        self.faults = faults  # {op number, or kind of operation and its number or *: mode}
        self.targets = {k.rsplit("@", 1)[0] for k in faults if "@" in k}
        self.seen = {}
        self.rng = random.Random("%d-%s" % (sim.seed, name))
        self.nops = 0
        self.go = threading.Lock()
        self.go.acquire()
        self.done = False
        self.outcome = None  # "ok" | "error: ..." | "crash"
        self.injected = []
        self.errors = 0  # errors delivered to this process
        self.scratch = None
        self.thread = None
        self.log = []
        self.extra = {}
        self.resume = lambda: None

    def run(self):
        self.go.acquire()
        _tls.actor = self
        try:
            self.fn(self)
            self.outcome = "ok"
        except SimCrash:
            self.outcome = "crash"
        except SystemExit as e:
            self.outcome = "ok" if e.code in (None, 0) else "error: exit %s" % (e.code,)
        except BaseException as e:  # noqa: the end of a process
            self.outcome = "error: %s: %s" % (type(e).__name__, str(e)[:300])
        self.done = True
        self.sim.back.release()


_tls = threading.local()


def current():
    return getattr(_tls, "actor", None)


class Sim:
    def __init__(self, seed, start):
        self.seed = seed
        self.now = float(start)
        self.start = float(start)
        self.heap = []
        self.seq = 0
        self.back = threading.Lock()
        self.back.acquire()
        self.actors = []
        self.trace = []
        self.keep_trace = False
        self.digest = hashlib.sha256()
        self.steps = 0
        self.windows = []  # (service, from, to, probability)
        self.fault_counts = {}
        self.skew = {}  # host -> seconds
        self.order = hashlib.sha256()
        self.violations = []
        self.shapes = set()
        self.inflight = 0
        self.overlaps = set()

    # --- events ---
    def at(self, t, what):
        self.seq += 1
        heapq.heappush(self.heap, (max(t, self.now), self.seq, what))

    def spawn(self, name, host, fn, faults, when=None, then=None):
        a = Actor(self, name, host, fn, faults)
        a.then = then
        a.thread = threading.Thread(target=a.run, daemon=True)
        a.thread.start()
        self.actors.append(a)
        self.at(self.now if when is None else when, a)
        return a

    def note(self, line):
        self.digest.update(line.encode() + b"\n")
        if self.keep_trace:
            self.trace.append("%.3f %s" % (self.now - self.start, line))

    def violate(self, prop, cls, text):
        if not any(v[0] == prop and v[1] == cls for v in self.violations):
            self.violations.append((prop, cls, text, self.now - self.start))
        self.note("VIOLATION %s %s %s" % (prop, cls, text))

    def wall(self, host):
        return self.now + self.skew.get(host, 0.0)

    limit = 400000
    version = None
    hung = None
    dead = False

    def run(self):
        limit = self.limit
        while self.heap:
            t, _, what = heapq.heappop(self.heap)
            self.now = max(self.now, t)
            self.steps += 1
            if self.steps > limit:
                self.hung = what.name if isinstance(what, Actor) else "the simulation"
            if self.hung:
                raise SimStuck("too many steps")
            if isinstance(what, Actor):
                if what.done:
                    continue
                what.go.release()
                self.back.acquire()
                if what.done:
                    self.note("%s ends: %s" % (what.name, what.outcome))
                    what.thread.join()
                    if what.then:
                        what.then(what)
            else:
                what()

    # --- called by actors ---
    def pause(self, dt):
        a = current()
        if not self.heap or self.heap[0][0] > self.now + dt:
            # nothing else happens before
            self.now += dt
            self.steps += 1
            if self.steps > self.limit:
                self.hung = a.name
                raise SimCrash()
            return
        self.at(self.now + dt, a)
        self.back.release()
        a.go.acquire()
        if self.dead:
            raise SimCrash()
        a.resume()

    def close(self):
        """Ends what still runs (after an aborted simulation)."""
        self.dead = True
        for a in self.actors:
            if not a.done:
                a.go.release()
                self.back.acquire()
            a.thread.join()

    def fault(self, mode):
        self.fault_counts[mode] = self.fault_counts.get(mode, 0) + 1

    def in_window(self, svc, rng):
        for s, f, t, p in self.windows:
            if s == svc and f <= self.now < t and rng.random() < p:
                return True
        return False

    def op(self, svc, what, apply, error, slow=1.0, retryable=False):
        """One operation of the current process on service svc. error(kind)
        makes the exception (or reply) that the caller sees."""
        a = current()
        a.nops += 1
        n = a.nops
        rng = a.rng
        lat = rng.choice((0.02, 0.05, 0.1, 0.3, 1.0)) * slow
        reply = rng.choice((0.01, 0.05, 0.2)) * slow
        mode = a.faults.get(str(n))
        if mode is None and a.targets:
            c = category(svc, what)
            if c in a.targets:
                k = a.seen[c] = a.seen.get(c, 0) + 1
                mode = a.faults.get("%s@%d" % (c, k)) or a.faults.get(c + "@*")
        if mode is None and self.in_window(svc, rng):
            mode = rng.choice(("error", "error", "error", "conn", "lost-reply"))
        if mode == "slow":
            self.fault("slow")
            lat += rng.choice((5, 40, 200, 900))
            mode = None
        if mode == "race":
            # delayed until somebody else's change of the same collection is in
            self.fault("slow")
            self.until_changed(what.split(" ")[1])
            mode = None
        running = sum(1 for x in self.actors if not x.done)
        if running > 1:
            self.overlaps.add(what.split(" ")[0])
        self.pause(lat)
        if mode == "crash":
            self.fault("crash")
            a.injected.append((n, mode))
            self.note("%s #%d %s: crash before it" % (a.name, n, what))
            raise SimCrash()
        if mode in ("error", "conn"):
            self.fault(svc + "-" + mode)
            a.injected.append((n, mode))
            a.errors += 1
            self.note("%s #%d %s: %s" % (a.name, n, what, mode))
            self.pause(reply)
            return error(mode)
        res = apply()
        self.order.update((a.name.split("@")[0] + what).encode())
        self.note("%s #%d %s -> %s" % (a.name, n, what, short(res)))
        self.pause(reply)
        if mode == "crash-after":
            self.fault("crash-after")
            a.injected.append((n, mode))
            raise SimCrash()
        if mode == "lost-reply":
            self.fault(svc + "-lost-reply")
            a.injected.append((n, mode))
            a.errors += 1
            self.note("%s #%d %s: reply lost" % (a.name, n, what))
            return error("lost")
        if isinstance(res, Raise):
            raise res.exc
        return res

    def until_changed(self, name):
        old = self.version(name)
        end = self.now + 900
        while self.now < end and self.version(name) == old:
            self.pause(0.3)

    def sleep(self, dt):
        a = current()
        if a is None:
            return
        a.nops += 1
        if a.faults.get(str(a.nops)) in ("crash", "crash-after"):
            self.fault("crash")
            a.injected.append((a.nops, "crash"))
            raise SimCrash()
        self.note("%s sleeps %g" % (a.name, dt))
        self.pause(max(0.0, dt))


def category(svc, what):
    """The kind of operation, for faults that are aimed at one."""
    w = what.split(" ")
    if svc == "gcs":
        return "gcs " + w[0] + " " + (w[1].split("/")[-1] if len(w) > 1 else "")
    return " ".join(w[:2])


class Raise:
    def __init__(self, exc):
        self.exc = exc


def short(x):
    if isinstance(x, Raise):
        return "raises %s" % type(x.exc).__name__
    if isinstance(x, (bytes, bytearray)):
        return "%d bytes %s" % (len(x), hashlib.sha256(x).hexdigest()[:8])
    if isinstance(x, (list, dict)):
        return "%s of %d" % (type(x).__name__, len(x))
    if isinstance(x, (str, int, float, bool, type(None))):
        return str(x)[:60]
    return "%s %s" % (type(x).__name__, getattr(x, "status_code", ""))


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clone(v) for v in x]
    return x

"""One simulated history of the publishing half of crlite, and its judges.

Real code: moz_kinto_publisher/main.py, settings.py, workflow/__init__.py,
workflow/0-allocate_identifier, 1-upload_data_to_storage, 2-generate_mlbf,
3-upload_mlbf_to_storage, containers/scripts/crlite-signoff-tool.py.
Simulated: Remote Settings, the storage bucket, the CT log list, the CDN, the
clocks, rust-create-cascade, the outputs of the Go programs, reviewers."""
import base64
import builtins
import datetime as _datetime
import hashlib
import io
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
import types

import services
import x509stub
from core import Sim, SimCrash, SimStuck, clone, current

REPO = os.environ.get("CRLSIM_REPO", "/repo")
ENABLED = {"default": "clubcard-all", "compat": "clubcard-priority"}
MAXAGE = 45 * 86400
VERSION = 133
RUNID = re.compile(r"^(\d{8})-(\d+)$")
ADMISSIBLE = ("qualified", "usable", "readonly", "retired")

# the intermediates of the simulation: pairs that share a subject or a key
CERTS = []
for _i in range(14):
    _cn = "CA %d" % (_i if _i % 4 != 3 else _i - 1)
    _key = _i if _i % 5 != 4 else _i - 1
    if _i >= 12:  # the same subject and key as another one
        _cn, _key = ("CA 0", 0) if _i == 12 else ("CA 5", 5)
    _der = x509stub.make_cert(1000 + _i, _cn, "Org", _key, "2%d0601000000Z" % (1 + _i % 9))
    CERTS.append((_der, x509stub.pem(_der)))


def int_entry(i):
    der, pem = CERTS[i]
    c = x509stub.Certificate(der)
    return {
        "uniqueID": base64.urlsafe_b64encode(hashlib.sha256(der).digest()).decode(),
        "pubKeyHash": base64.urlsafe_b64encode(hashlib.sha256(c.public_key().public_bytes()).digest()).decode(),
        "subject": c.subject.rfc4514_string(),
        "pem": pem,
        "usesPartitionedCrls": bool(i % 2),
    }


def bad_entry(i, how):
    e = int_entry(i)
    if how == "spki":
        e["pubKeyHash"] = int_entry((i + 1) % len(CERTS) if i % 5 != 3 else i - 1)["pubKeyHash"]
    elif how == "short":
        e["pubKeyHash"] = base64.urlsafe_b64encode(b"x" * 20).decode()
    elif how == "nopem":
        del e["pem"]
    elif how == "nosubject":
        del e["subject"]
    return e


def der_hash(i):
    return base64.standard_b64encode(hashlib.sha256(CERTS[i][0]).digest()).decode()


def log_key(i, v=0):
    k = hashlib.sha512(b"log%d.%d" % (i, v)).digest()
    return base64.b64encode(k).decode(), base64.b64encode(hashlib.sha256(k).digest()).decode()


def key(run):
    m = RUNID.match(run)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


# ---------------------------------------------------------------- loading the real code
_codes = {}


def code(path):
    p = os.path.join(REPO, path)
    if p not in _codes:
        with open(p) as f:
            _codes[p] = compile(f.read(), p, "exec")
    return _codes[p], p


class _Finder:
    """import workflow / settings / __init__ from REPO, fresh for each process"""

    paths = {
        "workflow": "workflow/__init__.py",
        "__init__": "workflow/__init__.py",
        "settings": "moz_kinto_publisher/settings.py",
    }


def fresh_modules(names):
    for name in names:
        c, p = code(_Finder.paths[name])
        m = types.ModuleType(name)
        m.__file__ = p
        sys.modules[name] = m
        exec(c, m.__dict__)


def run_script(actor, path, argv):
    """Runs one program of the repository as the current process."""
    fresh_modules(("workflow", "__init__", "settings"))
    c, p = code(path)
    m = types.ModuleType("__main__")
    m.__file__ = p
    sys.modules["sim_main"] = m
    actor.argv = [p] + [str(x) for x in argv]
    actor.out = io.StringIO()
    sys.argv = actor.argv
    ns = m.__dict__
    ns["__name__"] = "__main__"
    try:
        exec(c, ns)
    except SystemExit as e:
        if e.code not in (None, 0):
            raise
    return actor.out.getvalue()


class _Out(io.TextIOBase):
    def __init__(self, real):
        self.real = real

    def write(self, s):
        a = current()
        if a is None:
            return self.real.write(s)
        getattr(a, "out", self.real).write(s)
        return len(s)

    def flush(self):
        if current() is None:
            self.real.flush()

    def isatty(self):
        return False


_real_dt = _datetime.datetime


class SimDatetime(_real_dt):
    @classmethod
    def now(cls, tz=None):
        a = current()
        if a is None:
            return super().now(tz)
        t = services.SIM.wall(a.host)
        return cls.fromtimestamp(t, tz or _datetime.timezone.utc).replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


def install():
    """Puts the process-wide seams in place, once per worker."""
    sys.dont_write_bytecode = True
    services.install()
    _datetime.datetime = SimDatetime
    real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "sleep")}

    def clock(n):
        def f():
            a = current()
            return real[n]() if a is None else services.SIM.wall(a.host)

        return f

    for n in ("time", "monotonic", "perf_counter"):
        setattr(time, n, clock(n))
    time.sleep = lambda dt: real["sleep"](dt) if current() is None else services.SIM.sleep(dt)
    import subprocess

    class Done:
        returncode, stdout, stderr = 0, b"", b""

    def run(cmd, *a, check=False, **k):
        if current() is None:
            raise RuntimeError("no real subprocess in the simulator")
        rc = services.WORLD.cascade([str(x) for x in cmd])
        if rc and check:
            raise subprocess.CalledProcessError(rc, cmd)
        d = Done()
        d.returncode = rc
        return d

    subprocess.run = run
    subprocess.check_call = lambda cmd, *a, **k: run(cmd, check=True).returncode
    subprocess.call = lambda cmd, *a, **k: run(cmd).returncode
    sys.stdout = _Out(sys.stdout)
    sys.stderr = _Out(sys.stderr)
    os.environ["GOOGLE_APPLICATION_CREDENTIALS"] = "/sim/credentials.json"


class World:
    def __init__(self, plan, scratch, keep_trace=False):
        self.plan = plan
        self.cfg = plan["cfg"]
        self.sim = Sim(plan["seed"], plan["start"])
        self.sim.keep_trace = keep_trace
        services.SIM, services.WORLD = self.sim, self
        self.scratch = scratch
        self.rng = random.Random("world-%d" % plan["seed"])
        self.kinto = services.Kinto(self.sim, self.rng)
        self.kinto.on_status = self.on_status
        self.kinto.on_write = self.on_write
        self.sim.version = lambda n: self.kinto.cols[n]["meta"]["last_modified"]
        self.kinto.enforce_review = self.cfg.get("enforce_review", True)
        self.gcs = services.GCS(self.sim)
        self.gcs.on_put = self.on_put
        self.busy = {}
        self.truth = {}  # serial -> priority
        self.next_serial = 1
        self.runs = {}  # run id -> {"owner","rev","prio","ints","ts","completed"}
        self.docs = {}
        self.reviewed = {}
        self.last_signed = {}
        self.loglist = clone(self.cfg["logs"])
        self.loglist_mode = "ok"
        self.retained = 0  # counts retention events
        self.generating = 0
        self.activity = 0  # bumped by everything that may change what a publisher should do
        self.stats = {"publish_ok": 0, "publish_fail": 0, "generate_ok": 0, "generate_fail": 0, "reviews": 0, "signed": 0, "deltas": 0, "fulls": 0, "noop": 0, "model_compared": 0}
        self.persist = os.path.join(scratch, "processing")
        os.makedirs(self.persist, exist_ok=True)
        self.clock_went_back = False
        self.max_wall = 0.0
        self.gcs.objects["latest/README"] = b"x"
        self.nactor = 0

    # ------------------------------------------------------------ log list
    def loglist_doc(self):
        ops = {}
        for l in self.loglist:
            k, lid = log_key(l["i"], l.get("v", 0))
            if l.get("badid"):
                lid = log_key(l["i"], 9)[1]
            d = {"description": "log %d%s" % (l["i"], l.get("d", "")), "key": k, "log_id": lid, "mmd": l.get("mmd", 86400), "state": {l.get("state", "usable"): {"timestamp": "2021-01-01T00:00:00Z"}}}
            if l.get("tiled"):
                d["monitoring_url"] = "https://tile%d%s.sim/" % (l["i"], l.get("u", ""))
                d["submission_url"] = "https://sub%d.sim/" % l["i"]
            else:
                d["url"] = "https://log%d%s.sim/" % (l["i"], l.get("u", ""))
            op = ops.setdefault(l.get("op", "Op"), {"name": l.get("op", "Op"), "logs": [], "tiled_logs": []})
            op["tiled_logs" if l.get("tiled") else "logs"].append(d)
        return {"operators": list(ops.values())}

    def expected_logs(self):
        out = {}
        for op in self.loglist_doc()["operators"]:
            for kind in ("logs", "tiled_logs"):
                for d in op[kind]:
                    out[d["log_id"]] = {
                        "admissible": any(s in ADMISSIBLE for s in d["state"]),
                        "description": d["description"],
                        "key": d["key"],
                        "logID": d["log_id"],
                        "mmd": d["mmd"],
                        "operator": op["name"],
                        "tiled": kind == "tiled_logs",
                        "url": d["url"] if kind == "logs" else d["monitoring_url"],
                    }
        return out

    def loglist_usable(self):
        ids = [log_key(l["i"], l.get("v", 0))[1] if not l.get("badid") else "bad" for l in self.loglist]
        return self.loglist_mode == "ok" and len(ids) == len(set(ids)) and "bad" not in ids

    def loglist_body(self):
        a = current()
        b = json.dumps(self.loglist_doc()).encode()
        if self.loglist_mode == "html":
            b = b"<html>not found</html>"
        elif self.loglist_mode == "cut":
            b = b[: len(b) * 2 // 3]
        elif self.loglist_mode == "errdoc":
            b = b'{"error": {"code": 503, "message": "backend error"}}'
        elif self.loglist_mode == "nofield":
            d = self.loglist_doc()
            l = [l for op in d["operators"] for l in op["logs"] + op["tiled_logs"]]
            if l:
                del l[-1]["mmd"]
                b = json.dumps(d).encode()
            else:
                b = b"[]"
        a.extra["loglist"] = (self.expected_logs(), self.loglist_usable())
        return b

    # ------------------------------------------------------------ generator
    def cascade(self, cmd):
        """rust-create-cascade: the filter of a run, and what is new since the
        previous revset."""
        a = current()
        opt = {cmd[i]: cmd[i + 1] for i in range(1, len(cmd) - 1) if cmd[i].startswith("--")}
        self.sim.pause(a.rng.choice((60, 300, 900)))
        if a.extra.get("cascade-fails"):
            self.sim.fault("cascade-fails")
            return 1
        outdir, reason = opt["--outdir"], opt["--reason-set"]
        with open(os.path.join(opt["--revoked"], "issuer")) as f:
            rev = {int(k): v for k, v in json.load(f).items()}
        sel = sorted(s for s, p in rev.items() if reason == "all" or p)
        try:
            with open(opt.get("--prev-revset", "")) as f:
                prev = set(json.load(f)["revset"])
        except Exception:
            prev = set()
        if os.path.exists(outdir):
            shutil.rmtree(outdir)
        os.makedirs(os.path.join(outdir, "delta"))
        run = os.path.basename(os.path.dirname(outdir.rstrip("/")))
        d = os.path.basename(outdir)

        def out(name, obj):
            with open(os.path.join(outdir, name), "w") as f:
                json.dump(obj, f)

        out("filter", {"kind": "filter", "dir": d, "run": run, "rev": sel})
        out("filter.delta", {"kind": "delta", "dir": d, "run": run, "add": sorted(set(sel) - prev)})
        out("filter.stash", {"kind": "stash", "dir": d, "run": run, "add": sorted(set(sel) - prev)})
        out("revset.bin", {"kind": "revset", "run": run, "revset": sel})
        out("delta/issuer", {"kind": "issuer", "run": run})
        if a.extra.get("no-filter") == d:
            self.sim.fault("filter-missing")
            os.unlink(os.path.join(outdir, "filter"))
        return 0

    def evolve(self, ev):
        rng = random.Random("%d-evolve-%d" % (self.plan["seed"], ev["id"]))
        for _ in range(ev.get("new", 3)):
            self.truth[self.next_serial] = rng.random() < 0.6
            self.next_serial += 1
        # CAs change the reason of a revocation
        for s in rng.sample(sorted(self.truth), min(len(self.truth), ev.get("reason", 0))):
            self.truth[s] = not self.truth[s]
        for s in rng.sample(sorted(self.truth), min(len(self.truth), ev.get("gone", 0))):
            if self.truth and len(self.truth) > 3:
                del self.truth[s]

    def generate(self, ev):
        def fn(a):
            base = self.persist
            if not self.cfg.get("persist_processing"):
                base = os.path.join(a.scratch, "processing")
                os.makedirs(base)
            before = set(self.gcs.prefixes())
            out = run_script(a, "workflow/0-allocate_identifier", ["--path", base, "--filter-bucket", "crlite_filters"])
            path = out.strip()
            run = os.path.basename(path)
            a.extra["run"] = run
            self.sim.note("allocated %s" % run)
            if not os.path.isdir(path) or not RUNID.match(run):
                self.sim.violate("C24", "allocated-nothing", "0-allocate_identifier ended well but named %r" % out)
                return
            if run + "/" in before:
                self.sim.violate("C24", "run-id-reused", "run identifier %s was allocated although the bucket already holds that run" % run)
            elif any(RUNID.match(x.rstrip("/")) and key(x.rstrip("/")) > key(run) for x in before):
                self.sim.violate("C24", "run-id-not-newest", "allocated %s although the bucket holds a newer identifier" % run)
            self.sim.pause(ev.get("dur", 600))
            self.evolve(ev)
            rev = dict(self.truth)
            ts = open(os.path.join(path, "timestamp")).read()
            info = {"owner": a, "rev": set(rev), "prio": {s for s, p in rev.items() if p}, "ints": list(ev["ints"]), "bad": ev.get("bad", []), "ts": ts, "path": path, "completed": False, "at": self.sim.now}
            a.extra["info"] = info
            for d in ("known", "revoked", "log"):
                os.makedirs(os.path.join(path, d), exist_ok=True)

            def w(name, data):
                with open(os.path.join(path, name), "w") as f:
                    f.write(data)

            w("known/issuer", "k")
            w("revoked/issuer", json.dumps(rev))
            enrolled = [int_entry(i) for i in ev["ints"]]
            for n, (i, how) in enumerate(ev.get("bad", [])):
                enrolled.insert((n * 3) % (len(enrolled) + 1), int_entry(i) if how == "dup" else bad_entry(i, how))
            w("enrolled.json", json.dumps(enrolled))
            w("ct-logs.json", json.dumps([{"run": run}]))
            w("crl-audit.json", "{}")
            w("log/aggregate.log", "log of %s" % run)
            w("crls.tar.gz", "tar %s" % run)
            os.symlink("aggregate.log", os.path.join(path, "log", "latest.log"))
            noop = ["--noop"] if ev.get("noop") else []
            a.noop = bool(noop)
            run_script(a, "workflow/1-upload_data_to_storage", [path, "--filter-bucket", "crlite_filters"] + noop)
            for reason in ("all", "priority"):
                a.extra["cascade-fails"] = ev.get("cascade") == reason
                a.extra["no-filter"] = "clubcard-" + reason if ev.get("nofilter") == reason else None
                run_script(a, "workflow/2-generate_mlbf", [path, "--filter-bucket", "crlite_filters", "--statsd-host", "statsd", "--reason-set", reason, "--filter-type", "clubcard"])
            a.extra["uploading"] = True
            run_script(a, "workflow/3-upload_mlbf_to_storage", [path, "--filter-bucket", "crlite_filters"] + noop)
            a.extra["uploaded"] = True

        def then(a):
            self.busy.pop("generate", None)
            self.generating -= 1
            self.activity += 1
            self.stats["generate_ok" if a.outcome == "ok" else "generate_fail"] += 1
            run = a.extra.get("run")
            if a.extra.get("uploaded") and not a.noop:
                self.check_uploaded(a, run)
            shutil.rmtree(a.scratch, ignore_errors=True)
            if ev.get("then"):
                self.then(ev["then"], a)

        return self.start("generate", ev, "gen", fn, then)

    def local_files(self, a):
        path = a.extra["info"]["path"]
        out = {}
        for d, _, files in os.walk(path):
            for f in files:
                p = os.path.join(d, f)
                if not os.path.islink(p):
                    with open(p, "rb") as h:
                        out[os.path.relpath(p, path)] = h.read()
        return out

    def check_uploaded(self, a, run):
        sim = self.sim
        if run + "/completed" not in self.gcs.objects and not self.retained:
            sim.violate("C24", "no-sentinel", "3-upload_mlbf_to_storage ended well but %s/completed does not exist" % run)
        for f, b in self.local_files(a).items():
            if f.startswith("clubcard-all/") and self.gcs.objects.get("latest/" + f[len("clubcard-all/") :]) != b:
                sim.violate("C24", "latest-stale", "after the upload of %s, latest/%s is not that run's %s" % (run, f[len("clubcard-all/") :], f))

    def on_put(self, who, name, old, new):
        sim = self.sim
        run, _, rest = name.partition("/")
        if who is None:
            return
        if getattr(who, "noop", False):
            sim.violate("C25", "noop-upload", "%s --noop wrote %s" % (who.name, name))
        if run == "latest":
            return
        if not RUNID.match(run):
            sim.violate("C24", "upload-misplaced", "%s was uploaded outside of the run's directory" % name)
            return
        info = who.extra.get("info")
        mine = who.extra.get("run")
        p = self.busy.get("publish")
        if p is not None and "newest" in p.extra:
            p.extra["newest"].add(self.bucket_runs()[-1])
        if run != mine:
            sim.violate("C24", "upload-misplaced", "the generator of run %s wrote %s" % (mine, name))
            return
        r = self.runs.get(run)
        if r is None or r is not info:
            if r is not None and r["owner"] is not who:
                sim.violate("C24", "run-overwritten", "run %s, uploaded earlier, is overwritten by another run (%s)" % (run, name))
            self.runs[run] = info
        if info["completed"] and rest != "completed" and old != new:
            sim.violate("C24", "changed-after-completed", "%s changes after the run was marked completed" % name)
        if rest == "completed":
            info["completed"] = True
            self.activity += 1
            for f, b in sorted(self.local_files(who).items()):
                if self.gcs.objects.get(run + "/" + f) != b:
                    sim.violate("C24", "completed-too-early", "run %s is marked completed but %s is %s in the bucket" % (run, f, "missing" if run + "/" + f not in self.gcs.objects else "different"))
                    break
            for d in ENABLED.values():
                for f in ("filter", "filter.delta"):
                    if "%s/%s/%s" % (run, d, f) not in self.gcs.objects and not who.extra.get("no-filter-any"):
                        if d == "clubcard-all" and f == "filter":
                            sim.violate("C24", "completed-without-filter", "run %s is marked completed without %s/%s" % (run, d, f))

    # ------------------------------------------------------------ publisher
    def bucket_runs(self):
        return sorted((p.rstrip("/") for p in self.gcs.prefixes() if RUNID.match(p.rstrip("/"))), key=key)

    def chain(self, records, slug):
        """(ordered records, problem) of a channel"""
        rs = [r for r in records if r.get("channel", "default") == slug]
        if not rs:
            return [], None
        for r in rs:
            if "attachment" not in r:
                return None, "record %s has no attachment" % r["id"]
            if not isinstance(r.get("incremental"), bool):
                return None, "record %s does not say if it is incremental" % r["id"]
        full = [r for r in rs if not r["incremental"]]
        if len(full) != 1:
            return None, "%d full filters" % len(full)
        kids = {}
        for r in rs:
            if r["incremental"]:
                kids.setdefault(r.get("parent"), []).append(r)
        out = [full[0]]
        while True:
            k = kids.pop(out[-1]["id"], [])
            if not k:
                break
            if len(k) > 1:
                return None, "%d increments have the same parent" % len(k)
            out.append(k[0])
        if len(out) != len(rs):
            return None, "%d increments do not descend from the full filter" % (len(rs) - len(out))
        return out, None

    def record_run(self, r):
        return r["attachment"]["filename"].rsplit("-", 1)[0]

    def ts_epoch(self, iso):
        return _real_dt.fromisoformat(iso).replace(tzinfo=_datetime.timezone.utc).timestamp()

    def parsed(self, location):
        if location not in self.docs:
            d = json.loads(self.kinto.blobs.get(location, b""))
            d["set"] = set(d.get("rev", d.get("add", ())))
            self.docs[location] = d
        return self.docs[location]

    def check_chains(self, where):
        sim = self.sim
        records = self.kinto.records("cert-revocations")
        for slug, d in ENABLED.items():
            c, problem = self.chain(records, slug)
            if problem:
                sim.violate("C20", "broken-chain", "%s: channel %s: %s" % (where, slug, problem))
                continue
            if not c:
                sim.violate("C20", "empty-channel", "%s: channel %s has no records" % (where, slug))
                continue
            have, prev = None, None
            for r in c:
                try:
                    doc = self.parsed(r["attachment"]["location"])
                except ValueError:
                    sim.violate("C20", "bad-attachment", "%s: channel %s: the attachment of %s is not a file that a run produced" % (where, slug, r["attachment"]["filename"]))
                    have = None
                    break
                want = "delta" if r["incremental"] else "filter"
                run = self.record_run(r)
                if doc["kind"] != want or doc["dir"] != d or doc["run"] != run:
                    sim.violate("C20", "wrong-attachment", "%s: channel %s: record %s holds the %s of %s/%s" % (where, slug, r["attachment"]["filename"], doc["kind"], doc["run"], doc["dir"]))
                    have = None
                    break
                info = self.runs.get(run)
                if info is None or not info["completed"]:
                    sim.violate("C20", "incomplete-run", "%s: channel %s: record of run %s, which was never completed" % (where, slug, run))
                    have = None
                    break
                if info["path"] is not None and r.get("effectiveTimestamp") != int(self.ts_epoch(info["ts"]) * 1000):
                    sim.violate("C20", "wrong-timestamp", "%s: channel %s: record of run %s has effectiveTimestamp %s, the run has %s" % (where, slug, run, r.get("effectiveTimestamp"), info["ts"]))
                if prev is not None and key(prev) >= key(run):
                    sim.violate("C20", "out-of-order", "%s: channel %s: run %s follows %s" % (where, slug, run, prev))
                want_exp = "env.version|versionCompare('%d.!') >= 0 && '%s' == 'security.pki.crlite_channel'|preferenceValue('none')" % (VERSION, slug)
                if r.get("filter_expression") != want_exp:
                    sim.violate("C20", "wrong-audience", "%s: channel %s: filter expression %r" % (where, slug, r.get("filter_expression")))
                have = set(doc["set"]) if want == "filter" else have
                if want == "delta":
                    have.update(doc["set"])
                prev = run
            if have is None:
                continue
            info = self.runs[prev]
            miss = info["rev" if d == "clubcard-all" else "prio"] - have
            if miss:
                sim.violate("C20", "revocation-missing", "%s: a client of channel %s that applies all records up to run %s does not know %d revocations of that run (%s)" % (where, slug, prev, len(miss), sorted(miss)[:5]))
            age = self.ts_epoch(info["ts"]) - self.ts_epoch(self.runs[self.record_run(c[0])]["ts"])
            if len(c) > 1 and age >= MAXAGE:
                sim.violate("C21", "filter-too-old", "%s: channel %s: the full filter is %.1f days older than the newest increment" % (where, slug, age / 86400))

    def canon(self, name):
        return {r["id"]: {k: v for k, v in r.items() if k != "last_modified"} for r in self.kinto.records(name)}

    def on_status(self, who, name, status):
        sim = self.sim
        w = who.name if who is not None else "reviewer"
        sim.note("%s: %s -> %s" % (w, name, status))
        if who is not None and getattr(who, "noop", False) and not (status == "work-in-progress"):
            sim.violate("C25", "noop-write", "%s --noop sets %s to %s" % (w, name, status))
        if status == "to-review":
            self.stats["reviews"] += 1
            self.reviewed[name] = self.canon(name)
            if name == "cert-revocations":
                self.check_chains("review requested")
            if name == "intermediates":
                self.check_intermediates(who)
        if status == "signed":
            self.stats["signed"] += 1
            if self.reviewed.get(name) != self.canon(name):
                sim.violate("C26", "signed-unreviewed", "%s was signed with content for which no review had been requested" % name)
            if name == "cert-revocations":
                self.check_chains("signed")
            self.last_signed[name] = self.canon(name)
        if status == "to-sign" and who is not None and who.extra.get("signed-from") not in (None, "to-review"):
            sim.violate("C26", "signed-unreviewed", "%s was signed while it was %s" % (name, who.extra.get("signed-from")))

    def check_intermediates(self, who):
        sim = self.sim
        recs = self.kinto.records("intermediates")
        got = {}
        for r in recs:
            at = r.get("attachment")
            if not at:
                sim.violate("C22", "no-attachment", "review of intermediates requested with a record without attachment")
                return
            body = self.kinto.blobs.get(at["location"], b"")
            try:
                der = x509stub.load_pem_x509_certificate(body).public_bytes()
            except Exception:
                sim.violate("C22", "bad-attachment", "review of intermediates requested with an attachment that is no certificate")
                return
            h = base64.standard_b64encode(hashlib.sha256(der).digest()).decode()
            if r.get("derHash") != h:
                sim.violate("C22", "wrong-hash", "review of intermediates requested with a record whose derHash is not that of its certificate")
                return
            if h in got:
                sim.violate("C22", "duplicate", "review of intermediates requested with a certificate listed twice")
                return
            got[h] = r
        # a run that was the newest one at some moment of this process
        cands = who.extra.get("newest", set()) if who is not None else set()
        ok = False
        for run in cands:
            info = self.runs.get(run)
            if info is not None and set(got) == {der_hash(i) for i in info["ints"]} | {der_hash(i) for i, how in info["bad"] if how == "dup"}:
                ok = True
        if who is not None and who.extra.get("enrolled") is not None:
            ok = set(got) == {der_hash(i) for i in who.extra["enrolled"]}
        if not ok:
            sim.violate("C22", "wrong-set", "review of intermediates requested for %d certificates that are not the enrolled ones of the newest run (%s)" % (len(got), sorted(cands)))

    def on_write(self, who, name, kind, old, new):
        sim = self.sim
        if who is None:
            return
        if getattr(who, "noop", False):
            sim.violate("C25", "noop-write", "%s --noop: %s in %s" % (who.name, kind, name))
        who.extra["changed"] = who.extra.get("changed", 0) + 1
        if name == "cert-revocations" and kind == "attach":
            self.stats["deltas" if new.get("incremental") else "fulls"] += 1
        if name == "ct-logs":
            served, usable = who.extra.get("loglist", ({}, False))
            if not usable:
                sim.violate("C23", "bad-list-used", "ct-logs changed after a log list that is malformed")
                return
            lid = (old or new).get("logID")
            if kind == "delete":
                if lid in served:
                    sim.violate("C23", "log-dropped", "log %s, which the list still holds, was deleted" % lid)
            else:
                want = served.get(lid)
                if want is None:
                    sim.violate("C23", "unknown-log", "log %s is not on the list" % lid)
                    return
                diff = [k for k in want if new.get(k) != want[k]]
                if diff:
                    sim.violate("C23", "wrong-log-data", "log %s was written with wrong %s" % (lid, diff))
                if kind == "update" and old is not None and new.get("crlite_enrolled") != old.get("crlite_enrolled"):
                    sim.violate("C23", "enrollment-changed", "an update of log %s changed crlite_enrolled from %s to %s" % (lid, old.get("crlite_enrolled"), new.get("crlite_enrolled")))
                if kind == "create" and any(r.get("logID") == lid and r["id"] != new["id"] for r in self.kinto.cols[name]["records"].values()):
                    sim.violate("C23", "duplicate-log", "log %s was added twice" % lid)

    def model(self, slug, records):
        """Reference model: the runs that a channel should hold after an
        undisturbed publication."""
        d = ENABLED[slug]
        runs = self.bucket_runs()
        obj = self.gcs.objects
        c, problem = self.chain(records, slug)
        have = [self.record_run(r) for r in c] if c else []
        if not runs or runs[-1] + "/completed" not in obj:
            return have if not problem else None
        if problem or not have:
            return [runs[-1]]
        new = [r for r in runs if key(r) > key(have[-1])]
        if not new:
            if any(h not in runs for h in have):
                return [runs[-1]]
            if self.run_ts(runs[-1]) - self.run_ts(have[0]) >= MAXAGE:
                return [runs[-1]]
            return have
        if any(h not in runs for h in have):
            return [runs[-1]]
        for r in new:
            need = ["completed", "ct-logs.json", d + "/filter", d + "/filter.delta"]
            if any("%s/%s" % (r, n) not in obj for n in need):
                return [runs[-1]]
        ts = [self.run_ts(r) for r in [have[-1]] + new]
        if ts[1] <= ts[0] or any(x > y for x, y in zip(ts, ts[1:])):
            return [runs[-1]]
        if ts[-1] - self.run_ts(have[0]) >= MAXAGE:
            return [runs[-1]]
        return have + new

    def run_ts(self, run):
        return self.ts_epoch(self.gcs.objects[run + "/timestamp"].decode())

    def watch_newest(self, a):
        if a.done:
            return
        r = self.bucket_runs()
        if r:
            a.extra["newest"].add(r[-1])

    def publish(self, ev):
        def fn(a):
            noop = ["--noop"] if ev.get("noop") else []
            a.noop = bool(noop)
            extra = []
            if ev.get("enrolled") is not None:
                p = os.path.join(a.scratch, "enrolled.json")
                with open(p, "w") as f:
                    json.dump([int_entry(i) for i in ev["enrolled"]], f)
                extra = ["--enrolled-json", p]
                a.extra["enrolled"] = ev["enrolled"]
            a.extra["newest"] = set()
            self.watch_newest(a)
            runs = self.bucket_runs()
            a.extra["act0"] = (self.activity, self.generating, self.retained)
            a.extra["newest0"] = runs[-1] if runs else None
            a.extra["ready0"] = bool(runs) and runs[-1] + "/completed" in self.gcs.objects
            recs = self.kinto.records("cert-revocations")
            try:
                a.extra["model"] = {s: self.model(s, recs) for s in ENABLED}
            except KeyError:
                a.extra["model"] = None
            a.extra["before"] = {n: self.canon(n) for n in self.kinto.cols}
            a.extra["list-ok"] = self.loglist_usable()
            run_script(a, "moz_kinto_publisher/main.py", ["--filter-bucket", "crlite_filters", "--download-path", os.path.join(a.scratch, "dl")] + noop + extra)

        def then(a):
            self.busy.pop("publish", None)
            self.stats["publish_ok" if a.outcome == "ok" else "publish_fail"] += 1
            if getattr(a, "noop", False):
                self.stats["noop"] += 1
                if a.extra.get("writes"):
                    self.sim.violate("C25", "noop-write", "%s --noop sent %d changes to Remote Settings" % (a.name, a.extra["writes"]))
            else:
                self.check_published(a)
            shutil.rmtree(a.scratch, ignore_errors=True)
            if ev.get("then"):
                self.then(ev["then"], a)

        return self.start("publish", ev, "pub", fn, then)

    def check_published(self, a):
        """After a publisher that met no fault, and during which nothing else
        happened, everything is as the reference model says."""
        sim = self.sim
        if a.errors or a.injected or a.extra.get("act0") != (self.activity, self.generating, self.retained) or not a.extra.get("list-ok") or a.extra.get("disturbed"):
            return
        if self.generating:
            return
        if not a.extra["ready0"]:
            return
        newest = a.extra["newest0"]
        if a.outcome != "ok":
            ok_reason = any("%s/%s/filter" % (newest, d) not in self.gcs.objects for d in ENABLED.values()) or newest + "/enrolled.json" not in self.gcs.objects
            if not ok_reason:
                sim.violate("C27", "publish-fails", "%s ended with %s though nothing had failed" % (a.name, a.outcome))
            return
        recs = self.kinto.records("cert-revocations")
        model = a.extra["model"]
        if model is not None:
            self.stats["model_compared"] += 1
        for slug in ENABLED:
            c, problem = self.chain(recs, slug)
            if problem:
                sim.violate("C20", "broken-chain", "after an undisturbed publication: channel %s: %s" % (slug, problem))
                continue
            got = [self.record_run(r) for r in c]
            if not got or got[-1] != newest and key(got[-1]) < key(newest):
                sim.violate("C27", "not-published", "after an undisturbed publication, channel %s ends with %s instead of %s" % (slug, got[-1:], newest))
            elif model is not None and model[slug] is not None and got != model[slug]:
                cls = "needless-full" if len(got) < len(model[slug]) else "increments-kept"
                sim.violate("C21", cls, "channel %s holds the runs %s, expected %s" % (slug, got[:3] + ["..."] + got[-1:] if len(got) > 4 else got, model[slug][:3] + ["..."] + model[slug][-1:] if len(model[slug]) > 4 else model[slug]))
        left = [r for r in recs if r.get("channel", "default") not in ENABLED]
        if left:
            sim.violate("C27", "unused-channel", "records of a disabled channel remain after a publication (%s)" % left[0].get("channel"))
        for n in ("cert-revocations", "intermediates"):
            st = self.kinto.cols[n]["meta"]["status"]
            if st == "work-in-progress":
                sim.violate("C27", "review-not-requested", "after an undisturbed publication, %s is still %s" % (n, st))
        if not a.extra.get("human"):
            self.check_logs(a, "after an undisturbed publication")
        info = self.runs.get(newest)
        if info is not None or a.extra.get("enrolled") is not None:
            ints = a.extra["enrolled"] if a.extra.get("enrolled") is not None else list(info["ints"]) + [i for i, how in info["bad"] if how == "dup"]
            want = {der_hash(i) for i in ints}
            got = {r.get("derHash") for r in self.kinto.records("intermediates")}
            if got != want:
                sim.violate("C22", "not-converged", "after an undisturbed publication, intermediates holds %d certificates, enrolled are %d" % (len(got), len(want)))

    def check_logs(self, a, where):
        sim = self.sim
        want = self.expected_logs()
        recs = {r.get("logID"): r for r in self.kinto.records("ct-logs")}
        if set(recs) != set(want):
            sim.violate("C23", "not-converged", "%s, ct-logs holds %d logs, the list %d" % (where, len(recs), len(want)))
            return
        for lid, w in want.items():
            diff = [k for k in w if recs[lid].get(k) != w[k]]
            if diff:
                sim.violate("C23", "not-converged", "%s, the record of log %s has other %s than the list" % (where, lid, diff))
        if self.kinto.cols["ct-logs"]["meta"]["status"] == "work-in-progress":
            sim.violate("C27", "review-not-requested", "%s, ct-logs is still work-in-progress" % where)

    # ------------------------------------------------------------ sign-off
    def signoff(self, ev):
        def fn(a):
            argv = ["--noop"] if ev.get("noop") else []
            a.noop = bool(argv)
            for n in ev.get("cols", ["intermediates", "cert-revocations"]):
                a.extra.pop("signed-from", None)
                try:
                    run_script(a, "containers/scripts/crlite-signoff-tool.py", [n] + argv)
                except SystemExit:
                    a.extra["failed"] = True
                except Exception as e:
                    a.extra["failed"] = True
                    self.sim.note("sign-off tool dies: %s" % type(e).__name__)

        def then(a):
            self.busy.pop("signoff", None)
            if getattr(a, "noop", False) and a.extra.get("writes"):
                self.sim.violate("C25", "noop-write", "%s --noop sent %d changes" % (a.name, a.extra["writes"]))
            shutil.rmtree(a.scratch, ignore_errors=True)
            if ev.get("then"):
                self.then(ev["then"], a)

        return self.start("signoff", ev, "pub", fn, then)

    # ------------------------------------------------------------ events
    def start(self, kind, ev, host, fn, then):
        if kind in self.busy:
            self.sim.note("%s skipped: the previous one still runs" % kind)
            if ev.get("then"):
                self.sim.at(self.sim.now + 600, lambda: self.event(ev))
            return None
        self.nactor += 1
        faults = ev.get("faults", {})
        name = "%s@%d" % (kind, ev["id"])
        scratch = os.path.join(self.scratch, "a%d" % self.nactor)
        os.makedirs(scratch)

        def wrapped(a):
            a.noop = False
            enter(a)
            fn(a)

        a = self.sim.spawn(name, host, wrapped, faults, then=then)
        a.scratch = scratch
        self.busy[kind] = a
        if kind == "generate":
            self.generating += 1
            self.activity += 1
            p = self.busy.get("publish")
            if p is not None:
                p.extra["disturbed"] = True
        return a

    def note_wall(self):
        w = self.sim.wall("gen")
        if w < self.max_wall - 1:
            self.clock_went_back = True
        self.max_wall = max(self.max_wall, w)

    def event(self, ev):
        k = ev["kind"]
        sim = self.sim
        self.note_wall()
        sim.note("event %s" % k)
        p = self.busy.get("publish")
        if k == "generate":
            self.generate(ev)
        elif k == "publish":
            self.publish(ev)
        elif k == "signoff":
            self.signoff(ev)
        elif k == "expire":
            runs = self.bucket_runs()
            gone = runs[: max(0, len(runs) - ev["keep"])]
            # never runs of a day whose identifiers are still being allocated
            gone = [r for r in gone if r in self.runs and self.runs[r]["at"] < sim.now - ev["age"] and not self.clock_went_back]
            if gone:
                self.retained += 1
                sim.fault("retention")
            for r in gone:
                for n in [n for n in self.gcs.objects if n.startswith(r + "/")]:
                    del self.gcs.objects[n]
        elif k == "skew":
            sim.fault("clock-jump")
            sim.skew[ev["host"]] = sim.skew.get(ev["host"], 0.0) + ev["by"]
            self.note_wall()
        elif k == "loglist":
            sim.fault("log-list-" + ev["change"])
            self.activity += 1
            self.change_list(ev)
        elif k == "enroll":
            recs = sorted(self.kinto.cols["ct-logs"]["records"].values(), key=lambda r: r.get("logID", ""))
            if recs:
                r = recs[ev["n"] % len(recs)]
                new = dict(r)
                new["crlite_enrolled"] = not r.get("crlite_enrolled")
                if p is not None:
                    p.extra["human"] = True
                    p.extra["disturbed"] = True
                self.kinto.write("ct-logs", None, "update", r["id"], new)
        elif k == "approve":
            m = self.kinto.cols["ct-logs"]["meta"]
            if m["status"] == "to-review":
                self.kinto.set_status("ct-logs", "signed", None)
        elif k in ("tamper", "oldchannel") and p is not None:
            sim.at(sim.now + 600, lambda: self.event(ev))
        elif k == "tamper":
            sim.fault("tampered-record")
            self.tamper(ev)
        elif k == "oldchannel":
            w = self.kinto
            rid = w.newid()
            w.write("cert-revocations", None, "create", rid, {"incremental": bool(ev["n"] % 2), "channel": "experimental+deltas", "details": {"name": "2020-01-01T00:00:00+00:00Z-full"}})
        else:
            raise ValueError(k)

    def change_list(self, ev):
        c = ev["change"]
        l = self.loglist
        self.loglist_mode = "ok"
        if c == "add":
            i = max([x["i"] for x in l], default=0) + 1
            l.append({"i": i, "op": "Op%d" % (i % 3), "tiled": ev["n"] % 2 == 1})
        elif c in ("html", "cut", "errdoc", "nofield"):
            self.loglist_mode = c
        elif l:
            x = l[ev["n"] % len(l)]
            if c == "drop":
                l.remove(x)
            elif c == "url":
                x["u"] = "-%d" % ev["n"]
            elif c == "mmd":
                x["mmd"] = 3600 * (1 + ev["n"] % 48)
            elif c == "desc":
                x["d"] = " v%d" % ev["n"]
            elif c == "op":
                x["op"] = "Moved%d" % ev["n"]
            elif c == "state":
                x["state"] = ("pending", "qualified", "usable", "readonly", "retired", "rejected")[ev["n"] % 6]
            elif c == "tiled":
                x["tiled"] = not x.get("tiled")
            elif c == "dup":
                l.append(dict(x))
            elif c == "badid":
                x["badid"] = True
        if c == "repair":
            seen, out = set(), []
            for x in l:
                x.pop("badid", None)
                if x["i"] not in seen:
                    seen.add(x["i"])
                    out.append(x)
            self.loglist = out

    def tamper(self, ev):
        col = ev["col"]
        recs = sorted(self.kinto.cols[col]["records"].values(), key=lambda r: r["id"])
        if not recs:
            return
        r = clone(recs[ev["n"] % len(recs)])
        how = ev["how"]
        w = self.kinto
        if how == "delete":
            w.write(col, None, "delete", r["id"], None)
        elif how == "noattach":
            r.pop("attachment", None)
            w.write(col, None, "update", r["id"], r)
        elif how == "dup":
            w.write(col, None, "create", w.newid(), r)
        elif how == "hash":
            r["derHash"] = der_hash((ev["n"] * 7) % len(CERTS))
            w.write(col, None, "update", r["id"], r)
        elif how == "extra":
            pem = CERTS[ev["n"] % len(CERTS)]
            rid = w.newid()
            w.write(col, None, "create", rid, {"derHash": der_hash(ev["n"] % len(CERTS))})
            w.attach(col, None, rid, "x.pem", pem[1].encode(), "text/plain")
        elif how == "parent":
            r["parent"] = "nobody"
            w.write(col, None, "update", r["id"], r)
        elif how == "full":
            r["incremental"] = not r.get("incremental")
            w.write(col, None, "update", r["id"], r)

    # ------------------------------------------------------------ the end
    def then(self, stage, a):
        """The last phase: faults have stopped."""
        sim, fin = self.sim, self.plan["final"]
        if stage == "generated":
            if a.outcome != "ok":
                sim.violate("C24", "generate-fails", "the last run of the generator ended with %s though nothing had failed" % a.outcome)
            self.final_run = a.extra.get("run")
            self.event({"kind": "publish", "id": 9001, "then": "published1", "t": 0})
        elif stage == "published1":
            self.event({"kind": "publish", "id": 9002, "then": "published2", "t": 0})
        elif stage == "published2":
            if a.outcome != "ok":
                sim.violate("C27", "publish-fails", "the last publisher ended with %s though nothing had failed" % a.outcome)
            self.event({"kind": "signoff", "id": 9003, "then": "signed", "t": 0})
        elif stage == "signed":
            self.finish_checks(a)

    def finish_checks(self, a):
        sim = self.sim
        if a.extra.get("failed") or a.outcome != "ok":
            sim.violate("C26", "signoff-fails", "the last sign-off failed though nothing had")
        recs = self.kinto.records("cert-revocations")
        for slug in ENABLED:
            c, problem = self.chain(recs, slug)
            if problem or not c or self.record_run(c[-1]) != self.final_run:
                sim.violate("C27", "not-published", "after the faults, channel %s does not end with the newest run %s: %s" % (slug, self.final_run, problem or [self.record_run(r) for r in c][-2:]))
        for n in ("cert-revocations", "intermediates"):
            st = self.kinto.cols[n]["meta"]["status"]
            if st != "signed":
                sim.violate("C27", "never-signed", "after the faults, %s is %s and not signed" % (n, st))
        info = self.runs.get(self.final_run)
        if info is not None:
            want = {der_hash(i) for i in info["ints"]} | {der_hash(i) for i, how in info["bad"] if how == "dup"}
            got = {r.get("derHash") for r in self.kinto.records("intermediates")}
            if got != want:
                sim.violate("C22", "not-converged", "after the faults, intermediates holds %d certificates, enrolled are %d" % (len(got), len(want)))
        self.check_logs(None, "after the faults")
        self.finished = True

    def final_phase(self):
        sim = self.sim
        sim.windows = []
        sim.skew = {}
        if self.loglist_mode != "ok" or not self.loglist_usable():
            self.change_list({"change": "repair", "n": 0})
        # a new day, later than any timestamp of an earlier run
        day = 86400
        sim.now = (int(max(sim.now, self.max_wall) // day) + 1) * day + 3600.0
        ev = dict(self.plan["final"]["generate"])
        ev.update({"kind": "generate", "id": 9000, "then": "generated", "t": 0})
        self.event(ev)

    def execute(self):
        self.finished = False
        sim = self.sim
        for ev in self.plan["events"]:
            sim.at(sim.start + ev["t"], lambda ev=ev: self.event(ev))
        sim.windows = [(s, sim.start + f, sim.start + t, p) for s, f, t, p in self.plan["windows"]]
        try:
            sim.run()
            self.final_phase()
            sim.run()
            if not self.finished and not sim.violations:
                sim.violate("C27", "never-signed", "the last phase did not reach its end")
        except SimStuck:
            sim.violate("C27", "hang", "%s does not end" % sim.hung)
        finally:
            sim.close()
        return self


def enter(a):
    """Makes the process-wide settings those of actor a each time it resumes."""
    def resume():
        sys.argv = getattr(a, "argv", sys.argv)
        tempfile.tempdir = a.scratch

    a.resume = resume
    resume()


def nontrivial(r):
    return r["stats"]["reviews"] and (r["faults"] or r["overlaps"])

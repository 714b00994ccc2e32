"""The jobs' world: histories of the jobs that run crlite in production.

Every job is its real shell script (containers/scripts) with the real workflow
programs and the real rust-create-cascade or rust-query-crlite, run as an
unprivileged user in a scratch directory. Each program that it starts, each
operation on the outside world (Google Cloud Storage, Remote Settings, the
requests of the query tool) and each operation of a program on its disk is
numbered, and the plan says which of them fails or is the job's last."""
import importlib.util
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import tarfile
import time
import urllib.parse
from datetime import datetime, timezone

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("CRLSIM_REPO", "/repo")


def other(name, where):
    spec = importlib.util.spec_from_file_location(name, os.path.join(VERIF, "sim", where))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


fw = other("filter_world", "rust/world.py")
qw = other("client_world", "query/world.py")
STEP = os.path.join(os.environ.get("CRLSIM_RUST", os.path.join(VERIF, ".build", "rust")), "step")
LIMIT = 60
NOBODY = 65534
SECRET = '{"simulation": "secret"}'
KINTO = {"KINTO_RW_SERVER_URL": "https://rs.example/v1/", "KINTO_AUTH_USER": "signer", "KINTO_AUTH_PASSWORD": "password"}
BUCKETS = {"crlite-filters-prod": "prod", "crlite-filters-stage": "stage", "crlite-filters-dev": "dev"}
DIRS = {"all": "clubcard-all", "priority": "clubcard-priority"}
_user = None


def user():
    """The unprivileged user, if there is one and it can run the programs."""
    global _user
    if _user is None:
        need = [fw.EXE, qw.EXE, fw.SHIM, STEP, os.path.join(HERE, "lib", "glog.py"), os.path.join(REPO, "workflow", "__init__.py")]
        code = "import os,sys; sys.exit(not all(os.access(x, os.R_OK) for x in sys.argv[1:]))"
        try:
            p = subprocess.run([sys.executable, "-S", "-c", code] + need, user=NOBODY, group=NOBODY, extra_groups=[], stderr=subprocess.DEVNULL)
            _user = NOBODY if p.returncode == 0 else 0
        except (OSError, PermissionError, subprocess.SubprocessError):
            _user = 0
    return _user


def install():
    user()


def number(run):
    d, n = run.split("-")
    return d, int(n)


def is_run(s):
    d, _, n = s.partition("-")
    return len(d) == 8 and d.isdigit() and n.isdigit()


class World(fw.World):
    def __init__(self, plan, scratch, keep):
        self.plan, self.sim = plan, fw.Rec()
        self.top = top = os.path.realpath(scratch)
        self.job = os.path.join(top, "job")
        self.root = os.path.join(self.job, "inputs")  # of the filter generator's world
        self.stats = {k: 0 for k in ("jobs", "generations", "generated", "generation_failed", "generation_died", "completed", "completed_then_failed", "no_upload", "no_credentials", "credentials_data", "retry_generated", "deltas", "steps", "operations", "programs", "signoffs", "signed", "not_signed", "too_large", "size_unknown", "unknown_bucket", "noop", "publications", "fetches", "commits", "faults_survived", "died", "issuer_gone", "dup_known", "dup_revoked", "reason_changed", "unrevoked")}
        self.stats["runs"] = 0
        self.known, self.revoked, self.logs = {}, {}, []
        self.records = {"stage": [], "prod": []}
        self.dirty = False
        for d in ("app", "bin", "job", "job/inputs", "persistent", "persistent/crls", "persistent/certdb", "store", "net", "tmp"):
            os.mkdir(os.path.join(top, d))
        b = os.path.join(top, "bin")
        self.tools = {"python3": os.path.realpath(sys.executable)}
        for t in ("mkdir", "chmod", "tar"):
            self.tools[t] = shutil.which(t) or "/bin/" + t
        for t in self.tools:
            os.symlink(STEP, os.path.join(b, t))
        a = os.path.join(top, "app")
        for t, real in (("aggregate-crls", None), ("aggregate-known", None), ("rust-create-cascade", fw.EXE), ("rust-query-crlite", qw.EXE), ("ct-fetch", None), ("commit", None), ("moz_kinto_publisher/main.py", None)):
            n = os.path.basename(t)
            os.makedirs(os.path.dirname(os.path.join(a, t)), exist_ok=True)
            os.symlink(STEP, os.path.join(a, t))
            if real is None:
                # a program of the simulation, which has to know its name
                real = os.path.join(top, "job", "programs", n)
                os.makedirs(os.path.dirname(real), exist_ok=True)
                os.symlink(os.path.join(HERE, "app", "aggregate" if n.startswith("aggregate") else "program"), real)
            self.tools[n] = real
        os.symlink(os.path.join(REPO, "containers", "scripts"), os.path.join(a, "scripts"))
        os.symlink(os.path.join(REPO, "workflow"), os.path.join(a, "workflow"))
        with open(os.path.join(top, "persistent", "ccadb-intermediates.csv"), "w") as f:
            f.write("a,b\n")
        for i in range(3):
            with open(os.path.join(top, "persistent", "crls", "ca%d.crl" % i), "wb") as f:
                f.write(b"crl %d" % i * (i + 1))
        with open(os.path.join(self.job, "secret"), "w") as f:
            f.write(SECRET)
        self.crl = 0
        self.own(top)

    def own(self, path):
        if user() != NOBODY:
            return
        parent = os.path.dirname(self.top)
        if os.path.basename(parent).startswith("crlpub-"):
            os.chmod(parent, 0o711)
        os.chown(path, NOBODY, NOBODY)
        for d, ds, fs in os.walk(path):
            for x in ds + fs:
                os.chown(os.path.join(d, x), NOBODY, NOBODY, follow_symlinks=False)

    def bucket(self, name):
        out = {}
        d = os.path.join(self.top, "store", urllib.parse.quote(name, safe=""))
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.endswith("%new"):
                    continue
                with open(os.path.join(d, n), "rb") as f:
                    out[urllib.parse.unquote(n)] = f.read()
        return out

    def stores(self):
        s = os.path.join(self.top, "store")
        return {urllib.parse.unquote(d): self.bucket(urllib.parse.unquote(d)) for d in os.listdir(s) if not d.startswith(".")}

    def event(self, e):
        if e["k"] == "job":
            getattr(self, e["job"])(e)
        elif e["k"] == "crls":
            self.crl += 1
            with open(os.path.join(self.top, "persistent", "crls", "ca%d.crl" % (e["n"] % 4)), "wb") as f:
                f.write(b"new crl %d" % e["n"])
        elif e["k"] == "object":  # something else that is in the bucket
            d = os.path.join(self.top, "store", urllib.parse.quote(e["bucket"], safe=""))
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, urllib.parse.quote(e["name"], safe="")), "wb") as f:
                f.write(b"x")
        elif e["k"] == "publish":
            self.records[e["inst"]] = e["filters"]
        else:
            super().event(e)

    # ------------------------------------------------------------- a job
    def start(self, e, script, env):
        """Runs a job in a fresh container. Returns (exit status or None, what went wrong in it)."""
        sim, st, top = self.sim, self.stats, self.top
        for d in ("processing", "tmp"):
            p = os.path.join(top, d)
            if os.path.exists(p):
                subprocess.run(["chmod", "-R", "u+w", p])
                shutil.rmtree(p)
            os.mkdir(p)
        for n in ("steps", "met", "log", "shim"):
            p = os.path.join(self.job, n)
            if os.path.exists(p):
                os.unlink(p)
        with open(os.path.join(self.job, "plan"), "w") as f:
            for k, v in e.get("faults", {}).items():
                f.write("%s %s\n" % (k, v))
        with open(os.path.join(self.job, "tools"), "w") as f:
            for t, r in self.tools.items():
                f.write("%s %s\n" % (t, r))
        # the runs' names, for those who read traces
        what = {"fetch": "crlite-fetch.sh", "commit": "crlite-commit.sh", "publish": "crlite-publish.sh", "generate": "crlite-generate.sh", "signoff": "crlite-signoff.sh"}[script]
        self.own(top)
        a = os.path.join(top, "app")
        full = {
            "PATH": os.path.join(top, "bin") + ":/usr/local/bin:/usr/bin:/bin", "HOME": a, "LANG": "C.UTF-8",
            "crlite_log": os.path.join(top, "processing"), "crlite_processing": os.path.join(top, "processing"), "crlite_persistent": os.path.join(top, "persistent"),
            "crlite_workflow": os.path.join(a, "workflow"), "crlite_bin": a, "certPath": os.path.join(top, "persistent", "certdb"),
            "PYTHONPATH": os.path.join(HERE, "lib"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TMPDIR": os.path.join(top, "tmp"),
            "LD_PRELOAD": fw.SHIM, "SIM_ROOT": top, "SIM_JOB": self.job, "SIM_STORE": os.path.join(top, "store"), "SIM_TMP": os.path.join(top, "tmp"), "SIM_KEEP": ":".join((top, os.path.realpath(REPO), REPO, os.path.realpath(VERIF), VERIF, os.path.dirname(STEP))),
            "SIM_NET": os.path.join(top, "net"), "SIM_NOW": str(e["now"]), "SIM_SEED": str(e["seed"]), "SIM_LOG": os.path.join(self.job, "shim"), "TZ": "UTC",
        }
        full.update(env)
        sim.note("job %s %s seed %d env %s faults %s net %s" % (script, datetime.fromtimestamp(e["now"], timezone.utc).strftime("%Y%m%d %H:%M"), e["seed"], {k: v.replace(top, "") for k, v in sorted(env.items())}, e.get("faults", {}), e.get("net", {})))
        st["jobs"] += 1
        st["runs"] += 1
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if user() == NOBODY else {}
        err = os.path.join(self.job, "stderr")
        with open(err, "wb") as ef:
            p = subprocess.Popen([os.path.join(a, "scripts", what)], env=full, cwd=a, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, start_new_session=True, umask=0o022, **kw)
            try:
                rc = p.wait(timeout=LIMIT)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        fired, log = [], []
        try:
            with open(os.path.join(self.job, "log"), errors="replace") as f:
                log = [l.rstrip("\n").replace(top, "") for l in f]
        except OSError:
            pass
        n = 0
        for l in log:
            w = l.split(" ")
            if w[0] == "step":
                n += 1
                st["steps"] += 1
            elif w[0] == "op":
                st["operations"] += 1
            sim.steps += 1
            if " => " in l and " => disk" not in l:
                k = l.split(" => ")[1].split(" ")[0]
                fired.append((k, l.split(" => ")[0]))
                kk = "%s %s" % (k, "of a program" if w[0] == "step" else "of an operation")
                sim.fault_counts[kk] = sim.fault_counts.get(kk, 0) + 1
            if w[0] != "op" or " => " in l:
                sim.note("  " + " ".join(x for x in w if "/tmp/tmp" not in x)[:300])
            sim.order.update(" ".join(w[:3]).encode())
        try:
            with open(os.path.join(self.job, "shim"), errors="replace") as f:
                for l in f:
                    w = l.split()
                    if w[0] in ("fault", "crash"):
                        fired.append((w[1] if w[0] == "fault" else "CRASH", " ".join(w[2:] if w[0] == "fault" else w[1:]).replace(top, "")))
                        kk = "%s %s" % (fired[-1][0], w[2] if w[0] == "fault" else w[1])
                        sim.fault_counts[kk] = sim.fault_counts.get(kk, 0) + 1
                        sim.note("  fired %s %s" % fired[-1])
                    elif w[0] == "net":
                        if w[-1] != "ok":
                            fired.append((w[-1], "request %s %s" % (w[1], w[2])))
                            sim.fault_counts["net " + w[-1]] = sim.fault_counts.get("net " + w[-1], 0) + 1
                        sim.note("  request " + " ".join(w[1:4] + w[-1:]))
        except OSError:
            pass
        with open(err, errors="replace") as f:
            text = f.read().replace(top, "")
        sim.note("  exit %s" % rc)
        if keep_text:
            sim.trace += ["    " + x for x in text.split("\n")[-25:]]
        self.tail = " / ".join(x for x in text.strip().split("\n")[-3:])[-400:]
        if any(k in ("kill", "killafter") for k, _ in fired):
            st["died"] += 1
        return rc, fired, log

    def where(self, e, name, fired):
        s = "the %s job of %s" % (name, datetime.fromtimestamp(e["now"], timezone.utc).strftime("%Y-%m-%d %H:%M"))
        if fired:
            s += " with " + "; ".join("%s at %s" % x for x in fired[:3])
        return s

    def credentials(self, e):
        import base64

        if e["cred"] == "data":
            self.stats["credentials_data"] += 1
            return {"credentials_data": base64.b64encode(SECRET.encode()).decode()}
        if e["cred"] == "file":
            return {"GOOGLE_APPLICATION_CREDENTIALS": os.path.join(self.job, "secret")}
        return {}

    # ------------------------------------------------------------- generation
    def generate(self, e):
        sim, st = self.sim, self.stats
        bucket = e["bucket"]
        st["generations"] += 1
        os.makedirs(os.path.join(self.top, "store", urllib.parse.quote(bucket or "crlite_filters_staging", safe="")), exist_ok=True)
        self.inputs({})
        mark = "%s %d" % (bucket, e["now"])
        for n in ("enrolled.json", "crl-audit.json"):
            with open(self.p(n), "w") as f:
                json.dump([n, mark], f)
        env = self.credentials(e)
        if bucket:
            env["crlite_filter_bucket"] = bucket
        if e.get("statsd"):
            env["statsdHost"] = e["statsd"]
        if e.get("noup"):
            env["DoNotUpload"] = e["noup"]
            st["no_upload"] += 1
        # a log of the simulation's files as they are now
        want = self.snapshot("known", "revoked", "enrolled.json", "crl-audit.json", "ct-logs.json")
        want = {n: b for n, b in want.items() if b is not None}
        before = self.stores()
        rc, fired, log = self.start(e, "generate", env)
        after = self.stores()
        bucket = bucket or "crlite_filters_staging"
        where = self.where(e, "generation", fired)
        if rc is None:
            sim.violate("C34", "hang", "%s does not end" % where)
            return
        b, a = before[bucket], after.get(bucket, {})
        changed = sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n))
        for o in set(before) | set(after):
            if o != bucket and before.get(o) != after.get(o):
                sim.violate("C34", "wrong-bucket", "%s, which is for %s, changes bucket %s" % (where, bucket, o))
        sim.note("  wrote %d objects" % len(changed))
        if e.get("noup") and changed:
            sim.violate("C36", "uploaded", "%s has DoNotUpload set and writes %s" % (where, changed[0]))
        if e["cred"] == "none":
            st["no_credentials"] += 1
            if rc == 0:
                sim.violate("C34", "wrong-exit", "%s has no credentials and ends well" % where)
            elif changed:
                sim.violate("C34", "wrong-bucket", "%s has no credentials and writes %s" % (where, changed[0]))
            return
        runs = {n.split("/")[0] for n in b if is_run(n.split("/")[0])}
        newest = max((number(x) for x in runs), default=("", -1))
        mine = set()
        for n in changed:
            r = n.split("/")[0]
            if r == "latest":
                continue
            if not is_run(r):
                sim.violate("C34", "stray", "%s writes %s" % (where, n))
            elif r in runs:
                sim.violate("C34", "rewritten", "%s changes %s, which is an earlier run's" % (where, n))
            else:
                mine.add(r)
                if number(r) <= newest:
                    sim.violate("C34", "not-newer", "%s writes run %s although the bucket has %s" % (where, r, "%s-%d" % newest))
        if len(mine) > 1:
            sim.violate("C34", "two-runs", "%s writes %s" % (where, ", ".join(sorted(mine))))
        done = [r for r in sorted(mine) if r + "/completed" in a]
        for r in done:
            st["completed"] += 1
            if rc != 0:
                st["completed_then_failed"] += 1
            files = {n[len(r) + 1 :]: x for n, x in a.items() if n.startswith(r + "/")}
            self.judge_run(e, where, r, files, want, b, fired, "marks run %s as completed" % r, True)
            for n, x in files.items():
                l = None
                if n.startswith("clubcard-all/"):
                    l = "latest/" + n[len("clubcard-all/") :]
                elif n.startswith("clubcard-priority/"):
                    l = "latest/" + n
                if l and a.get(l) != x:
                    sim.violate("C34", "latest-stale", "%s marks run %s as completed, but %s is not that run's" % (where, r, l))
        if rc == 0:
            st["generated"] += 1
            if self.dirty:
                st["retry_generated"] += 1
            self.dirty = False
            if fired:
                st["faults_survived"] += 1
            if e.get("noup"):
                self.judge_local(e, where, want, b, fired)
            elif not done:
                sim.violate("C34", "not-completed", "%s ends well, but no run is completed" % where)
        else:
            self.dirty = True
            if any(k in ("kill", "killafter") for k, _ in fired):
                st["generation_died"] += 1
            else:
                st["generation_failed"] += 1
            if not fired:
                sim.violate("C34", "fails-undisturbed", "%s (%s) fails with %s though nothing in it had: %s" % (where, ", ".join("%s=%s" % x for x in sorted(env.items()) if x[0] not in ("credentials_data", "GOOGLE_APPLICATION_CREDENTIALS")), rc, self.tail))

    def judge_local(self, e, where, want, b, fired):
        d = os.path.join(self.top, "processing")
        runs = [x for x in os.listdir(d) if is_run(x)]
        if len(runs) != 1:
            self.sim.violate("C34", "no-run", "%s ends well with %d runs on its disk" % (where, len(runs)))
            return
        files = {}
        for p, _, fs in os.walk(os.path.join(d, runs[0])):
            for x in fs:
                with open(os.path.join(p, x), "rb") as f:
                    files[os.path.relpath(os.path.join(p, x), os.path.join(d, runs[0]))] = f.read()
        self.judge_run(e, where, runs[0], files, want, b, fired, "ends well", False)

    def judge_run(self, e, where, r, files, want, b, fired, does, uploaded):
        """A run that is called complete is, and is right."""
        sim = self.sim
        for n, x in want.items():
            if files.get(n) != x:
                sim.violate("C34", "incomplete", "%s %s, but %s is %s" % (where, does, n, "not there" if n not in files else "not what was aggregated"))
                return
        for n in files:
            if n.split("/")[0] in ("known", "revoked") and n not in want:
                sim.violate("C34", "incomplete", "%s %s with %s, which was not aggregated" % (where, does, n))
                return
        try:
            ts = datetime.fromisoformat(files.get("timestamp", b"").decode())
            if ts.replace(tzinfo=ts.tzinfo or timezone.utc) != datetime.fromtimestamp(e["now"], timezone.utc):
                raise ValueError("it says %s" % ts)
        except ValueError as x:
            sim.violate("C34", "incomplete", "%s %s, but its timestamp is wrong: %s" % (where, does, x))
            return
        if uploaded:
            crls = {}
            try:
                with tarfile.open(fileobj=io.BytesIO(files.get("crls.tar.gz", b""))) as t:
                    for m in t.getmembers():
                        if m.isfile():
                            crls[os.path.basename(m.name)] = t.extractfile(m).read()
            except (tarfile.TarError, EOFError, OSError) as x:
                crls = None
            have = {}
            d = os.path.join(self.top, "persistent", "crls")
            for n in os.listdir(d):
                with open(os.path.join(d, n), "rb") as f:
                    have[n] = f.read()
            if crls != have:
                sim.violate("C34", "incomplete", "%s %s, but crls.tar.gz is %s" % (where, does, "damaged or not there" if crls is None else "not what was aggregated"))
                return
        for rs, d in DIRS.items():
            old = b.get("latest/revset.bin" if rs == "all" else "latest/%s/revset.bin" % d)
            try:
                prev = fw.parse_revset(old) if old is not None else set()
            except Exception:
                prev = set()
            out = {"%s/%s" % (d, n[len(d) + 1 :]): x for n, x in files.items() if n.startswith(d + "/")}
            j = {"rs": rs, "drs": rs, "ft": "clubcard"}
            # what it could not fetch it does without
            for p in [prev] + ([set()] if fired else []):
                problems = self.judge(j, d, out, p)
                if not problems:
                    break
            if prev:
                self.stats["deltas"] += 1
            for prop, cls, text in problems:
                sim.violate("C34", cls, "%s %s, but in %s, %s" % (where, does, d, text))
                return

    # ------------------------------------------------------------- sign-off
    def signoff(self, e):
        sim, st = self.sim, self.stats
        st["signoffs"] += 1
        d = dict(KINTO, url=KINTO["KINTO_RW_SERVER_URL"])
        kf = os.path.join(self.top, "store", ".kinto")
        with open(kf, "w") as f:
            json.dump({"url": KINTO["KINTO_RW_SERVER_URL"], "auth": ["signer", "password"], "bucket": "security-state-staging", "collections": {n: {"id": n, "status": s, "last_modified": 5} for n, s in (("cert-revocations", e["status"][0]), ("intermediates", e["status"][1]))}}, f)
        env = dict(KINTO, **self.credentials(e))
        if e["bucket"]:
            env["crlite_filter_bucket"] = e["bucket"]
        if e.get("noop"):
            env["KINTO_NOOP"] = e["noop"]
        if e.get("statsd"):
            env["statsdHost"] = e["statsd"]
        limit = 10485760
        if e.get("max") is not None:
            env["max_filter_size"] = str(e["max"])
            limit = e["max"]
        versions = [self.records]
        net = os.path.join(self.top, "net")
        shutil.rmtree(net)
        os.mkdir(net)
        self.routes(0, self.records)
        lines = ["%s %s" % x for x in sorted(e.get("net", {}).items())]
        if e.get("mid"):
            new = dict(self.records, **{e["mid"]["inst"]: e["mid"]["filters"]})
            self.routes(1, new)
            versions.append(new)
            self.records = new
            lines.append("from %d 1" % e["mid"]["at"])
        with open(os.path.join(net, "plan"), "w") as f:
            f.write("\n".join(lines))
        before = self.stores()
        rc, fired, log = self.start(e, "signoff", env)
        where = self.where(e, "sign-off", fired)
        if rc is None:
            sim.violate("C35", "hang", "%s does not end" % where)
            return
        with open(kf) as f:
            now = {n: c["status"] for n, c in json.load(f)["collections"].items()}
        sim.note("  then %s" % now)
        signed = now["cert-revocations"] != e["status"][0]
        if now["cert-revocations"] not in (e["status"][0], "to-sign") or now["intermediates"] not in (e["status"][1], "to-sign"):
            sim.violate("C35", "wrong-status", "%s leaves %s" % (where, now))
        for n, s in (("cert-revocations", e["status"][0]), ("intermediates", e["status"][1])):
            if now[n] != s and s != "to-review":
                sim.violate("C35", "not-under-review", "%s signs %s, which is %s" % (where, n, s))
        if self.stores() != before:
            sim.violate("C35", "wrong-status", "%s writes to a bucket" % where)
        st["signed" if signed else "not_signed"] += 1
        anything = signed or now["intermediates"] != e["status"][1]
        inst = BUCKETS.get(e["bucket"])
        if e["cred"] == "none" and anything:
            pass  # it says so, and goes on or does not
        if e.get("noop"):
            st["noop"] += 1
            if anything:
                sim.violate("C36", "signed", "%s has KINTO_NOOP set and signs" % where)
        if inst is None:
            st["unknown_bucket"] += 1
            if anything:
                sim.violate("C35", "unknown-bucket", "%s signs without knowing an instance for bucket %r" % (where, e["bucket"]))
            elif rc == 0:
                sim.violate("C35", "wrong-exit", "%s ends well without knowing an instance for bucket %r" % (where, e["bucket"]))
            return
        srv = "prod" if inst == "prod" else "stage"
        sizes = [[self.size(f) for f in v[srv] if f["full"] and f["channel"] == "default"] for v in versions]
        fits = any(s and max(s) <= limit for s in sizes)
        if not fits:
            st["too_large" if any(s and max(s) > limit for s in sizes) else "size_unknown"] += 1
            if signed:
                sim.violate("C35", "signed-unfit", "%s signs cert-revocations, whose full filters have %s bytes; the limit is %d" % (where, " or ".join(map(str, sizes)), limit))
            if rc == 0:
                sim.violate("C35", "wrong-exit", "%s ends well although the full filters have %s bytes; the limit is %d" % (where, " or ".join(map(str, sizes)), limit))
            return
        dead = all(k in e.get("net", {}) for k in ("1", "2", "3", "4", "5", "6")) and all(e["net"][str(k)] not in ("damage", "short") for k in range(1, 7))
        if dead:
            st["size_unknown"] += 1
            if signed or rc == 0:
                sim.violate("C35", "signed-unseen", "%s %s although nothing can be fetched from %s" % (where, "signs cert-revocations" if signed else "ends well", srv))
            return
        if rc == 0 and e["status"][0] == "to-review" and not signed and not e.get("noop"):
            sim.violate("C35", "wrong-exit", "%s ends well without signing cert-revocations" % where)
        plain = all(len(s) == 1 and s[0] <= limit for s in sizes) and not fired and not e.get("mid")
        if plain and (rc != 0 or (e["status"][0] == "to-review" and not signed and not e.get("noop"))) and e["cred"] != "none":
            sim.violate("C35", "not-signed", "%s ends with %s and leaves cert-revocations %s, although nothing speaks against signing (full filter of %s bytes, limit %d): %s" % (where, rc, now["cert-revocations"], sizes[0], limit, self.tail))
        if fired and signed:
            st["faults_survived"] += 1

    def body(self, f):
        d = json.dumps({"kind": "clubcard", "coverage": {}, "blocks": {}}, sort_keys=True).encode()
        return d + b" " * max(0, f["size"] - len(d) - 1) + b"\n"

    def size(self, f):
        return len(self.body(f))

    def routes(self, v, records):
        net, out = os.path.join(self.top, "net"), {}

        def put(url, body):
            n = "b" + qw.sha(body)[:24]
            with open(os.path.join(net, n), "wb") as h:
                h.write(body)
            out[url] = [200, n]

        for inst, fs in records.items():
            recs = []
            for f in fs:
                body = self.body(f)
                name = "%s-%s.filter%s" % (f["run"], f["channel"], "" if f["full"] else ".delta")
                loc = "security-state-staging/cert-revocations/%s.%s" % (qw.sha(name.encode())[:32], "filter" if f["full"] else "delta")
                put(qw.ATTACH[inst] + loc, body)
                put(qw.ENROLLED % f["run"], b"[]")
                recs.append({"id": qw.sha(name.encode())[:32], "last_modified": 1, "details": {"name": name}, "incremental": not f["full"], "channel": f["channel"], "attachment": {"hash": qw.sha(body), "size": len(body), "filename": name, "location": loc, "mimetype": "application/octet-stream"}})
            put(qw.RECORDS[inst], json.dumps({"data": recs}).encode())
        d = os.path.join(net, "v%d" % v)
        os.mkdir(d)
        with open(os.path.join(d, "routes"), "w") as f:
            json.dump(out, f)

    # ------------------------------------------------------------- the others
    def publish(self, e):
        sim, st = self.sim, self.stats
        st["publications"] += 1
        env = dict(KINTO, **self.credentials(e))
        if e["bucket"]:
            env["crlite_filter_bucket"] = e["bucket"]
        if e.get("noop"):
            env["KINTO_NOOP"] = e["noop"]
        if e.get("noup"):
            env["DoNotUpload"] = e["noup"]
        rc, fired, log = self.start(e, "publish", env)
        where = self.where(e, "publication", fired)
        if rc is None:
            sim.violate("C36", "hang", "%s does not end" % where)
            return
        calls = [l.split(" ")[2:] for l in log if l.startswith("program main.py")]
        self.outcome(e, where, rc, fired, calls, ("main.py",))
        for c in calls:
            dry = "--noop" in c or bool(e.get("noop"))
            if (e.get("noop") or e.get("noup")) and not dry:
                sim.violate("C36", "published", "%s has %s set, and the publisher publishes" % (where, "DoNotUpload" if e.get("noup") else "KINTO_NOOP"))
            if not e.get("noop") and not e.get("noup") and dry:
                sim.violate("C36", "not-published", "%s is to publish, and the publisher does not" % where)
            b = self.option(c, "--filter-bucket")
            if b != (e["bucket"] or "crlite_filters_staging"):
                sim.violate("C36", "wrong-bucket", "%s is for bucket %s, and the publisher reads %s" % (where, e["bucket"], b))
            p = self.option(c, "--download-path")
            if p is not None and not os.path.isdir(self.top + p):
                sim.violate("C36", "no-directory", "%s gives the publisher %s, which is not there" % (where, p))

    @staticmethod
    def option(args, name):
        for i, a in enumerate(args):
            if a == name and i + 1 < len(args):
                return args[i + 1]
            if a.startswith(name + "="):
                return a[len(name) + 1 :]

    def outcome(self, e, where, rc, fired, calls, names):
        sim = self.sim
        if e["cred"] == "none" and e["job"] == "publish":
            if rc == 0 or calls:
                sim.violate("C36", "no-credentials", "%s has no credentials and %s" % (where, "ends well" if rc == 0 else "runs the publisher"))
            return
        bad = [x for x in fired if x[1].startswith("step") and x[1].split(" ")[2] in names]
        if rc == 0 and (bad or not calls):
            sim.violate("C36", "failure-hidden", "%s ends well although %s" % (where, "its program failed" if bad else "its program did not run"))
        if rc != 0 and not fired:
            sim.violate("C36", "fails-undisturbed", "%s fails with %s though nothing in it had: %s" % (where, rc, self.tail))

    def fetch(self, e, name="fetch", program="ct-fetch"):
        self.stats["fetches" if name == "fetch" else "commits"] += 1
        rc, fired, log = self.start(e, name, self.credentials(e))
        where = self.where(e, name, fired)
        if rc is None:
            self.sim.violate("C36", "hang", "%s does not end" % where)
            return
        self.outcome(e, where, rc, fired, [l for l in log if l.startswith("program " + program)], (program,))

    def commit(self, e):
        self.fetch(e, "commit", "commit")

    def execute(self):
        try:
            for e in self.plan["events"]:
                self.event(e)
        finally:
            subprocess.run(["chmod", "-R", "u+w", os.path.join(self.top, "processing")], stderr=subprocess.DEVNULL)
        t = [e["now"] for e in self.plan["events"] if e["k"] == "job"]
        if t:
            self.sim.start, self.sim.now = float(min(t)), float(max(t))
        return self


keep_text = bool(os.environ.get("CRLSIM_STDERR"))


def nontrivial(r):
    return (r["stats"]["completed"] or r["stats"]["signed"] or r["stats"]["publications"]) and (r["faults"] or r["stats"]["deltas"] or r["stats"]["not_signed"] or r["stats"]["no_upload"] or r["stats"]["noop"])

"""The filter generator's world: histories of runs of the real
rust-create-cascade over simulated disks.

The program runs as a process whose every operation on its files goes through
the shim (shim.c), which numbers them, injects the faults of the plan and
decides the order of directory entries; the scheduler of its parallel
iterations, its hash seeds and its salts are drawn from the run's seed. Time
has no part in it."""
import base64
import hashlib
import json
import os
import shutil
import struct
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
BUILD = os.environ.get("CRLSIM_RUST", os.path.join(VERIF, ".build", "rust"))
EXE = os.path.join(BUILD, "target", "debug", "rust-create-cascade")
SHIM = os.path.join(BUILD, "shim.so")
LIMIT = 30  # seconds of one process; it needs milliseconds
BENIGN = ("EINTR", "SHORT")
PRIORITY = (1, 5, 9)
OUTPUTS = ("filter", "filter.stash", "filter.delta", "revset.bin", "delta")


def install():
    pass


def reason_in(code, which):
    if code > 10 or code == 7:
        code = 0
    return which == "all" or (which == "specified" and code != 0) or (which == "priority" and code in PRIORITY)


def fnv(*parts):
    h = 0xCBF29CE484222325
    for p in parts:
        for b in p.encode():
            h = ((h ^ b) * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
    return h >> 40 & 1 == 1


class Bad(Exception):
    pass


class Filter:
    """What a client makes of a filter file."""

    def __init__(self, data):
        try:
            if not data.endswith(b"\n"):
                raise ValueError("cut short")
            self.d = json.loads(data)
            self.kind = self.d["kind"]
        except (ValueError, KeyError, TypeError) as e:
            raise Bad("not a filter: %s" % e)
        if self.kind == "cascade":
            self.inc, self.exc = set(self.d["included"]), set(self.d["excluded"])
        else:
            self.blocks = {b: (set(x["approx"]), x["exact"]) for b, x in self.d["blocks"].items()}

    def has(self, issuer, serial):
        if self.kind == "cascade":
            k = issuer + serial
            return k in self.inc or (k not in self.exc and fnv(k))
        if issuer not in self.blocks:
            return False
        approx, exact = self.blocks[issuer]
        if not (serial in approx or (approx and fnv("approx", issuer, serial))):
            return False
        return exact[serial] if serial in exact else fnv("exact", issuer, serial)


def parse_revset(data):
    n, i, out = struct.unpack_from("<Q", data)[0], 8, set()
    for _ in range(n):
        l = struct.unpack_from("<Q", data, i)[0]
        i += 8
        if i + l > len(data):
            raise Bad("cut short")
        out.add(data[i : i + l])
        i += l
    return out


def parse_stash(data):
    out, i = {}, 0
    while i < len(data):
        try:
            n, l = struct.unpack_from("<IB", data, i)
        except struct.error:
            raise Bad("cut short")
        i += 5
        issuer = data[i : i + l]
        i += l
        if issuer in out:
            raise Bad("issuer twice")
        out[issuer] = set()
        for _ in range(n):
            if i >= len(data):
                raise Bad("cut short")
            k = data[i]
            i += 1
            if i + k > len(data):
                raise Bad("cut short")
            s = data[i : i + k]
            i += k
            if s in out[issuer]:
                raise Bad("serial twice")
            out[issuer].add(s)
        if not n:
            raise Bad("issuer without serials")
    return out


class Rec:
    """The part of sim/pub's engine that the driver reads."""

    def __init__(self):
        self.violations, self.trace, self.fault_counts = [], [], {}
        self.digest, self.order = hashlib.sha256(), hashlib.sha256()
        self.steps = 0
        self.now = self.start = 0.0
        self.overlaps = set()

    def note(self, s):
        self.digest.update(s.encode() + b"\n")
        self.trace.append(s)

    def violate(self, prop, cls, text):
        if not any(v[:2] == (prop, cls) for v in self.violations):
            self.violations.append((prop, cls, text, float(self.steps)))
        self.note("VIOLATION %s %s %s" % (prop, cls, text))


class World:
    def __init__(self, plan, scratch, keep):
        self.plan, self.root, self.sim = plan, os.path.realpath(scratch), Rec()
        self.stats = {k: 0 for k in ("runs", "ok", "failed", "crashed", "refused", "clobbered", "retry_ok", "clubcard", "cascade", "delta_nonempty", "delta_empty", "prev_missing", "prev_damaged", "issuer_no_revoked", "revoked_not_known", "dup_known", "dup_revoked", "issuer_gone", "unrevoked", "reason_changed", "benign_ok", "faults_survived", "empty_revoked", "chains", "other_set_delta", "inputs_missing", "operations", "switches")}
        self.known = {}  # issuer -> [(hour, serial)]
        self.revoked = {}  # issuer -> [(code, serial)]
        self.logs = []
        self.saved = {}  # output directory -> revset kept from its last good run
        self.client = {}  # output directory -> set of keys that its clients know as revoked
        self.dirty = {}  # output directory -> last run failed

    def p(self, *a):
        return os.path.join(self.root, *a)

    # ------------------------------------------------------------- state
    def event(self, e):
        k, st = e["k"], self.stats
        if k == "known":
            l = self.known.setdefault(e["i"], [])
            if any(s == e["s"] for _, s in l):
                st["dup_known"] += 1
            l.append((e["h"], e["s"]))
        elif k == "issuer":
            self.known.setdefault(e["i"], [])
        elif k == "forget":
            self.known.pop(e["i"], None)
            st["issuer_gone"] += 1
        elif k == "expire":
            for i in self.known:
                self.known[i] = [x for x in self.known[i] if x[0] > e["h"]]
        elif k == "revoke":
            l = self.revoked.setdefault(e["i"], [])
            if any(s == e["s"] for _, s in l):
                st["dup_revoked"] += 1
                if not e.get("dup"):
                    l[:] = [x for x in l if x[1] != e["s"]]
                    st["reason_changed"] += 1
            l.append((e["c"], e["s"]))
        elif k == "crl":
            self.revoked.setdefault(e["i"], [])
        elif k == "unrevoke":
            if e["i"] in self.revoked:
                self.revoked[e["i"]] = [x for x in self.revoked[e["i"]] if x[1] != e["s"]]
                st["unrevoked"] += 1
        elif k == "nocrl":
            self.revoked.pop(e["i"], None)
        elif k == "logs":
            self.logs = e["logs"]
        elif k == "run":
            self.run(e)

    @staticmethod
    def name(issuer):
        return base64.urlsafe_b64encode(bytes.fromhex(issuer)).decode()

    def inputs(self, e):
        for d in ("known", "revoked"):
            shutil.rmtree(self.p(d), ignore_errors=True)
            if e.get("missing") == d:
                continue
            os.mkdir(self.p(d))
        if e.get("missing") != "known":
            for i, l in self.known.items():
                with open(self.p("known", self.name(i)), "w") as f:
                    last = None
                    for h, s in sorted(l, key=lambda x: x[0]):
                        if h != last:
                            f.write("@%x\n" % h)
                            last = h
                        f.write(s + "\n")
        if e.get("missing") != "revoked":
            for i, l in self.revoked.items():
                with open(self.p("revoked", self.name(i)), "w") as f:
                    for c, s in l:
                        f.write("%02x%s\n" % (c, s))
        if e.get("missing") == "ct-logs.json":
            if os.path.exists(self.p("ct-logs.json")):
                os.unlink(self.p("ct-logs.json"))
        else:
            with open(self.p("ct-logs.json"), "w") as f:
                json.dump([{"LogID": n, "MinTimestamp": a, "MaxTimestamp": b} for n, a, b in self.logs], f)

    def snapshot(self, *names):
        out = {}
        for n in names:
            top = self.p(n)
            if os.path.isfile(top):
                with open(top, "rb") as f:
                    out[n] = f.read()
            for d, _, fs in os.walk(top):
                out[os.path.relpath(d, self.root)] = None
                for x in fs:
                    with open(os.path.join(d, x), "rb") as f:
                        out[os.path.relpath(os.path.join(d, x), self.root)] = f.read()
        return out

    def sets(self, which):
        """issuer -> (known serials, those of them that are revoked)"""
        out = {}
        for i, l in self.known.items():
            k = {s for _, s in l}
            out[i] = (k, {s for c, s in self.revoked.get(i, []) if reason_in(c, which) and s in k})
        return out

    # ------------------------------------------------------------- one run
    def run(self, e):
        sim, st = self.sim, self.stats
        out = e["out"]
        self.inputs(e)
        prev = self.p("prev")
        shutil.rmtree(prev, ignore_errors=True)
        os.mkdir(prev)
        pf = os.path.join(prev, "revset.bin")
        saved = self.saved.get(e.get("of", out))
        mode = e["prev"]
        if mode in ("last", "cut", "junk") and saved is None:
            mode = "none"
        if mode == "last":
            data = saved
        elif mode == "cut":
            data = saved[: len(saved) * 2 // 3]
        elif mode == "junk":
            data = b"\x05\0\0\0\0\0\0\0\xff" * 2
        elif mode == "empty":
            data = b""
        else:
            data = None
        if mode == "dir":
            os.mkdir(pf)
        elif data is not None:
            with open(pf, "wb") as f:
                f.write(data)
        before = set()
        if data is not None:
            try:
                before = parse_revset(data)
            except (Bad, struct.error):
                before = set()
                st["prev_damaged"] += 1
        else:
            st["prev_missing"] += 1
        present = [x for x in OUTPUTS if os.path.exists(self.p(out, x))]
        snap_in = self.snapshot("known", "revoked", "prev", "ct-logs.json")
        snap_out = self.snapshot(out)
        log = self.p("log")
        if os.path.exists(log):
            os.unlink(log)
        cmd = [EXE, "-vv", "--known", self.p("known"), "--revoked", self.p("revoked"), "--ct-logs-json", self.p("ct-logs.json"), "--outdir", self.p(out), "--reason-set", e["rs"], "--delta-reason-set", e["drs"], "--filter-type", e["ft"]]
        if e["prev"] != "unset":
            cmd += ["--prev-revset", pf]
        if e.get("clobber"):
            cmd.append("--clobber")
        if e.get("murmur"):
            cmd.append("--murmurhash3")
        if e.get("statsd"):
            cmd += ["--statsd-host", e["statsd"]]
        env = {"PATH": os.environ.get("PATH", ""), "LD_PRELOAD": SHIM, "SIM_ROOT": self.root, "SIM_SEED": str(e["seed"]), "SIM_LOG": log, "SIM_FAULTS": ";".join("%s,%s" % (k, v) for k, v in e.get("faults", {}).items())}
        sim.note("run %s %s/%s/%s seed %d prev %s%s faults %s" % (out, e["ft"], e["rs"], e["drs"], e["seed"], mode, " clobber" if e.get("clobber") else "", e.get("faults", {})))
        try:
            pr = subprocess.run(cmd, env=env, cwd=self.root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=LIMIT)
            rc, err = pr.returncode, pr.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = None, ""
        st["runs"] += 1
        st[e["ft"]] += 1
        fired = []
        try:
            with open(log) as f:
                for line in f:
                    w = line.split()
                    if w[0] == "fault":
                        if len(fired) < 400:
                            fired.append((w[1], w[2], w[3] if len(w) > 3 else ""))
                    elif w[0] == "crash":
                        fired.append(("CRASH", w[1], w[2] if len(w) > 2 else ""))
                    elif w[0] == "switches":
                        st["switches"] += int(w[1])
                        sim.order.update(line.encode())
                    elif w[0] == "ops":
                        sim.steps += int(w[2])
                        st["operations"] += int(w[2])
                        sim.order.update(line.encode())
        except OSError:
            pass
        if rc is None:
            fired = fired[:50]
        for k, op, path in fired[:200]:
            kk = "%s %s" % (k, op)
            sim.fault_counts[kk] = sim.fault_counts.get(kk, 0) + 1
            sim.order.update(("%s %s" % (kk, path)).encode())
        for x in fired[:6]:
            sim.note("  fired %s %s %s" % x)
        sim.note("  exit %s%s" % (rc, "".join("\n    " + x for x in err.replace(self.root, "").split("\n")[:4] if x and "thread '" not in x)))
        harm = [x for x in fired if x[0] not in BENIGN or (x[0] == "EINTR" and x[1] == "open")]
        where = "run of %s (%s, reasons %s, delta reasons %s)" % (out, e["ft"], e["rs"], e["drs"])
        if harm:
            where += " with " + "; ".join("%s at %s %s" % x for x in harm[:3])
        after = self.snapshot(out)
        if self.snapshot("known", "revoked", "prev", "ct-logs.json") != snap_in:
            sim.violate("C30", "input-changed", "%s changed its input files" % where)
        for n in sorted(after):
            sim.digest.update(("%s %s" % (n, hashlib.sha256(after[n] or b"").hexdigest())).encode())
        if rc is None:
            sim.violate("C30", "hang", "%s did not end" % where)
            self.dirty[out] = True
            return
        missing = e.get("missing")
        if missing == "ct-logs.json" and e["ft"] == "cascade":
            missing = None
        if present and not e.get("clobber"):
            # must be refused
            changed = [n for n in snap_out if after.get(n, 0) != snap_out[n]]
            if changed:
                sim.violate("C30", "overwritten", "%s without --clobber changed %s, which was there before" % (where, changed[0]))
            if rc == 0:
                sim.violate("C30", "not-refused", "%s without --clobber ended well although %s was there before" % (where, present[0]))
            st["refused"] += 1
            return
        if missing:
            st["inputs_missing"] += 1
            if rc == 0:
                sim.violate("C30", "no-input", "%s ended well without %s" % (where, missing))
            else:
                self.dirty[out] = True
            return
        crashed = any(x[0] in ("CRASH", "TORN", "DONE") for x in fired)
        if rc != 0:
            st["crashed" if crashed else "failed"] += 1
            self.dirty[out] = True
            if not harm:
                sim.violate("C30", "fails-undisturbed", "%s failed (exit %s) though nothing had: %s" % (where, rc, " / ".join(err.replace(self.root, "").strip().split("\n")[-2:])[:300]))
            return
        st["ok"] += 1
        if harm:
            st["faults_survived"] += 1
        elif fired:
            st["benign_ok"] += 1
        if self.dirty.get(out):
            st["retry_ok"] += 1
        if present:
            st["clobbered"] += 1
        self.dirty[out] = False
        prevs = [before]
        if any(x[2].startswith("prev") for x in harm):
            prevs.append(set())
        self.probe(e, before)
        problems = None
        for b in prevs:
            problems = self.judge(e, out, after, b)
            if not problems:
                break
        for prop, cls, text in problems:
            if harm:
                sim.violate("C30", cls, "%s ended well, but %s" % (where, text))
            else:
                sim.violate(prop, cls, "%s: %s" % (where, text))
        if problems:
            return
        # what a client of this chain knows
        f = self.load(after.get(out + "/filter"))
        d = self.load(after.get(out + "/filter.delta"))
        full = self.sets(e["rs"])
        if mode == "last" and e.get("of", out) == out and out in self.client and e["rs"] == e["drs"]:
            have = {x for x in self.client[out]}
            for i, (k, r) in full.items():
                for s in k:
                    if d is not None and d.has(i, s):
                        have.add((i, s))
            for i, (k, r) in full.items():
                for s in r:
                    if (i, s) not in have:
                        sim.violate("C29", "client-misses", "%s: a client with the first filter and all deltas since does not know that %s of %s is revoked" % (where, s, i[:12]))
            self.client[out] = have
            st["chains"] += 1
        else:
            self.client[out] = {(i, s) for i, (k, r) in full.items() for s in k if f is not None and f.has(i, s)}
        self.saved[out] = after[out + "/revset.bin"]

    def load(self, data):
        return Filter(data) if data is not None else None

    # ------------------------------------------------------------- the oracle
    def judge(self, e, out, files, before):
        """The problems of the files of a run that ended well, each once per property."""
        full, dset = self.sets(e["rs"]), self.sets(e["drs"])
        want = {i: {s for s in r if bytes.fromhex(i + s) not in before} for i, (k, r) in dset.items()}
        args = (e, out, files, full, dset, want)
        probs = [self.judge_filter("C28", "filter", {i: r for i, (k, r) in full.items()}, *args) or self.judge_counts(*args)]
        probs.append(self.judge_filter("C29", "filter.delta", want, *args) or self.judge_delta(*args))
        return [x for x in probs if x]

    def judge_filter(self, prop, name, wanted, e, out, files, full, dset, want):
        data = files.get(out + "/" + name)
        if data is None:
            if e["ft"] == "cascade" and not any(wanted.values()):
                return None  # there is no empty cascade
            return prop, "no-output", "there is no %s" % name
        try:
            f = Filter(data)
        except Bad as x:
            return prop, "bad-filter", "%s is %s" % (name, x)
        if f.kind != e["ft"]:
            return prop, "wrong-type", "%s is a %s" % (name, f.kind)
        if f.kind == "clubcard" and f.d["coverage"] != {n: [a, b] for n, a, b in self.logs}:
            return prop, "wrong-coverage", "%s says it covers %s, the logs are %s" % (name, f.d["coverage"], self.logs)
        for i, (k, _) in full.items():
            for s in sorted(k):
                if f.has(i, s) != (s in wanted[i]):
                    return prop, ("wrong-filter" if name == "filter" else "wrong-delta"), "%s says that %s of issuer %s is %s" % (name, s, i[:12], "revoked" if f.has(i, s) else "not revoked")

    def judge_counts(self, e, out, files, full, dset, want):
        data = files.get(out + "/reason_codes.csv")
        if data is None:
            return "C28", "no-output", "there is no reason_codes.csv"
        lines = data.decode("latin1").strip("\n").split("\n")
        head = lines[0].split(",")
        rows = {}
        for l in lines[1:]:
            row = dict(zip(head, l.split(",")))
            if len(l.split(",")) != len(head) or row["issuer_spki_hash"] in rows:
                return "C28", "wrong-counts", "reason_codes.csv: line %r" % l
            rows[row["issuer_spki_hash"]] = row
        if set(rows) != {self.name(i) for i in full}:
            return "C28", "wrong-counts", "reason_codes.csv has %d issuers, %d are known" % (len(rows), len(full))
        for i, (k, r) in full.items():
            row = rows[self.name(i)]
            mult = sum(1 for _, s in self.known[i] if s not in r)
            if int(row["revoked_certificates"]) != len(r) or not len(k) - len(r) <= int(row["non_revoked_certificates"]) <= mult:
                return "C28", "wrong-counts", "reason_codes.csv: issuer %s has %s revoked, %s other certificates; there are %d and %d" % (i[:12], row["revoked_certificates"], row["non_revoked_certificates"], len(r), len(k) - len(r))

    def judge_delta(self, e, out, files, full, dset, want):
        get = lambda n: files.get(out + "/" + n)
        key = lambda i, s: bytes.fromhex(i + s)
        data = get("revset.bin")
        if data is None:
            return "C29", "no-output", "there is no revset.bin"
        try:
            rev = parse_revset(data)
        except (Bad, struct.error) as x:
            return "C29", "bad-revset", "revset.bin is damaged: %s" % x
        wantrev = {key(i, s) for i, (k, r) in dset.items() for s in r}
        if rev != wantrev:
            return "C29", "wrong-revset", "revset.bin lacks %d and has %d too many" % (len(wantrev - rev), len(rev - wantrev))
        data = get("filter.stash")
        if data is None:
            return "C29", "no-output", "there is no filter.stash"
        try:
            stash = parse_stash(data)
        except (Bad, struct.error) as x:
            return "C29", "bad-stash", "filter.stash is damaged: %s" % x
        wantstash = {bytes.fromhex(i): {bytes.fromhex(s) for s in w} for i, w in want.items() if w}
        if stash != wantstash:
            return "C29", "wrong-stash", "filter.stash has %d serials, there are %d" % (sum(map(len, stash.values())), sum(map(len, wantstash.values())))
        got = {}
        for n, data in files.items():
            if n.startswith(out + "/delta/") and data is not None:
                try:
                    i = base64.urlsafe_b64decode(n[len(out) + 7 :]).hex()
                except ValueError:
                    return "C29", "wrong-delta-dir", "file %s" % n
                for line in data.decode("latin1").split("\n"):
                    if not line:
                        continue
                    try:
                        c, s = int(line[:2], 16), line[2:]
                    except ValueError:
                        return "C29", "wrong-delta-dir", "line %r" % line
                    got.setdefault(i, set()).add(s)
                    if c not in {0 if x > 10 or x == 7 else x for x, y in self.revoked.get(i, []) if y == s and reason_in(x, e["drs"])}:
                        return "C29", "wrong-reason", "delta gives %s of %s the reason %d" % (s, i[:12], c)
        if got != {i: w for i, w in want.items() if w}:
            return "C29", "wrong-delta-dir", "delta/ has %d serials, there are %d" % (sum(map(len, got.values())), sum(map(len, want.values())))

    def probe(self, e, before):
        st = self.stats
        full, dset = self.sets(e["rs"]), self.sets(e["drs"])
        new = any(bytes.fromhex(i + s) not in before for i, (k, r) in dset.items() for s in r)
        st["delta_nonempty" if new else "delta_empty"] += 1
        st["other_set_delta"] += e["rs"] != e["drs"]
        st["issuer_no_revoked"] += sum(1 for i in self.known if not self.revoked.get(i))
        st["revoked_not_known"] += sum(1 for i in self.revoked if i not in self.known)
        st["empty_revoked"] += not any(r for _, r in full.values())

    def execute(self):
        for e in self.plan["events"]:
            self.event(e)
        self.sim.now = float(self.stats["runs"])
        return self


def nontrivial(r):
    return r["stats"]["ok"] and (r["faults"] or r["stats"]["chains"])

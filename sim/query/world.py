"""The client's world: histories of updates and queries of the real
rust-query-crlite over a simulated disk and network.

The program runs as a process whose operations on its database go through the
shim of the filter generator's world (sim/rust/shim.c), and whose HTTP client,
name lookups, connections and clock belong to the simulation: the plan says
what each request meets, and when the published collection changes under it."""
import base64
import hashlib
import json
import os
import shutil
import struct
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
BUILD = os.environ.get("CRLSIM_QUERY", os.path.join(VERIF, ".build", "query"))
EXE = os.path.join(BUILD, "target", "debug", "rust-query-crlite")
SHIM = os.path.join(BUILD, "shim.so")
LIMIT = 30
BENIGN = ("EINTR", "SHORT")
STATUSES = ("Expired", "Good", "NotCovered", "NotEnrolled", "Revoked")
PRIORITY = (1, 5, 9)
ATTACH = {"stage": "https://firefox-settings-attachments.cdn.allizom.org/", "prod": "https://firefox-settings-attachments.cdn.mozilla.net/"}
RECORDS = {"stage": "https://firefox.settings.services.allizom.org/v1/buckets/security-state-staging/collections/cert-revocations/records", "prod": "https://firefox.settings.services.mozilla.com/v1/buckets/security-state-staging/collections/cert-revocations/records"}
ENROLLED = "https://storage.googleapis.com/crlite-filters-prod/%s/enrolled.json"
HOSTFILE = "https://example.org/hosts.txt"
CRTSH = "https://crt.sh/?d=%s"


def install():
    pass


def fnv(*parts):
    h = 0xCBF29CE484222325
    for p in parts:
        for b in p.encode():
            h = ((h ^ b) * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
    return h >> 40 & 1 == 1


def sha(b):
    return hashlib.sha256(b).hexdigest()


class Bad(Exception):
    pass


class Filter:
    def __init__(self, data):
        try:
            if not data.endswith(b"\n"):
                raise ValueError("cut short")
            d = json.loads(data)
            if d["kind"] != "clubcard":
                raise ValueError("kind")
            self.coverage = d["coverage"]
            self.blocks = {b: (set(x["approx"]), x["exact"]) for b, x in d["blocks"].items()}
        except (ValueError, KeyError, TypeError, AttributeError) as e:
            raise Bad("not a filter: %s" % e)

    def has(self, cert, issuer):
        if not any(l in self.coverage and self.coverage[l][0] <= t <= self.coverage[l][1] for l, t in cert["scts"]):
            return "NotCovered"
        if issuer not in self.blocks:
            return "NotEnrolled"
        approx, exact = self.blocks[issuer]
        s = cert["s"]
        if not (s in approx or (approx and fnv("approx", issuer, s))):
            return "Good"
        return "Revoked" if (exact[s] if s in exact else fnv("exact", issuer, s)) else "Good"


def combine(filters, cert, issuer):
    got = {f.has(cert, issuer) for f in filters}
    for s in ("Revoked", "Good", "NotEnrolled"):
        if s in got:
            return s
    return "NotCovered"


def field(b):
    return struct.pack(">H", len(b)) + b


def encode(subject, issuer, serial, spki, nb, na, scts, signer):
    s = b"".join(base64.b64decode(l) + struct.pack(">Q", t) for l, t in scts)
    return b"CERT" + b"".join(map(field, (subject.encode(), issuer.encode(), bytes.fromhex(serial), bytes.fromhex(spki), struct.pack(">Q", nb), struct.pack(">Q", na), s, bytes.fromhex(signer))))


def decode(b):
    if b[:4] != b"CERT":
        raise Bad("no certificate")
    out, i = [], 4
    for _ in range(8):
        n = struct.unpack_from(">H", b, i)[0]
        out.append(b[i + 2 : i + 2 + n])
        i += 2 + n
    return out


def pem(der):
    t = base64.b64encode(der).decode()
    return "-----BEGIN CERTIFICATE-----\n" + "\n".join(t[i : i + 64] for i in range(0, len(t), 64)) + "\n-----END CERTIFICATE-----\n"


def parse_intermediates(data):
    """bincode of a map from names to lists of certificates"""
    try:
        i = 0

        def num():
            nonlocal i
            n = struct.unpack_from("<Q", data, i)[0]
            i += 8
            return n

        def octets():
            nonlocal i
            n = num()
            if i + n > len(data):
                raise Bad("cut short")
            i += n
            return data[i - n : i]

        out = {}
        for _ in range(num()):
            k = octets()
            out[k] = [octets() for _ in range(num())]
        return out
    except struct.error:
        raise Bad("cut short")


class Rec:
    """The part of sim/pub's engine that the driver reads."""

    def __init__(self):
        self.violations, self.trace, self.fault_counts = [], [], {}
        self.digest, self.order = hashlib.sha256(), hashlib.sha256()
        self.steps = 0
        self.now = self.start = 0.0
        self.overlaps = set()

    def note(self, s):
        self.digest.update(s.encode() + b"\n")
        self.trace.append(s)

    def violate(self, prop, cls, text):
        if not any(v[:2] == (prop, cls) for v in self.violations):
            self.violations.append((prop, cls, text, float(self.steps)))
        self.note("VIOLATION %s %s %s" % (prop, cls, text))


class World:
    def __init__(self, plan, scratch, keep):
        self.plan, self.sim = plan, Rec()
        top = os.path.realpath(scratch)
        self.root, self.net = os.path.join(top, "disk"), os.path.join(top, "net")
        os.mkdir(self.root)
        os.mkdir(self.net)
        self.log = os.path.join(top, "log")
        self.stats = {k: 0 for k in ("runs", "updates", "updated", "update_failed", "update_crashed", "refused", "queries", "answers", "hosts_retried", "host_failed", "signoffs", "signoffs_passed", "published_midway", "reused", "replaced_damaged", "removed_stale", "channel_changed", "retry_updated", "left_mixed", "damaged", "unusable", "revoked", "good", "expired", "not_enrolled", "not_covered", "faults_survived", "forged", "shared_name", "operations", "requests", "fetched_intermediates")}
        self.cas, self.certs = {}, {}  # by number
        self.truth = {}  # certificate -> reason code
        self.inst = {i: {"records": [], "files": {}} for i in ATTACH}
        self.enrolled = {}  # run -> list of (number of CA)
        self.bodies = set()
        self.dirty = set()
        self.channel = {}

    # ------------------------------------------------------------- the other side
    def ca_der(self, n):
        c = self.cas[n]
        return encode(c["dn"], c["dn"], "01", c["spki"], 0, 1 << 40, [], c["spki"])

    def cert_der(self, n):
        c = self.certs[n]
        ca = self.cas[c["i"]]
        return encode("CN=%d" % n, ca["dn"], c["s"], sha(b"key%d" % n), c["nb"], c["na"], c["scts"], sha(b"nobody") if c.get("forged") else ca["spki"])

    def block(self, n):
        """How the filters call the issuer of a certificate."""
        return sha(bytes.fromhex(self.cas[self.certs[n]["i"]]["spki"]))

    def make_filter(self, e, which):
        blocks = {}
        for c in e["enrolled"]:
            blocks.setdefault(sha(bytes.fromhex(self.cas[c]["spki"])), {"approx": [], "exact": {}})
        for n, c in self.certs.items():
            if self.block(n) in blocks and any(l in e["coverage"] and e["coverage"][l][0] <= t <= e["coverage"][l][1] for l, t in c["scts"]):
                b = blocks[self.block(n)]
                b["exact"][c["s"]] = b["exact"].get(c["s"], False) or n in which
                if n in which:
                    b["approx"].append(c["s"])
        for b in blocks.values():
            b["approx"] = sorted(set(b["approx"]))
        return json.dumps({"kind": "clubcard", "coverage": e["coverage"], "blocks": blocks}, sort_keys=True).encode() + b"\n"

    def publish(self, e):
        inst = self.inst[e["inst"]]
        self.enrolled[e["run"]] = e["enrolled"]
        for ch in e["channels"]:
            codes = None if ch == "default" else PRIORITY
            now = {n for n, c in self.truth.items() if codes is None or c in codes}
            chain = [r for r in inst["records"] if r["channel"] == ch]
            full = e["full"] or not any(not r["incremental"] for r in chain)
            if full:
                if e.get("keep"):  # a full filter too many: between two steps of the publisher
                    pass
                else:
                    inst["records"] = [r for r in inst["records"] if r["channel"] != ch]
                    if e.get("purge"):
                        for r in chain:
                            inst["files"].pop(r["attachment"]["location"], None)
                body = self.make_filter(e, now)
                name = "%s-%s.filter" % (e["run"], ch)
            else:
                body = self.make_filter(e, now - inst.get("known " + ch, set()))
                name = "%s-%s.filter.delta" % (e["run"], ch)
            inst["known " + ch] = now
            loc = "security-state-staging/cert-revocations/%s.%s" % (sha(body + name.encode())[:32], "delta" if not full else "filter")
            inst["files"][loc] = body
            rec = {"id": sha((name + ch).encode())[:32], "last_modified": e["n"], "details": {"name": name}, "incremental": not full, "channel": ch, "attachment": {"hash": sha(body), "size": len(body), "filename": name, "location": loc, "mimetype": "application/octet-stream"}}
            inst["records"].append(rec)

    def drop(self, e):
        """Full filters go missing: between two steps of the publisher."""
        inst = self.inst[e["inst"]]
        inst["records"] = [r for r in inst["records"] if r["channel"] != e["channel"] or r["incremental"]]

    def routes(self, v, e):
        out = {}

        def put(url, body, status=200):
            f = "b" + sha(body)[:24]
            if f not in self.bodies:
                self.bodies.add(f)
                with open(os.path.join(self.net, f), "wb") as h:
                    h.write(body)
            out[url] = [status, f]

        for i, st in self.inst.items():
            recs = []
            for r in st["records"]:
                r = dict(r)
                if r["channel"] == "default" and e.get("plain"):
                    del r["channel"]
                recs.append(r)
            if e.get("order") == "new":
                recs.reverse()
            elif e.get("order") == "id":
                recs.sort(key=lambda r: r["id"])
            put(RECORDS[i], json.dumps({"data": recs}).encode())
            for loc, body in st["files"].items():
                put(ATTACH[i] + loc, body)
        for run, cas in self.enrolled.items():
            l = [{"uniqueID": "ca%d" % c, "pubKeyHash": "", "whitelist": False, "pem": pem(self.ca_der(c))} for c in cas]
            if e.get("junk_ca"):
                l.insert(len(l) // 2, {"uniqueID": "junk", "pem": "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"})
                l.append({"uniqueID": "nopem", "pem": "nothing"})
            put(ENROLLED % run, json.dumps(l).encode())
        if e["cmd"] == "signoff":
            put(HOSTFILE, self.hostfile(e).encode())
        if e["cmd"] == "crtsh":
            for n in e["args"]:
                if n in self.certs:
                    der = self.cert_der(n)
                    put(CRTSH % n, pem(der).encode() if n % 2 else der)
        d = os.path.join(self.net, "v%d" % v)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "routes"), "w") as f:
            json.dump(out, f)

    def hostfile(self, e):
        lines = ["# hosts", ""]
        for n in e["args"]:
            lines.append(("  %s " if n % 3 == 0 else "%s") % self.host(n))
            if n % 4 == 0:
                lines.append("# " + self.host(n + 1000))
        return "\n".join(lines) + ("\n" if e["seed"] % 2 else "")

    @staticmethod
    def host(n):
        return "h%d.example" % n + (":8443" if n % 5 == 0 else "")

    def hosts(self, e):
        for d in ("host", "addr"):
            shutil.rmtree(os.path.join(self.net, d), ignore_errors=True)
            os.mkdir(os.path.join(self.net, d))
        for n in e["args"]:
            behave = e.get("hosts", {}).get(str(n), ["ok"])
            if behave == ["unknown"] or n not in self.certs:
                continue
            ips = []
            for k, b in enumerate(behave):
                ip = "10.%d.%d.%d" % (k, n // 250, n % 250 + 1)
                ips.append(ip)
                d = os.path.join(self.net, "addr", "%s:%d" % (ip, 8443 if n % 5 == 0 else 443))
                os.mkdir(d)
                der = self.cert_der(n)
                good = struct.pack(">I", len(der)) + der
                what = {"ok": {"last": good}, "refuse": {}, "reset": {"1": b"", "last": good}, "cut": {"1": good[:-3], "last": good}, "dead": {"last": b""}, "junk": {"last": struct.pack(">I", 4) + b"JUNK"}}[b]
                for f, body in what.items():
                    with open(os.path.join(d, f), "wb") as h:
                        h.write(body)
            with open(os.path.join(self.net, "host", "h%d.example" % n), "w") as h:
                h.write("\n".join(ips))

    # ------------------------------------------------------------- events
    def event(self, e):
        k = e["k"]
        if k == "ca":
            if any(c["dn"] == e["dn"] for c in self.cas.values()):
                self.stats["shared_name"] += 1
            self.cas[e["n"]] = e
        elif k == "cert" and e["i"] in self.cas:
            self.certs[e["n"]] = e
            self.stats["forged"] += bool(e.get("forged"))
        elif k == "revoke" and e["c"] in self.certs:
            # a CA revokes by name and serial number
            for n, c in self.certs.items():
                if c["s"] == self.certs[e["c"]]["s"] and self.block(n) == self.block(e["c"]):
                    self.truth[n] = e["code"]
        elif k == "unrevoke" and e["c"] in self.certs:
            for n, c in self.certs.items():
                if c["s"] == self.certs[e["c"]]["s"] and self.block(n) == self.block(e["c"]):
                    self.truth.pop(n, None)
        elif k == "publish":
            e = dict(e, enrolled=[c for c in e["enrolled"] if c in self.cas])
            self.publish(e)
        elif k == "drop":
            self.drop(e)
        elif k == "damage":
            self.damage(e)
        elif k == "run":
            self.run(e)

    def damage(self, e):
        d = os.path.join(self.root, e["db"])
        if not os.path.isdir(d):
            return
        names = sorted(os.listdir(d))
        what = e["what"]
        self.stats["damaged"] += 1
        if what == "stray":
            for n, body in (("20990101-0-other.filter", b"{}\n"), ("notes.txt", b"hello"), ("20991231-1-old.delta", self.make_filter({"enrolled": [], "coverage": {}}, set()))):
                with open(os.path.join(d, n), "wb") as f:
                    f.write(body)
            return
        if not names:
            return
        p = os.path.join(d, names[e["f"] % len(names)])
        self.sim.note("damage %s %s" % (what, p[len(self.root) :]))
        if os.path.isdir(p):
            return
        with open(p, "rb") as f:
            body = f.read()
        if what == "remove":
            os.unlink(p)
        elif what == "cut":
            with open(p, "wb") as f:
                f.write(body[: len(body) // 2])
        elif what == "empty":
            open(p, "wb").close()
        elif what == "junk":
            with open(p, "wb") as f:
                f.write(b"junk" * 10)

    def files(self, db):
        out = {}
        d = os.path.join(self.root, db)
        if os.path.isdir(d):
            for n in os.listdir(d):
                try:
                    with open(os.path.join(d, n), "rb") as f:
                        out[n] = f.read()
                except IsADirectoryError:
                    pass
        return out

    @staticmethod
    def is_filter(n):
        # as a path's extension: a name that begins with its only dot has none
        stem, dot, ext = n.rpartition(".")
        return bool(stem) and ext in ("filter", "delta")

    def filters(self, files):
        """The filters of a database, or None if it cannot be used."""
        try:
            return [Filter(b) for n, b in sorted(files.items()) if self.is_filter(n)]
        except Bad:
            return None

    def status(self, filters, inter, n, now):
        c = self.certs[n]
        ca = self.cas[c["i"]]
        signer = sha(b"nobody") if c.get("forged") else ca["spki"]
        for der in inter.get(ca["dn"].encode(), []):
            try:
                spki = decode(der)[3].hex()
            except (Bad, struct.error):
                continue
            if spki == signer:
                break
        else:
            return "NotEnrolled"
        if not c["nb"] <= now < c["na"]:
            return "Expired"
        return combine(filters, c, sha(bytes.fromhex(spki)))

    def chain(self, inst, ch, records=None):
        return [r for r in (self.inst[inst]["records"] if records is None else records) if r["channel"] == ch]

    def freeze(self, inst, ch):
        recs = json.loads(json.dumps(self.chain(inst, ch)))
        return recs, dict(self.inst[inst]["files"]), {r: list(c) for r, c in self.enrolled.items()}

    # ------------------------------------------------------------- one run
    def run(self, e):
        sim, st = self.sim, self.stats
        db = e["db"]
        where_db = os.path.join(self.root, db)
        inst, ch = e.get("update"), e.get("channel", "default")
        srv = "stage" if inst in ("stage", "dev") else inst
        now = e["now"]
        before = self.files(db)
        for d in os.listdir(self.net):
            if d.startswith("v"):
                shutil.rmtree(os.path.join(self.net, d))
        self.routes(0, e)
        versions = [self.freeze(srv, ch)] if srv else []
        lines = ["%s %s" % (n, o) for n, o in sorted(e.get("net", {}).items())]
        mid = e.get("mid")
        if mid:
            for x in mid["events"]:
                self.event(x)
            self.routes(1, e)
            lines.append("from %d 1" % mid["at"])
            if srv:
                versions.append(self.freeze(srv, ch))
            st["published_midway"] += 1
        with open(os.path.join(self.net, "plan"), "w") as f:
            f.write("\n".join(lines))
        self.hosts(e)
        args, names = [], {}
        if e["cmd"] == "x509":
            shutil.rmtree(os.path.join(self.root, "certs"), ignore_errors=True)
            os.mkdir(os.path.join(self.root, "certs"))
            for n in e["args"]:
                p = os.path.join("certs", "%d.crt" % n)
                args.append(p)
                if n in self.certs:
                    der = self.cert_der(n)
                    with open(os.path.join(self.root, p), "wb") as f:
                        f.write(pem(der).encode() if n % 2 else der)
                    names[p] = n
                elif n % 2:
                    with open(os.path.join(self.root, p), "wb") as f:
                        f.write(b"not a certificate")
        elif e["cmd"] == "https":
            args = [self.host(n) for n in e["args"]]
            names = {"h%d.example" % n: n for n in e["args"]}
        elif e["cmd"] == "signoff":
            args = [HOSTFILE]
            names = {"h%d.example" % n: n for n in e["args"]}
            st["signoffs"] += 1
        else:
            args = [str(n) for n in e["args"][:1]]
            names = {str(n): n for n in e["args"][:1]}
        if os.path.exists(self.log):
            os.unlink(self.log)
        cmd = [EXE, "-d", db]
        if inst:
            cmd += ["--update", inst]
        if e.get("channel"):
            cmd += ["--channel", ch]
        cmd += ["-v"] * e.get("v", 0) + [e["cmd"]] + args
        env = {"PATH": os.environ.get("PATH", ""), "LD_PRELOAD": SHIM, "SIM_ROOT": self.root, "SIM_NET": self.net, "SIM_NOW": str(now), "SIM_SEED": str(e["seed"]), "SIM_LOG": self.log, "SIM_FAULTS": ";".join("%s,%s" % x for x in e.get("faults", {}).items())}
        sim.note("run %s%s %s %s faults %s net %s%s" % (db, " update %s %s" % (inst, ch) if inst else "", e["cmd"], e["args"], e.get("faults", {}), e.get("net", {}), " publication at request %d" % mid["at"] if mid else ""))
        try:
            pr = subprocess.run(cmd, env=env, cwd=self.root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=LIMIT)
            rc, err = pr.returncode, pr.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = None, ""
        st["runs"] += 1
        fired, requests = [], []
        try:
            with open(self.log) as f:
                for line in f:
                    w = line.split()
                    sim.order.update(" ".join(w[:4]).encode())
                    if w[0] == "fault":
                        fired.append((w[1], w[2], w[3] if len(w) > 3 else ""))
                    elif w[0] == "crash":
                        fired.append(("CRASH", w[1], w[2] if len(w) > 2 else ""))
                    elif w[0] == "net":
                        requests.append((int(w[1]), w[2], w[-1] if w[-1] in ("ok", "refuse", "timeout") or len(w) > 5 else w[3]))
                        if w[-1] not in ("ok", "crash"):
                            sim.fault_counts["net " + w[-1]] = sim.fault_counts.get("net " + w[-1], 0) + 1
                    elif w[0] == "connect":
                        sim.order.update(line.encode())
                        if w[3] == "refused":
                            sim.fault_counts["connection refused"] = sim.fault_counts.get("connection refused", 0) + 1
                    elif w[0] == "ops":
                        sim.steps += int(w[2])
                        st["operations"] += int(w[2])
        except OSError:
            pass
        st["requests"] += len(requests)
        sim.steps += len(requests)
        for k, op, path in fired[:200]:
            kk = "%s %s" % (k, op)
            sim.fault_counts[kk] = sim.fault_counts.get(kk, 0) + 1
        for x in fired[:6]:
            sim.note("  fired %s %s %s" % x)
        for x in requests:
            sim.note("  request %d %s %s" % x)
        sim.note("  exit %s%s" % (rc, "".join("\n    " + x for x in err.split("\n")[:12] if x and "thread '" not in x and "hours ago" not in x)))
        harm = [x for x in fired if x[0] not in BENIGN or (x[0] == "EINTR" and x[1] not in ("read", "write"))]
        badnet = [x for x in requests if x[2] != "ok"]
        crashed = any(x[0] in ("CRASH", "TORN", "DONE") for x in fired)
        after = self.files(db)
        for n in sorted(after):
            sim.digest.update(("%s %s" % (n, sha(after[n]) if n != "crlite.intermediates" else len(after[n]))).encode())
        where = "%s%s on %s" % (("update from %s, channel %s, and " % (inst, ch)) if inst else "", e["cmd"], db)
        if harm:
            where += " with " + "; ".join("%s at %s %s" % x for x in harm[:3])
        if badnet:
            where += " with " + "; ".join("%s for %s" % (x[2], x[1]) for x in badnet[:3])
        if rc is None:
            sim.violate("C33", "hang", "%s did not end" % where)
            return
        if not crashed and rc not in (0, 1):
            sim.violate("C33", "crash", "%s ended with %s: %s" % (where, rc, err.strip().split("\n")[-1][:200]))
        # what it said
        said = {}
        for line in err.split("\n"):
            w = line.split(" ")
            if len(w) == 4 and w[0] == "INFO" and w[3] in STATUSES:
                said.setdefault(w[2], []).append(w[3])
        filters = self.filters(after)
        inter = None
        try:
            inter = parse_intermediates(after.get("crlite.intermediates", b""))
        except Bad:
            pass
        reached = bool(said) or rc == 0
        self.judge_answers(e, where, rc, err, said, names, filters, inter, now, harm, badnet, requests, after)
        if inst:
            st["updates"] += 1
            self.judge_update(e, where, srv, ch, rc, reached, before, after, filters, versions, requests, harm, badnet, crashed, err)
        else:
            for n in before:
                if self.is_filter(n) and after.get(n) != before[n]:
                    sim.violate("C32", "query-changes", "%s changed %s" % (where, n))
            unseen = any(x[1] == "stat" and x[2].endswith("/crlite.intermediates") for x in harm)  # ... and so fetched anew
            if not unseen and "crlite.intermediates" in before and not self.same(before["crlite.intermediates"], after.get("crlite.intermediates")):
                sim.violate("C32", "query-changes", "%s changed crlite.intermediates" % where)
            elif "crlite.intermediates" in after and "crlite.intermediates" not in before:
                st["fetched_intermediates"] += 1

    def judge_answers(self, e, where, rc, err, said, names, filters, inter, now, harm, badnet, requests, after):
        sim, st = self.sim, self.stats
        st["queries"] += 1
        if filters is None or inter is None:
            st["unusable"] += 1
            if said:
                sim.violate("C31", "answers-from-damage", "%s: %s is %s although the database is damaged" % (where, *[(k, v[0]) for k, v in said.items()][0]))
            elif rc == 0:
                sim.violate("C31", "passes-on-damage", "%s: exit 0 although the database is damaged" % where)
            return
        for name, l in said.items():
            n = names.get(name)
            if n is None or n not in self.certs:
                sim.violate("C31", "answers-other", "%s: an answer for %s" % (where, name))
                continue
            want = self.status(filters, inter, n, now)
            st["answers"] += 1
            st[{"Good": "good", "Revoked": "revoked", "Expired": "expired", "NotEnrolled": "not_enrolled", "NotCovered": "not_covered"}[want]] += 1
            for s in l:
                if s != want:
                    sim.violate("C31", "wrong-answer", "%s: %s is said to be %s, it is %s" % (where, name, s, want))
        if harm and not said and rc != 0:
            return
        revoked = any("Revoked" in l for l in said.values())
        if revoked and rc == 0:
            sim.violate("C31", "wrong-exit", "%s: exit 0 with a revoked certificate" % where)
        loaded = bool(said) or rc == 0
        if not loaded:
            return
        if e["cmd"] == "x509":
            if not harm:
                for p, n in names.items():
                    if p not in said:
                        sim.violate("C31", "no-answer", "%s: no answer for %s" % (where, p))
                if not revoked and rc != 0:
                    sim.violate("C31", "wrong-exit", "%s: exit %s without a revoked certificate" % (where, rc))
            return
        if e["cmd"] == "crtsh":
            if rc == 0 and not said:
                sim.violate("C31", "passes-unasked", "%s: exit 0 without an answer" % where)
            if said and not revoked and rc != 0:
                sim.violate("C31", "wrong-exit", "%s: exit %s without a revoked certificate" % (where, rc))
            return
        # hosts
        if e["cmd"] == "signoff":
            q = [x for x in requests if x[1] == HOSTFILE]
            if any(x[2] in ("damage", "short") for x in q):
                return  # another list, for all one can tell
            if q and q[-1][2] != "ok" and rc == 0:
                sim.violate("C31", "passes-unasked", "%s: exit 0 although the list of hosts could not be had (%s)" % (where, q[-1][2]))
                return
            if rc == 0:
                st["signoffs_passed"] += 1
        for n in e["args"]:
            behave = e.get("hosts", {}).get(str(n), ["ok"])
            ok = n in self.certs and any(b in ("ok", "reset", "cut") for b in behave)
            if any(b in ("reset", "cut") for b in behave):
                st["hosts_retried"] += 1
            answered = "h%d.example" % n in said
            if not ok:
                st["host_failed"] += 1
                if rc == 0:
                    sim.violate("C31", "passes-unasked", "%s: exit 0 although %s did not answer" % (where, self.host(n)))
                return  # it stops there, or goes on
            if not answered:
                if rc == 0:
                    sim.violate("C31", "passes-unasked", "%s: exit 0 without an answer for %s" % (where, self.host(n)))
                elif not harm and not (e["cmd"] == "signoff" and badnet):
                    sim.violate("C31", "no-answer", "%s: no answer for %s, which answers" % (where, self.host(n)))
                return
        if not revoked and rc != 0:
            sim.violate("C31", "wrong-exit", "%s: exit %s without a revoked certificate" % (where, rc))

    def judge_update(self, e, where, srv, ch, rc, reached, before, after, filters, versions, requests, harm, badnet, crashed, err):
        sim, st = self.sim, self.stats
        db = e["db"]
        # the collection that the update saw
        at = next((x for x in requests if x[1] == RECORDS[srv]), None)
        mid = e.get("mid")
        vat = (1 if mid and at[0] >= mid["at"] else 0) if at else 0
        recs, files, enrolled = versions[vat]
        listed = {r["attachment"]["filename"]: r["attachment"]["hash"] for r in recs}
        fulls = sum(1 for r in recs if not r["incremental"])
        have = {n: sha(b) for n, b in after.items() if self.is_filter(n)}
        had = {n: sha(b) for n, b in before.items() if self.is_filter(n)}
        # whatever happens: nothing that was not checked is stored
        known = {r["attachment"]["filename"]: r["attachment"]["hash"] for v in versions for r in v[0]}
        for n, h in have.items():
            if h != had.get(n) and h != known.get(n):
                try:
                    Filter(after[n])
                except Bad:
                    if harm or crashed:
                        continue  # cut short on this disk: it cannot be used
                sim.violate("C33", "unchecked", "%s: stored %s, which is not what the collection lists" % (where, n))
        # ... and the database does not get weaker
        self.judge_safe(e, where, srv, ch, before, after, versions, reached)
        if fulls != 1 and at and at[2] == "ok":
            st["refused"] += 1
            if reached:
                sim.violate("C33", "not-refused", "%s: went well with %d full filters in the collection" % (where, fulls))
            elif have != had and not harm:
                sim.violate("C32", "refusal-changes", "%s: changed the database although the collection has %d full filters" % (where, fulls))
            return
        if not reached:
            st["update_crashed" if crashed else "update_failed"] += 1
            self.dirty.add(db)
            if not harm and not badnet and not mid and not crashed and e["cmd"] == "x509":
                sim.violate("C33", "fails-undisturbed", "%s failed (exit %s) though nothing had: %s" % (where, rc, " / ".join(err.strip().split("\n")[-2:])[:300]))
            if have and have != had and have != listed:
                st["left_mixed"] += 1
            return
        st["updated"] += 1
        if harm or badnet:
            st["faults_survived"] += 1
        if db in self.dirty:
            self.dirty.discard(db)
            st["retry_updated"] += 1
        if self.channel.get(db, ch) != ch:
            st["channel_changed"] += 1
        self.channel[db] = ch
        if have != listed:
            lacks = sorted(n for n in listed if have.get(n) != listed[n])
            extra = sorted(n for n in have if n not in listed)
            sim.violate("C33", "wrong-filters", "%s went well, but the database %s" % (where, ("lacks " + lacks[0]) if lacks else ("has " + extra[0] + ", which is not in the collection")))
        for n, h in had.items():
            if n in listed and h == listed[n]:
                st["reused"] += 1
                loc = next(r["attachment"]["location"] for r in recs if r["attachment"]["filename"] == n)
                if any(x[1] == ATTACH[srv] + loc for x in requests) and not harm:
                    sim.violate("C33", "fetched-again", "%s: fetched %s, which it had" % (where, n))
            elif n in listed:
                st["replaced_damaged"] += 1
            else:
                st["removed_stale"] += 1
        newest = max((self.runid(n) for n in listed), default=None)
        try:
            inter = parse_intermediates(after.get("crlite.intermediates", b""))
        except Bad:
            inter = None
        want = {}
        for c in (self.enrolled if mid else enrolled).get(newest and "%s-%d" % newest, []):
            want.setdefault(self.cas[c]["dn"].encode(), []).append(self.ca_der(c))
        if any(x[2] == "damage" and x[1].endswith("/enrolled.json") for x in requests):
            return  # nothing says what it should have been
        if inter is None or {k: sorted(v) for k, v in inter.items()} != {k: sorted(v) for k, v in want.items()}:
            sim.violate("C33", "wrong-intermediates", "%s went well, but the intermediates are not those of run %s-%d" % ((where,) + newest))

    @staticmethod
    def same(a, b):
        """Intermediates: the order of the entries does not matter."""
        try:
            return a == b or b is not None and parse_intermediates(a) == parse_intermediates(b)
        except Bad:
            return False

    @staticmethod
    def runid(n):
        w = n.split("-")
        return w[0], int(w[1])

    def judge_safe(self, e, where, srv, ch, before, after, versions, reached):
        """No certificate becomes good, or unknown, that neither the old database nor any state of the collection calls so."""
        sim = self.sim
        fa = self.filters(after)
        if fa is None:
            return  # nothing is answered
        fb = self.filters(before)
        views = []
        whole = []
        for recs, files, _ in versions:
            chain = sorted(recs, key=lambda r: (r["incremental"], self.runid(r["attachment"]["filename"])))
            fs = [Filter(files[r["attachment"]["location"]]) for r in chain if r["attachment"]["location"] in files]
            whole.append(fs)
            views += [fs[:k] for k in range(1, len(fs) + 1)]
        if fb is not None:
            views.append(fb)
        else:  # what an earlier update left, without what it did not finish
            views.append([])
            for n, b in before.items():
                try:
                    views[-1] += [Filter(b)] if self.is_filter(n) else []
                except Bad:
                    pass
        have = {n: sha(b) for n, b in after.items() if self.is_filter(n)}
        complete = any(recs and all(have.get(r["attachment"]["filename"]) == r["attachment"]["hash"] for r in recs) for recs, _, _ in versions)
        for n, c in self.certs.items():
            i = self.block(n)
            got = combine(fa, c, i)
            if got == "Revoked":
                continue
            if got == "Good" and not complete and not any(combine(v, c, i) == "Good" for v in views):
                sim.violate("C32", "made-good", "%s %s, and certificate %d is good now; it was %s before and is %s in the collection" % (where, "went well" if reached else "failed", n, combine(fb, c, i) if fb is not None else "not decided", combine(whole[-1], c, i)))
                return
            if fb is not None and combine(fb, c, i) == "Revoked" and all(combine(w, c, i) == "Revoked" for w in whole):
                sim.violate("C32", "forgotten", "%s %s, and certificate %d, revoked before and in the collection, is %s now" % (where, "went well" if reached else "failed", n, got))
                return

    def execute(self):
        for e in self.plan["events"]:
            self.event(e)
        t = [e["now"] for e in self.plan["events"] if e["k"] == "run"]
        if t:
            self.sim.start, self.sim.now = float(t[0]), float(t[-1])
        return self


def nontrivial(r):
    return r["stats"]["updated"] and r["stats"]["answers"] and (r["faults"] or r["stats"]["published_midway"] or r["stats"]["reused"])

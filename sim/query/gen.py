"""Plans of histories of the client."""
import base64
import hashlib
import random

FLAVORS = ("qquiet", "qnet", "qcrash", "qdisk", "qrace")
CODES = (0, 0, 1, 1, 3, 4, 5, 9)
NETS = ("refuse", "refuse", "timeout", "cut", "cut", "empty503", "html503", "json503", "html404", "empty404")
WHERE = (
    ("read", ("db*/*", "db*/*.filter", "db*/*.delta", "db*/crlite.intermediates")),
    ("open", ("db*/*", "db*", "db*/crlite.intermediates")),
    ("readdir", ("db*",)),
    ("stat", ("db*/*", "db*/*.filter", "db*", "db*/crlite.intermediates")),
    ("create", ("db*/*", "db*/*.filter", "db*/*.delta", "db*/crlite.intermediates")),
    ("write", ("db*/*", "db*/*.filter", "db*/*.delta", "db*/crlite.intermediates")),
    ("unlink", ("db*/*",)),
    ("mkdir", ("*",)),
)
HOUR = 3600


def make(flavor, seed):
    r = random.Random("%s/%d" % (flavor, seed))
    ev = []
    now = 1700000000 + r.randrange(10000000)
    logs = [base64.b64encode(bytes(r.randrange(256) for _ in range(32))).decode() for _ in range(r.choice((1, 2, 3)))]
    low = {l: (now - r.randrange(50, 300) * 86400) * 1000 for l in logs}
    high = {l: (now - r.randrange(6, 30) * HOUR) * 1000 for l in logs}
    ncas = r.choice((1, 2, 3, 4, 6))
    cas = []
    for n in range(ncas):
        dn = "CN=ca%d" % n
        if n and r.random() < 0.3:
            dn = "CN=ca%d" % r.randrange(n)
        spki = hashlib.sha256(b"ca %d %d" % (seed, n)).hexdigest()
        if n and r.random() < 0.1:
            spki = next(e for e in ev if e["k"] == "ca" and e["n"] == n - 1)["spki"]
        ev.append({"k": "ca", "n": n, "dn": dn, "spki": spki})
        cas.append(n)
    certs = []
    serials = []

    def cert():
        n = len(certs)
        s = bytes(r.randrange(256) for _ in range(r.choice((1, 2, 8, 16, 20)))).hex()
        x = r.random()
        if serials and x < 0.08:
            s = r.choice(serials)
        elif serials and x < 0.12:
            s = "00" + r.choice(serials)
        serials.append(s)
        scts = []
        for l in r.sample(logs, r.randrange(0, len(logs) + 1)) if r.random() < 0.15 else r.sample(logs, r.randrange(1, len(logs) + 1)):
            x = r.random()
            t = low[l] + int((high[l] - low[l]) * r.random()) if x < 0.7 else high[l] + r.randrange(-2, 90) * HOUR * 1000 if x < 0.93 else low[l] - r.randrange(1, 100) * HOUR * 1000
            if r.random() < 0.03:
                t = r.choice((low[l], high[l]))
            scts.append([l, t])
        if r.random() < 0.05:
            scts.append([base64.b64encode(b"x" * 32).decode(), now * 1000])
        x = r.random()
        na = now + r.randrange(40, 300) * 86400 if x < 0.85 else now + r.randrange(0, 10) * 86400 if x < 0.95 else now - r.randrange(1, 5) * HOUR
        e = {"k": "cert", "n": n, "i": r.choice(cas), "s": s, "scts": scts, "nb": now - 400 * 86400 if r.random() < 0.97 else now + r.randrange(1, 10) * HOUR, "na": na}
        if r.random() < 0.03:
            e["forged"] = True
        certs.append(n)
        return e

    for _ in range(r.choice((1, 4, 12, 30))):
        ev.append(cert())

    def revocations(k):
        for _ in range(k):
            ev.append({"k": "revoke", "c": r.choice(certs), "code": r.choice(CODES)})
        if r.random() < 0.3:
            ev.append({"k": "unrevoke", "c": r.choice(certs)})

    day = [now]
    serial = [0]
    insts = ("stage",) if r.random() < 0.7 else ("stage", "prod")
    enrolled = [c for c in cas if r.random() < 0.85]

    def publication(inst, full):
        serial[0] += 1
        d = day[0] // 86400
        # a calendar of months of 30 days
        y = "%08d" % (20200000 + ((d - 19000) // 360) * 10000 + ((d - 19000) // 30 % 12 + 1) * 100 + (d - 19000) % 30 + 1)
        run = "%s-%d" % (y, runs.setdefault(y, r.choice((0, 0, 0, 8, 9, 10))))
        runs[y] += 1
        for l in logs:
            high[l] += r.randrange(0, 14) * HOUR * 1000
            if r.random() < 0.03:
                low[l] += 30 * 86400 * 1000
        ch = ["default", "compat"] if r.random() < 0.9 else [r.choice(("default", "compat"))]
        x = r.random()
        if x < 0.1 and len(enrolled) < len(cas):
            enrolled.append(r.choice([c for c in cas if c not in enrolled]))
        elif x < 0.13 and enrolled:
            enrolled.pop()
        return {"k": "publish", "inst": inst, "run": run, "full": full, "channels": ch, "coverage": {l: [low[l], high[l]] for l in logs}, "enrolled": list(enrolled), "purge": r.random() < 0.5, "n": serial[0]}

    runs = {}
    for i in insts:
        ev.append(publication(i, True))
    dbs = ["db%d" % n for n in range(r.choice((1, 1, 2)))]
    chan = {d: r.choice((None, None, "default", "compat")) for d in dbs}
    src = {d: r.choice(("stage", "stage", "dev") + insts) for d in dbs}
    bad = flavor != "qquiet"

    def run(db, update, disturb):
        if r.random() < 0.08:
            chan[db] = r.choice((None, "default", "compat"))
        if r.random() < 0.05:
            src[db] = r.choice(insts)
        x = r.random()
        cmd = "x509" if x < 0.68 else "https" if x < 0.82 else "signoff" if x < 0.93 else "crtsh"
        args = [r.choice(certs) for _ in range(r.choice((1, 2, 4, 10)))]
        if cmd == "x509":
            args = [r.choice(certs)] + args
            args = list(dict.fromkeys(args))
            if r.random() < 0.1:
                args.insert(r.randrange(len(args) + 1), 5000 + r.randrange(2))
        else:
            args = list(dict.fromkeys(args))
        e = {"k": "run", "db": db, "cmd": cmd, "args": args, "seed": r.randrange(1 << 31), "now": now, "faults": {}, "net": {}, "v": r.choice((0, 0, 1, 2)), "order": r.choice(("old", "new", "new", "id"))}
        if chan[db]:
            e["channel"] = chan[db]
        if update:
            e["update"] = src[db]
        if r.random() < 0.2:
            e["plain"] = True  # records without a channel are of the default channel
        if r.random() < 0.1:
            e["junk_ca"] = True
        if cmd in ("https", "signoff") and r.random() < 0.5:
            e["hosts"] = {}
            for n in args:
                x = r.random()
                if x < 0.25:
                    e["hosts"][str(n)] = r.choice((["reset"], ["refuse", "ok"], ["dead", "ok"], ["cut"], ["junk", "ok"], ["refuse", "dead", "reset"], ["dead", "cut"]))
                elif x < 0.3:
                    e["hosts"][str(n)] = r.choice((["unknown"], ["refuse"], ["dead"], ["junk"], ["dead", "refuse"]))
        if cmd == "signoff" and (disturb or r.random() < 0.15):
            e["net"]["1" if not update else str(r.randrange(1, 12))] = r.choice(NETS)
        if not disturb:
            return e
        if flavor == "qnet" or r.random() < 0.15:
            for _ in range(r.choice((1, 1, 2))):
                n = r.choice((1, 2, 2, 3, 3, 4, 5, 6, 8))
                k = r.choice(NETS + ("crash", "damage", "short"))
                if k in ("damage", "short") and n < 2:
                    k = "cut"
                e["net"][str(n)] = k
        if flavor == "qcrash":
            e["faults"]["%s,%s,%d" % (r.choice(("*", "write", "create", "space", "unlink", "unlink")), r.choice(("*", "db*/*")), 1 + int(r.choice((4, 12, 30)) * r.random()))] = r.choice(("CRASH", "TORN", "DONE"))
            if r.random() < 0.4:
                e["faults"] = {}
                e["net"][str(r.randrange(1, 8))] = "crash"
        elif flavor == "qdisk":
            for _ in range(r.choice((1, 1, 2))):
                op, globs = WHERE[r.randrange(len(WHERE))]
                k = r.choice(("EIO", "EIO", "EACCES", "ENOSPC", "EMFILE", "EINTR", "SHORT"))
                if k == "SHORT" and op not in ("read", "write"):
                    k = "EIO"
                if k == "EINTR" and op not in ("read", "write"):
                    k = "EIO"
                e["faults"]["%s,%s,%d%s" % (op, r.choice(globs), r.choice((1, 1, 2, 3, 4, 6)), "+" if r.random() < 0.2 and k != "EINTR" else "")] = k
            if r.random() < 0.3:
                e["faults"] = {"space,db*,%d+" % r.randrange(1, 8): r.choice(("FULL", "FULL", "EDQUOT"))}
                if r.random() < 0.5:
                    e["faults"] = {"space,db*/*,%d+" % r.randrange(1, 8): "FULL"}
        elif flavor == "qrace" and update:
            evs = []
            if r.random() < 0.3:
                evs.append({"k": "revoke", "c": r.choice(certs), "code": r.choice(CODES)})
            x = r.random()
            if x < 0.12:
                evs.append({"k": "drop", "inst": "stage" if src[db] == "dev" else src[db], "channel": chan[db] or "default"})
                evs.append(publication("stage" if src[db] == "dev" else src[db], True))
            else:
                evs.append(publication("stage" if src[db] == "dev" else src[db], x < 0.6))
            e["mid"] = {"at": r.choice((1, 2, 2, 3, 3, 4, 5)), "events": evs}
        return e

    for step in range(r.choice((2, 4, 7, 10))):
        now += r.choice((1, 2, 3, r.randrange(1, 40), r.randrange(1, 40))) * HOUR
        day[0] = now
        for _ in range(r.choice((0, 0, 1, 3))):
            ev.append(cert())
        revocations(r.choice((0, 1, 2, 5)))
        if step == 0:
            for d in dbs:
                ev.append(run(d, True, bad and r.random() < 0.5))
            continue
        for i in insts:
            x = r.random()
            if x < 0.75:
                ev.append(publication(i, x < 0.2))
        if r.random() < 0.03:
            ev.append({"k": "drop", "inst": r.choice(insts), "channel": r.choice(("default", "compat"))})
            ev.append(run(r.choice(dbs), True, False))
            ev.append(publication("stage", True))
        if r.random() < 0.02:
            p = publication("stage", True)
            p["keep"] = True
            ev.append(p)
            ev.append(run(r.choice(dbs), True, False))
            p = publication("stage", True)
            ev.append(p)
        if r.random() < 0.12:
            ev.append({"k": "damage", "db": r.choice(dbs), "f": r.randrange(20), "what": r.choice(("cut", "empty", "junk", "remove", "remove", "stray"))})
            if r.random() < 0.5:
                ev.append(run(r.choice(dbs), False, False))
        for d in dbs:
            x = r.random()
            if x < 0.85:
                if bad and r.random() < 0.6:
                    ev.append(run(d, True, True))
                    if r.random() < 0.5:
                        ev.append(run(d, False, False))
                    if r.random() < 0.5:
                        ev.append(run(d, True, False))
                else:
                    ev.append(run(d, True, False))
            if r.random() < 0.5:
                ev.append(run(d, False, bad and r.random() < 0.3))
    return {"world": "client", "flavor": flavor, "seed": seed, "events": ev, "windows": []}

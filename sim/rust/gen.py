"""Plans of histories of the filter generator."""
import random

FLAVORS = ("fquiet", "fbig", "ffault", "fcrash", "ffull")
CODES = (0, 0, 1, 1, 2, 3, 4, 5, 5, 6, 8, 9, 9, 10, 7, 11, 255)
SETS = ("all", "specified", "priority")
WHERE = (
    ("read", ("known/*", "revoked/*", "*/delta/*", "prev/*")),
    ("open", ("known/*", "revoked/*", "*/delta/*", "known", "revoked", "*/delta", "prev/*", "*")),
    ("readdir", ("known", "revoked", "*/delta", "known", "*")),
    ("stat", ("revoked/*", "revoked/*", "*/delta/*", "known", "revoked", "ct-logs.json", "out*", "*/delta", "*/filter*", "*/revset.bin")),
    ("create", ("*/filter", "*/filter.delta", "*/filter.stash", "*/revset.bin", "*/delta/*", "*.csv")),
    ("write", ("*/filter", "*/filter.delta", "*/filter.stash", "*/revset.bin", "*/delta/*", "*/delta/*", "*.csv")),
    ("mkdir", ("*",)),
    ("unlink", ("*",)),
)


def fault(r, kinds):
    op, globs = WHERE[r.randrange(len(WHERE))]
    g = r.choice(globs)
    n = r.choice((1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20))
    k = r.choice(kinds)
    if k == "EINTR" and op not in ("read", "write", "open", "create"):
        k = "EIO"
    if k == "SHORT" and op not in ("read", "write"):
        k = "EINTR" if op in ("open", "create") else "EIO"
    on = r.random() < 0.2 and k != "EINTR"
    return "%s,%s,%d%s" % (op, g, n, "+" if on else ""), k


def make(flavor, seed):
    r = random.Random("%s/%d" % (flavor, seed))
    big = flavor == "fbig"
    issuers = [bytes(r.randrange(256) for _ in range(32)).hex() for _ in range(r.choice((1, 2, 3, 3, 4, 6, 9)))]
    ev = []
    logs = [["log%d" % i, 1000 + r.randrange(1000), 5000 + r.randrange(5000)] for i in range(r.randrange(4))]
    ev.append({"k": "logs", "logs": logs})
    everyone = []  # (issuer, serial)
    length = r.choice((1, 8, 16, 16, 20))

    def serial():
        x = r.random()
        if everyone and x < 0.06:
            return r.choice(everyone)[1]  # of another issuer, or a repetition
        if everyone and x < 0.1:
            return "00" + r.choice(everyone)[1]
        n = length if x < 0.9 else r.randrange(1, 21)
        return bytes(r.randrange(256) for _ in range(n)).hex()

    def grow(n, hour):
        for _ in range(n):
            i = r.choice(issuers[: 1 + r.randrange(len(issuers))])
            s = serial()
            everyone.append((i, s))
            ev.append({"k": "known", "i": i, "h": hour + r.randrange(1, 60), "s": s})
            if r.random() < 0.03:
                ev.append({"k": "known", "i": i, "h": hour + r.randrange(1, 60), "s": s})

    def revoke(n):
        for _ in range(n):
            if r.random() < 0.12 or not everyone:
                i, s = r.choice(issuers), serial()  # unknown to the logs
            else:
                i, s = r.choice(everyone)
            e = {"k": "revoke", "i": i, "s": s, "c": r.choice(CODES)}
            if r.random() < 0.05:
                e["dup"] = True
            ev.append(e)

    hour = 480000
    configs = []
    for n in range(r.choice((1, 2, 2, 3))):
        rs = ("all", "priority", r.choice(SETS))[n]
        drs = rs if r.random() < 0.8 else r.choice(SETS)
        configs.append({"out": "out%d" % n, "rs": rs, "drs": drs, "ft": "clubcard" if r.random() < 0.75 else "cascade"})
    epochs = r.choice((1, 2, 2, 3)) if big else r.choice((1, 2, 3, 4, 6))
    bad = flavor != "fquiet" and flavor != "fbig"
    for ep in range(epochs):
        scale = r.choice((400, 1500, 3000)) if big else r.choice((0, 3, 12, 30, 60))
        grow(scale if ep == 0 else scale // 3, hour)
        revoke(r.choice((0, 1, 2, scale // 6, scale // 3)))
        x = r.random()
        if x < 0.25:
            ev.append({"k": "crl", "i": r.choice(issuers)})
        if r.random() < 0.25:
            ev.append({"k": "issuer", "i": r.choice(issuers)})
        if ep and r.random() < 0.4:
            ev.append({"k": "expire", "h": hour + r.randrange(30)})
        if ep and r.random() < 0.15:
            ev.append({"k": "forget", "i": r.choice(issuers)})
        if ep and r.random() < 0.15:
            ev.append({"k": "nocrl", "i": r.choice(issuers)})
        for _ in range(r.choice((0, 0, 1, 3)) if everyone else 0):
            i, s = r.choice(everyone)
            ev.append({"k": "unrevoke", "i": i, "s": s})
        if r.random() < 0.3:
            logs = [[n, a, b + r.randrange(1000)] for n, a, b in logs]
            ev.append({"k": "logs", "logs": logs})
        hour += r.randrange(6, 30)
        for c in configs:
            tries = 1 + (r.choice((0, 1, 1, 2)) if bad else 0)
            for t in range(tries):
                e = dict(c, k="run", seed=r.randrange(1 << 31), prev="last", clobber=r.random() < 0.9 or t > 0, faults={})
                x = r.random()
                if x < 0.04:
                    e["prev"] = "none"
                elif x < 0.08:
                    e["prev"] = "cut"
                elif x < 0.1:
                    e["prev"] = "junk"
                elif x < 0.12:
                    e["prev"] = "empty"
                elif x < 0.14:
                    e["prev"] = "dir"
                elif x < 0.17:
                    e["of"] = configs[0]["out"]
                elif x < 0.19:
                    e["prev"] = "unset"
                if r.random() < 0.2:
                    e["statsd"] = r.choice(("statsd:8125", "statsd", "bad:1"))
                if e["ft"] == "cascade" and r.random() < 0.3:
                    e["murmur"] = True
                if r.random() < 0.02:
                    e["missing"] = r.choice(("known", "revoked", "ct-logs.json"))
                if not bad or (t == tries - 1 and r.random() < 0.6):
                    if flavor == "fbig" and r.random() < 0.3:
                        k, v = fault(r, ("EINTR", "SHORT"))
                        if v != "EIO":
                            e["faults"][k] = v
                    ev.append(e)
                    continue
                if flavor == "fcrash":
                    e["faults"]["%s,*,%d" % (r.choice(("*", "write", "create", "space", "unlink")), 1 + int(r.choice((8, 40, 200)) * r.random()))] = r.choice(("CRASH", "TORN", "DONE"))
                elif flavor == "ffull":
                    e["faults"]["space,%s,%d+" % (r.choice(("*", "*", "*/filter*", "*/delta/*", "*/revset.bin")), 1 + int(r.choice((3, 10, 60)) * r.random()))] = r.choice(("FULL", "FULL", "EDQUOT", "EROFS"))
                else:
                    for _ in range(r.choice((1, 1, 1, 2, 3))):
                        k, v = fault(r, ("EIO", "EIO", "EIO", "EACCES", "EMFILE", "ENOMEM", "ENOSPC", "EINTR", "SHORT"))
                        e["faults"][k] = v
                ev.append(e)
    return {"world": "filter", "flavor": flavor, "seed": seed, "events": ev, "windows": []}

"""Plans: which events happen when, and which faults meet them, from a seed."""
import random

FLAVORS = {
    "pubquiet": "no faults: generator, publisher and sign-off on their schedules",
    "pubmix": "everything, moderately",
    "pubcrash": "processes die at any operation, replies get lost",
    "publong": "sixty to a hundred days of runs",
    "pubage": "the age limit of the full filter, with many runs on its first and last days",
    "pubbusy": "more than ten runs a day",
    "pubclock": "the generator's clock jumps",
    "pubint": "changes of intermediates, logs, records and enrollment",
}
H = 3600.0
D = 86400.0


COLS = ("ct-logs", "cert-revocations", "intermediates")
TARGETS = {
    "publish": ["%s %s" % (o, c) for c in COLS for o in ("list", "create", "delete", "status", "status!")]
    + ["update ct-logs", "update intermediates", "attach cert-revocations", "attach intermediates"]
    + ["GET log_list", "GET attachment", "info", "gcs list ", "gcs bucket "]
    + ["gcs exists " + f for f in ("completed", "filter", "filter.delta", "ct-logs.json", "timestamp", "enrolled.json")]
    + ["gcs get " + f for f in ("filter", "filter.delta", "timestamp", "enrolled.json")],
    "generate": ["gcs list ", "gcs bucket "] + ["gcs put " + f for f in ("timestamp", "completed", "filter", "filter.delta", "revset.bin", "enrolled.json", "ct-logs.json", "crls.tar.gz")] + ["gcs get revset.bin", "gcs exists revset.bin"],
    "signoff": ["status " + c for c in COLS[1:]] + ["status! " + c for c in COLS[1:]],
}


def faults(r, kind, p):
    out = {}
    if r.random() >= p:
        return out
    n = {"generate": 46, "publish": 70, "signoff": 5}[kind]
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.randrange(1, n) if r.random() < 0.7 else r.randrange(1, 14)
        if r.random() < 0.5:
            k = r.choice(TARGETS[kind]) + r.choice(("@1", "@1", "@2", "@3", "@*"))
        out[str(k)] = r.choice(("crash", "crash-after", "error", "error", "conn", "lost-reply", "lost-reply", "slow"))
    return out


def make(flavor, seed):
    r = random.Random("%s-%d" % (flavor, seed))
    # some day, some hour
    start = 1600000000 // int(D) * D + r.randrange(0, 700) * D + r.random() * D
    cfg = {
        "persist_processing": r.random() < 0.5,
        "enforce_review": r.random() < 0.5,
        "logs": [{"i": i, "op": "Op%d" % r.randrange(3), "tiled": r.random() < 0.4, "state": r.choice(("usable", "usable", "qualified", "retired", "pending", "rejected"))} for i in range(r.randrange(1, 7))],
    }
    ev, windows = [], []
    q = flavor == "pubquiet"
    pf = {"pubquiet": 0, "pubmix": 0.25, "pubcrash": 0.6, "publong": 0.05, "pubage": 0.02, "pubbusy": 0.15, "pubclock": 0.1, "pubint": 0.25}[flavor]
    days = {"pubquiet": r.randrange(2, 6), "pubmix": r.randrange(2, 7), "pubcrash": r.randrange(2, 5), "publong": r.randrange(50, 100), "pubage": 47, "pubbusy": r.randrange(1, 4), "pubclock": r.randrange(2, 7), "pubint": r.randrange(2, 5)}[flavor]
    span = days * D
    ints = sorted(r.sample(range(14), r.randrange(2, 7)))

    def evolve_ints():
        nonlocal ints
        if r.random() < (0.5 if flavor == "pubint" else 0.15):
            s = set(ints)
            for _ in range(r.choice((1, 1, 2, 5))):
                s ^= {r.randrange(14)}
            ints = sorted(s) or [0]
            r.shuffle(ints)

    def gen_event(t, f=True):
        evolve_ints()
        e = {"kind": "generate", "t": t, "new": r.choice((0, 1, 2, 5)), "gone": r.choice((0, 0, 0, 1, 3)), "dur": r.choice((60, 600, 1800)), "ints": list(ints)}
        e["reason"] = r.choice((0, 0, 1))
        if flavor in ("pubbusy", "pubage"):
            e["dur"] = 60
        if r.random() < 0.1:
            e["bad"] = [[i, r.choice(("spki", "short", "nopem", "nosubject", "dup"))] for i in r.sample(sorted(set(range(14)) - set(ints)) or [0], 1)]
            if e["bad"][0][1] == "dup":
                e["bad"][0][0] = r.choice(ints)
        if f:
            fl = faults(r, "generate", pf)
            if fl:
                e["faults"] = fl
            if not q and r.random() < 0.04:
                e["cascade"] = r.choice(("all", "priority"))
            if not q and r.random() < 0.02:
                e["nofilter"] = "all"
            if not q and r.random() < 0.02:
                e["noop"] = True
        return e

    def every(kind, gap, jitter=0.3, first=None, start=0.0, end=None):
        t = start + (first if first is not None else gap * r.random())
        while t < (span if end is None else end):
            e = gen_event(t) if kind == "generate" else {"kind": kind, "t": t}
            if kind != "generate":
                fl = faults(r, kind, pf)
                if fl:
                    e["faults"] = fl
                if not q and r.random() < 0.06:
                    e["noop"] = True
                if kind == "publish" and not q and r.random() < 0.02:
                    e["enrolled"] = r.sample(range(14), r.randrange(1, 6))
            ev.append(e)
            t += gap * (1 + jitter * (r.random() * 2 - 1))

    if flavor == "publong":
        g = r.choice((12, 24, 24, 36)) * H
        every("generate", g)
        every("publish", g * r.choice((0.5, 0.9, 1.7)))
        every("signoff", g * r.choice((0.7, 1.5)))
    elif flavor == "pubage":
        # run identifiers with one and two digits on the day of the full filter
        start = start // D * D
        first = r.uniform(6, 12) * H
        every("generate", 1.0 * H, 0.1, first=0.1 * H, end=r.uniform(14, 20) * H)
        every("publish", 1.0 * H, 0.2, first=0.0, start=first, end=22 * H)
        every("generate", r.choice((24, 48, 72)) * H, start=D, end=44.5 * D)
        every("publish", r.choice((24, 48)) * H, start=D, end=44.5 * D)
        every("signoff", 96 * H)
        every("generate", 1.5 * H, 0.2, start=44.7 * D, end=46 * D)
        every("publish", 0.7 * H, 0.3, start=44.7 * D, end=46 * D)
    elif flavor == "pubbusy":
        every("generate", r.choice((0.8, 1.0, 1.8)) * H, 0.2)
        every("publish", r.choice((0.7, 1.5, 4.0)) * H)
        every("signoff", r.choice((1.0, 3.0)) * H)
    else:
        every("generate", r.choice((3, 6, 6, 12)) * H)
        every("publish", r.choice((1, 2, 3, 7)) * H)
        every("signoff", r.choice((0.5, 1, 3, 6)) * H)
    if not q:
        k = {"publong": 6, "pubage": 1}.get(flavor, 3)
        for _ in range(r.randrange(0, k + 1)):
            t = r.random() * span
            windows.append([r.choice(("kinto", "kinto", "gcs", "cdn", "loglist")), t, t + r.choice((60, 600, 4 * H)), r.choice((0.05, 0.3, 1.0))])
        if flavor != "pubage":
            for _ in range(r.choice((0, 0, 1, 2))):
                ev.append({"kind": "expire", "t": r.random() * span, "keep": r.choice((1, 2, 4, 8, 0)), "age": r.choice((1.1, 3, 20)) * D})
        m = {"pubint": 14, "pubmix": 4, "publong": 4}.get(flavor, 1)
        for _ in range(r.randrange(0, m + 1)):
            ev.append({"kind": "loglist", "t": r.random() * span, "change": r.choice(("add", "add", "drop", "url", "mmd", "desc", "op", "state", "state", "tiled", "dup", "badid", "html", "cut", "errdoc", "nofield", "repair", "repair")), "n": r.randrange(100)})
        for _ in range(r.randrange(0, m + 1)):
            ev.append({"kind": "enroll", "t": r.random() * span, "n": r.randrange(100)})
        for _ in range(r.randrange(0, m + 1)):
            ev.append({"kind": "approve", "t": r.random() * span})
        for _ in range(r.randrange(0, m // 2 + 1)):
            col = r.choice(("cert-revocations", "intermediates", "intermediates"))
            how = r.choice(("delete", "noattach", "dup", "hash", "extra") if col == "intermediates" else ("delete", "noattach", "dup", "parent", "full"))
            ev.append({"kind": "tamper", "t": r.random() * span, "col": col, "how": how, "n": r.randrange(100)})
        if r.random() < 0.2:
            ev.append({"kind": "oldchannel", "t": r.random() * span, "n": r.randrange(4)})
        # reviewers act while a publisher runs
        pubs = [e for e in ev if e["kind"] == "publish"]
        for _ in range(r.randrange(0, m + 1)):
            if pubs:
                e = r.choice(pubs)
                t = e["t"] + r.random() * r.choice((1, 4, 20))
                ev.append({"kind": "enroll", "t": t, "n": r.randrange(100)})
                if r.random() < 0.5:
                    ev.append({"kind": "loglist", "t": max(0.0, e["t"] - 1.0), "change": r.choice(("url", "mmd", "desc", "op")), "n": r.randrange(100)})
        # the next publication meets the damage, and fails to repair it
        for t in [e for e in ev if e["kind"] == "tamper"]:
            nxt = [e for e in pubs if e["t"] > t["t"]]
            if nxt and r.random() < 0.4:
                e = min(nxt, key=lambda e: e["t"])
                e.setdefault("faults", {})["%s %s@%s" % (r.choice(("delete", "delete", "create", "attach", "status!")), t["col"], r.choice("12*"))] = r.choice(("error", "error", "crash", "lost-reply"))
        # and so do the sign-off and the generator
        for _ in range(r.randrange(0, 8)):
            if pubs and flavor != "pubage":
                e = r.choice(pubs)
                s = {"kind": "signoff", "t": e["t"] + r.random() * r.choice((3, 10, 40))}
                if r.random() < 0.6:
                    s["t"] = max(0.0, e["t"] - r.uniform(0, 300))
                    c = r.choice(COLS[1:])
                    s["cols"] = [c]
                    s["faults"] = {"status! %s@1" % c: "race"}
                ev.append(s)
    if flavor == "pubclock":
        for _ in range(r.randrange(1, 4)):
            ev.append({"kind": "skew", "t": r.random() * span, "host": "gen", "by": r.choice((-1, 1, -1)) * r.choice((30.0, 1000.0, 5 * H, 13 * H, 30 * H, 80 * H))})
    if not q and r.random() < 0.2:
        ev.append({"kind": "skew", "t": r.random() * span, "host": "pub", "by": r.choice((-1, 1)) * r.choice((30.0, 1000.0, 30 * H))})
    ev.sort(key=lambda e: e["t"])
    for i, e in enumerate(ev):
        e["id"] = i
        e["t"] = round(e["t"], 3)
    return {"world": "pub", "flavor": flavor, "seed": seed, "start": start, "cfg": cfg, "windows": windows, "events": ev, "final": {"generate": gen_event(0, False)}}

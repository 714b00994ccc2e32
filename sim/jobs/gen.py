"""Plans of histories of jobs."""
import importlib.util
import os
import random

_spec = importlib.util.spec_from_file_location("filter_gen", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rust", "gen.py"))
fgen = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(fgen)

FLAVORS = ("jquiet", "jfail", "jcrash", "jstore", "jdisk", "jsign", "jnoop")
BUCKETS = ("crlite-filters-prod", "crlite-filters-stage", "crlite-filters-dev", "crlite_filters_staging", "")
OPS = ("*", "put_*", "put_*", "put_*/clubcard-*", "put_latest/*", "put_*/completed", "put_*/filter", "put_*/filter.delta", "put_*/revset.bin", "put_*/known/*", "put_*/revoked/*", "put_*/enrolled.json", "put_*/ct-logs.json", "put_*/timestamp", "get_latest/*", "stat_latest/*", "get_latest/revset.bin", "list", "bucket", "put_*/crls.tar.gz")
DISK = ("write,*/clubcard-*", "create,*/clubcard-*", "open,*/known*", "read,*/known/*", "open,*/revoked*", "read,*/revoked/*", "write,*/timestamp", "create,*/timestamp", "mkdir,processing/*", "read,*/clubcard-*", "open,*/clubcard-*", "read,*/enrolled.json", "readdir,*/known", "readdir,*/revoked", "readdir,*/clubcard-*", "readdir,processing/*", "write,*/revset.bin", "write,tmp/*", "create,tmp/*", "write,*/crls.tar.gz", "read,persistent/crls/*", "space,processing/*", "*,processing/*", "stat,processing/*", "unlink,*")
NETS = ("refuse", "timeout", "cut", "empty503", "html503", "json503", "html404", "empty404")


def disk(r, crash):
    n = r.choice((1, 1, 1, 2, 2, 3, 4, 6, 9))
    k = r.choice(("CRASH", "TORN", "DONE")) if crash else r.choice(("EIO", "EIO", "EIO", "EACCES", "ENOSPC", "FULL", "EMFILE", "ENOMEM", "EROFS"))
    x = r.choice(DISK)
    if k == "FULL":
        x = r.choice(("space,processing/*", "space,*/clubcard-*", "space,*"))
    return "%s,%d%s,%s" % (x, n, "+" if k == "FULL" or r.random() < 0.2 else "", k)


def faults(r, flavor, steps):
    out = {}
    for _ in range(r.choice((1, 1, 1, 2))):
        if flavor == "jfail":
            if r.random() < 0.2:
                out["step %d" % r.choice((3, 4))] = "half"  # the aggregation programs stop halfway
                continue
            out["step %d" % r.randrange(1, steps + 1)] = r.choice(("fail 1", "fail 1", "fail 2", "fail 101", "fail 137", "late 1", "half"))
        elif flavor == "jcrash":
            if r.random() < 0.5:
                out["step %d" % r.randrange(1, steps + 1)] = r.choice(("kill", "killafter"))
            elif r.random() < 0.75:
                out["op %s %d" % (r.choice(OPS), r.choice((1, 1, 2, 3, 5, 8, 13)))] = r.choice(("kill", "killafter"))
            else:
                out["step %d" % r.randrange(1, steps + 1)] = "disk " + disk(r, True)
        elif flavor == "jstore":
            g = r.choice(OPS)
            out["op %s %d%s" % (g, r.choice((1, 1, 1, 2, 2, 3, 5, 9)), "+" if r.random() < 0.4 else "")] = r.choice(("unavail", "unavail", "conn", "lost", "connlost", "denied"))
        else:
            out["step %d" % r.randrange(1, steps + 1)] = "disk " + disk(r, False)
    return out


def make(flavor, seed):
    r = random.Random("%s/%d" % (flavor, seed))
    ev = []
    now = 1700000000 + r.randrange(86400 * 30)
    jobs = 0

    def job(kind, **kw):
        nonlocal now
        now += r.choice((1, 1, 3, 6, 6, 6, 6, 24)) * 3600 + r.randrange(1800)
        t = now - (r.randrange(86400) if r.random() < 0.06 else 0)
        e = dict({"k": "job", "job": kind, "now": t, "seed": r.randrange(1 << 31), "cred": r.choice(("data", "data", "file", "file", "file")), "faults": {}}, **kw)
        if r.random() < 0.03:
            e["cred"] = "none"
        ev.append(e)
        return e

    def chain():
        """The filters of an instance."""
        out = []
        lim = 10485760
        for ch in ("default", "compat"):
            n = 1 if ch == "default" and r.random() < 0.85 else r.choice((0, 1, 1, 2))
            for i in range(n):
                size = r.choice((200, 5000, 60000, 100000, 100001, 99999, 250000, 300, lim, lim + 1) if ch == "default" else (200, 150000))
                out.append({"full": True, "channel": ch, "run": "202401%02d-%d" % (1 + i, r.randrange(4)), "size": size})
            for i in range(r.choice((0, 0, 1, 3)) if n else 0):
                out.append({"full": False, "channel": ch, "run": "202401%02d-%d" % (10 + i, r.randrange(4)), "size": r.choice((200, 3000, 200000))})
        r.shuffle(out)
        return out

    if flavor == "jsign":
        for _ in range(r.choice((3, 4, 6, 8))):
            for inst in ("prod", "stage"):
                if r.random() < 0.7 or not ev:
                    ev.append({"k": "publish", "inst": inst, "filters": chain()})
            e = job("signoff", bucket=r.choice(BUCKETS[:3] * 4 + BUCKETS), status=[r.choice(("to-review", "to-review", "to-review", "signed", "work-in-progress")), r.choice(("to-review", "signed", "work-in-progress"))], net={})
            if r.random() < 0.75:
                e["max"] = r.choice((100000, 100000, 100000, 5000, 1, 200000))
            if r.random() < 0.08:
                e["noop"] = r.choice(("1", "true", "yes"))
            if r.random() < 0.3:
                e["statsd"] = "statsd"
            x = r.random()
            if x < 0.2:
                e["net"][str(r.choice((1, 1, 2, 2, 3, 4)))] = r.choice(NETS + ("damage", "short", "crash"))
            elif x < 0.3:
                k = r.choice(NETS)
                e["net"] = {str(i): k for i in range(1, 12)}
            elif x < 0.4:
                e["mid"] = {"inst": r.choice(("prod", "stage")), "filters": chain(), "at": r.randrange(1, 4)}
            elif x < 0.55:
                e["faults"]["step %d" % r.randrange(1, 5)] = r.choice(("fail 1", "fail 101", "late 1", "kill", "killafter"))
            elif x < 0.7:
                e["faults"]["op kinto-%s %d%s" % (r.choice(("*", "get*", "patch*")), r.choice((1, 2, 3)), r.choice(("", "+")))] = r.choice(("unavail", "conn", "lost", "connlost", "denied", "kill", "killafter"))
            elif x < 0.8:
                e["faults"]["step %d" % r.randrange(1, 4)] = "disk %s,%s,%d%s,%s" % (r.choice(("write", "create", "open", "read", "stat", "space", "mkdir", "readdir", "*")), r.choice(("processing/*", "*.filter", "*")), r.choice((1, 1, 2, 4)), r.choice(("", "+")), r.choice(("EIO", "ENOSPC", "FULL", "EACCES", "CRASH", "TORN")))
        return {"flavor": flavor, "seed": seed, "events": ev, "windows": []}

    # the certificates' history, with jobs where the filter generator ran
    base = fgen.make("fquiet", seed * 7 + FLAVORS.index(flavor))
    bucket = r.choice(BUCKETS)
    if r.random() < 0.3:
        for n in r.choice((["latest/README"], ["20231001-0/x", "20231001-12/completed", "other/y"], ["2023-1/z", "20231114-9/known/q"])):
            ev.append({"k": "object", "bucket": bucket or "crlite_filters_staging", "name": n})
    pending = False
    most = r.choice((1, 2, 2, 3, 4))
    for e in base["events"]:
        if e["k"] != "run":
            ev.append(e)
            pending = True
            continue
        if not pending or jobs >= most:
            continue
        pending = False
        if r.random() < 0.5:
            ev.append({"k": "crls", "n": r.randrange(1000)})
        tries = 1 + (r.choice((0, 1, 1, 2)) if flavor not in ("jquiet", "jnoop") else 0)
        for t in range(tries):
            if flavor == "jnoop" and r.random() < 0.6:
                k = r.choice(("publish", "publish", "publish", "fetch", "commit", "signoff"))
                x = job(k, bucket=r.choice((bucket, bucket, r.choice(BUCKETS))))
                if k == "signoff":
                    ev.insert(len(ev) - 1, {"k": "publish", "inst": "stage", "filters": chain()})
                    x.update(bucket="crlite-filters-stage", noop=r.choice(("1", "yes", "on", "dont_publish_if_this_is_set_to_anything")), status=["to-review", "to-review"], net={})
                else:
                    if r.random() < 0.35:
                        x["noop"] = r.choice(("1", "true", "dont_publish_if_this_is_set_to_anything"))
                    if r.random() < 0.35:
                        x["noup"] = r.choice(("1", "yes", "no"))
                    if r.random() < 0.4:
                        x["faults"]["step %d" % r.choice((1, 1, 2))] = r.choice(("fail 1", "late 3", "half", "fail 137", "kill"))
                continue
            x = job("generate", bucket=bucket)
            jobs += 1
            if r.random() < 0.4:
                x["statsd"] = r.choice(("statsd", "statsd:8125", "10.0.0.1"))
            up = 0.6 if flavor == "jnoop" else 0.08
            if r.random() < up:
                x["noup"] = r.choice(("1", "yes", "true"))
            if flavor == "jnoop" and r.random() < 0.3:
                x["faults"] = faults(r, r.choice(("jfail", "jdisk", "jstore")), 13)
            elif flavor not in ("jquiet", "jnoop") and (t < tries - 1 or r.random() < 0.5):
                x["faults"] = faults(r, flavor, 13)
    return {"flavor": flavor, "seed": seed, "events": ev, "windows": []}

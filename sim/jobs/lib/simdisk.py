"""The outside world of the jobs, kept in files: every operation on it is
numbered and may fail, be lost or be the last one, as the plan says."""
import fnmatch
import os
import signal
import urllib.parse

JOB, STORE = os.environ["SIM_JOB"], os.environ["SIM_STORE"]


class Unavailable(Exception):
    pass


def _count(what):
    """How often each rule of the plan has met such an operation."""
    try:
        with open(os.path.join(JOB, "plan")) as f:
            rules = [l.split(" ", 3)[1:] for l in f.read().split("\n") if l.startswith("op ")]
    except OSError:
        rules = []
    path = os.path.join(JOB, "met")
    try:
        with open(path) as f:
            met = [int(x) for x in f.read().split()]
    except OSError:
        met = []
    met += [0] * (len(rules) - len(met))
    kind = None
    for i, (glob, nth, k) in enumerate(rules):
        if not fnmatch.fnmatchcase(what.replace(" ", "_"), glob):
            continue
        met[i] += 1
        n = int(nth.rstrip("+"))
        if met[i] == n or nth.endswith("+") and met[i] > n:
            kind = kind or k.strip()
    with open(path, "w") as f:
        f.write(" ".join(map(str, met)))
    return kind


def log(line):
    with open(os.path.join(JOB, "log"), "a") as f:
        f.write(line + "\n")


def die():
    os.kill(0, signal.SIGKILL)
    signal.pause()


def op(what, apply, error):
    """One operation. error(kind) raises what the caller gets to see."""
    kind = _count(what)
    log("op %s%s" % (what, " => " + kind if kind else ""))
    if kind == "kill":
        die()
    if kind in ("unavail", "conn", "denied"):
        error(kind)
    r = apply()
    if kind == "killafter":
        die()
    if kind in ("lost", "connlost"):
        error("unavail" if kind == "lost" else "conn")
    return r


def path(bucket, name=None):
    p = os.path.join(STORE, urllib.parse.quote(bucket, safe=""))
    return p if name is None else os.path.join(p, urllib.parse.quote(name, safe=""))


def names(bucket):
    return sorted(urllib.parse.unquote(x) for x in os.listdir(path(bucket)))


def put(bucket, name, data):
    p = path(bucket, name)
    with open(p + "%new", "wb") as f:
        f.write(data)
    os.rename(p + "%new", p)


def get(bucket, name):
    try:
        with open(path(bucket, name), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None

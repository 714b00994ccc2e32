"""check / replay / dev commands of the publishing world."""
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import shutil
import signal
import sys
import tempfile
import time

gen = world = None  # the world: see use()

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

PROPS = {
    "C20": {"pubmix": 3, "pubcrash": 4, "pubint": 3, "pubbusy": 2, "pubclock": 4, "publong": 1},
    "C21": {"pubquiet": 2, "pubage": 3, "publong": 2, "pubclock": 2, "pubbusy": 2, "pubmix": 2},
    "C22": {"pubint": 6, "pubcrash": 4, "pubmix": 2, "pubquiet": 1},
    "C23": {"pubint": 8, "pubmix": 4, "pubcrash": 2},
    "C24": {"pubcrash": 4, "pubbusy": 3, "pubclock": 4, "pubmix": 2},
    "C25": {"pubint": 4, "pubmix": 6, "pubbusy": 1},
    "C26": {"pubcrash": 4, "pubmix": 4, "pubint": 3, "pubbusy": 2},
    "C27": {"pubcrash": 4, "pubmix": 3, "pubint": 3, "pubquiet": 2, "pubage": 1, "publong": 1},
}
FILTER = {
    "C28": {"fquiet": 6, "fbig": 1, "ffault": 1, "fcrash": 2},
    "C29": {"fquiet": 6, "fbig": 1, "fcrash": 2, "ffull": 1},
    "C30": {"ffault": 7, "fcrash": 3, "ffull": 3, "fquiet": 1},
}
CLIENT = {
    "C31": {"qquiet": 5, "qnet": 3, "qdisk": 4, "qcrash": 1, "qrace": 1},
    "C32": {"qnet": 4, "qcrash": 4, "qdisk": 3, "qrace": 3},
    "C33": {"qquiet": 4, "qrace": 3, "qnet": 3, "qdisk": 3, "qcrash": 2},
}
JOBS = {
    "C34": {"jquiet": 2, "jfail": 4, "jcrash": 2, "jstore": 4, "jdisk": 3, "jnoop": 1},
    "C35": {"jsign": 1},
    "C36": {"jnoop": 1},
}
WORLDS = {"pub": (PROPS, "pub"), "filter": (FILTER, "rust"), "client": (CLIENT, "query"), "jobs": (JOBS, "jobs")}
NAME = "pub"


def use(name):
    """Loads the world: pub (the publishing half), filter (the filter generator), client (the query tool) or jobs (the shell scripts around them all)."""
    global gen, world, NAME, PROPS
    NAME = name
    sys.path.insert(0, os.path.join(VERIF, "sim", WORLDS[name][1]))
    gen, world = importlib.import_module("gen"), importlib.import_module("world")
    PROPS = WORLDS[name][0]


QUICK, THOROUGH = 720, 20000
CAP = {"quick": 170.0, "thorough": 3000.0}
WALL = 100  # seconds of one run


def scratch_root():
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


_installed = False


def execute(plan, keep=False, base=None):
    global _installed
    if not _installed:
        world.install()
        _installed = True
    d = tempfile.mkdtemp(prefix="pubsim-", dir=base or scratch_root())
    td = tempfile.tempdir
    argv = sys.argv
    try:
        return world.World(plan, d, keep).execute()
    finally:
        tempfile.tempdir = td
        sys.argv = argv
        shutil.rmtree(d, ignore_errors=True)


def summary(w):
    s = w.sim
    return {
        "violations": s.violations,
        "digest": s.digest.hexdigest()[:16],
        "order": s.order.hexdigest()[:16],
        "steps": s.steps,
        "simtime": s.now - s.start,
        "faults": s.fault_counts,
        "stats": w.stats,
        "overlaps": sorted(s.overlaps),
    }


TEXT = {
    "pub": {
        "rule": "one evaluation is one simulated history of days to months of the publishing pipeline (generator, publisher, sign-off, reviewers, retention), drawn from VERIF_SEED and the run's number; it is non-trivial if a review was requested in it and a fault fired or two processes overlapped; distinct by the sequence of operations",
        "components": {
            "real": ["moz_kinto_publisher/main.py and settings.py", "workflow/__init__.py, 0-allocate_identifier, 1-upload_data_to_storage, 2-generate_mlbf, 3-upload_mlbf_to_storage", "containers/scripts/crlite-signoff-tool.py"],
            "stub": ["Remote Settings (Kinto, its signer and attachments), Google Cloud Storage, the CT log list, the attachment CDN and their Python client libraries", "cryptography (a small DER reader)", "rust-create-cascade and the outputs of the Go programs", "clock and sleep; the shell scripts around the programs"],
        },
        "assumptions": [
            "processes interleave at their operations on the outside world; publishers, generators and sign-offs do not overlap with another of their own kind (they are cron jobs that wait for the previous one)",
            "rust-create-cascade computes a delta as the revocations that the previous revset lacks",
        ],
    },
    "filter": {
        "rule": "one evaluation is one simulated history of runs of the filter generator (known and revoked certificates that change between runs, several outputs, damaged previous revsets, faulty disks, crashes), drawn from VERIF_SEED and the run's number; it is non-trivial if a run ended well and a fault fired or a delta followed an earlier run; distinct by the operations on the disk and the faults",
        "components": {
            "real": ["rust-create-cascade: main.rs, clubcard_helper.rs, cascade_helper.rs", "bincode, hex, serde, the Rust standard library"],
            "stub": ["clubcard, clubcard-crlite and rust_cascade (models that answer rightly what was put in and arbitrarily everything else)", "rayon (seeded order)", "clap, base64, rand, stderrlog, statsd", "the disk's failures, directory order and getrandom (a shim between the program and the C library)"],
        },
        "assumptions": [
            "the filter libraries encode what they are given, and reject what they cannot",
            "the closures of a parallel iteration interleave as wholes (they share nothing that changes)",
            "a run's input files do not change while it runs",
        ],
    },
    "client": {
        "rule": "one evaluation is one simulated history of updates of client databases and queries of certificates (while new filters are published, requests and disks fail, processes die and files are damaged), drawn from VERIF_SEED and the run's number; it is non-trivial if an update went well, certificates were answered for, and a fault fired, a publication happened during an update or filters were kept from one update to the next; distinct by the sequence of requests, connections, operations on the disk and faults",
        "components": {
            "real": ["rust-query-crlite: main.rs", "bincode, hex, serde, serde_json, log, the Rust standard library"],
            "stub": ["Remote Settings, its attachments, enrolled.json, crt.sh, hosts and their certificates, behind reqwest, rustls, getaddrinfo and connect", "clubcard and clubcard-crlite (models)", "x509-parser (certificates of the simulation's own format), pem, sha2, base64, der-parser, clap, stderrlog", "the disk's failures, directory order, clock and getrandom (a shim between the program and the C library)"],
        },
        "assumptions": [
            "HTTPS delivers what the server sent or an error: only attachments, which have digests, arrive damaged",
            "the clock stands still during one run; one process uses a database at a time",
        ],
    },
    "jobs": {
        "rule": "one evaluation is one simulated history of the production jobs (generation, publication, sign-off, fetch, commit) in varied configurations, in which programs fail, jobs die, operations on the stores and the disk fail, and collections change, drawn from VERIF_SEED and the run's number; it is non-trivial if a run was completed, a collection signed or a publisher started in it, and a fault fired, a delta followed an earlier run, or a job had to hold back; distinct by the programs started, operations made and faults",
        "components": {
            "real": ["containers/scripts/crlite-generate.sh, crlite-signoff.sh, crlite-publish.sh, crlite-fetch.sh, crlite-commit.sh, crlite-signoff-tool.py, under bash", "workflow/0-set_credentials.inc, 0-allocate_identifier, 1-upload_data_to_storage, 2-generate_mlbf, 3-upload_mlbf_to_storage, __init__.py", "rust-create-cascade and rust-query-crlite (with the stub crates of their worlds)", "bash, mkdir, chmod, tar, du, df, stat, Python"],
            "stub": ["aggregate-crls and aggregate-known (write what the simulation aggregated), ct-fetch, commit and moz_kinto_publisher/main.py (record how they are called); their own worlds run them for real", "Google Cloud Storage, Remote Settings and their client libraries, kept in files", "the clock, HTTP, the disk's failures, directory order and randomness (the shim)"],
        },
        "assumptions": [
            "every job starts in a fresh container, as the pods do: nothing but /persistent is kept; one job of a kind at a time",
            "a retried request takes no time beyond its delays",
        ],
    },
}


# ---------------------------------------------------------------- workers
def worker(jobs, start, conn, base):
    """Runs jobs[start:], sending (index, summary) for each."""
    signal.signal(signal.SIGINT, signal.SIG_DFL)

    def stuck(*a):
        conn.send((cur[0], {"stuck": True}))
        os._exit(1)

    cur = [start]
    signal.signal(signal.SIGALRM, stuck)
    for i in range(start, len(jobs)):
        cur[0] = i
        plan = jobs[i] if isinstance(jobs[i], dict) else gen.make(*jobs[i])
        signal.alarm(WALL)
        try:
            r = summary(execute(plan, base=base))
        except Exception as e:  # the simulator itself
            import traceback

            r = {"broken": "".join(traceback.format_exception(e))[-1500:]}
        signal.alarm(0)
        conn.send((i, r))
    conn.send((None, None))
    conn.close()
    os._exit(0)


def parallel(jobs, handle, deadline, base):
    """Runs jobs on all cores; handle(job, result) returns True to stop."""
    n = int(os.environ.get("CRLSIM_JOBS") or os.cpu_count() or 4)
    n = max(1, min(n, len(jobs)))
    parts = [jobs[k::n] for k in range(n)]
    ctx = multiprocessing.get_context("fork")
    live = {}

    def launch(k, start):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(parts[k], start, b, base), daemon=True)
        p.start()
        b.close()
        live[a] = (k, p)

    for k in range(n):
        launch(k, 0)
    stop = False
    last = {k: -1 for k in range(n)}
    while live and not stop:
        if time.monotonic() > deadline:
            break
        for c in multiprocessing.connection.wait(list(live), timeout=1.0):
            k, p = live[c]
            try:
                i, r = c.recv()
            except EOFError:
                i, r = last[k] + 1, {"broken": "worker died"}
                if last[k] + 1 >= len(parts[k]):
                    del live[c]
                    continue
                del live[c]
                p.join()
                last[k] = i
                launch(k, i + 1)
                stop = stop or handle(parts[k][i], r)
                continue
            if i is None:
                del live[c]
                p.join()
                continue
            last[k] = i
            if r.get("stuck"):
                del live[c]
                p.join()
                launch(k, i + 1)
            if handle(parts[k][i], r):
                stop = True
                break
    for c, (k, p) in live.items():
        p.kill()
        p.join()


# ---------------------------------------------------------------- findings
def known_findings():
    out = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) class=(\S+) plan=(\S+) (.*)", line)
                if m:
                    out[(m.group(1), m.group(2))] = m.group(4)
    except OSError:
        pass
    return out


# ---------------------------------------------------------------- minimising
def hits(r, prop, cls):
    return [v for v in r.get("violations", []) if v[0] == prop and v[1] == cls]


def minimise(plan, prop, cls, base, budget):
    """Drops events, faults and outages as long as the violation stays."""
    end = time.monotonic() + budget

    def fails(p):
        got = []
        parallel([p], lambda j, r: got.append(r) or True, time.monotonic() + WALL + 5, base)
        return bool(got and hits(got[0], prop, cls))

    def clone(p):
        return json.loads(json.dumps(p))

    best = clone(plan)
    # everything after the violation goes first
    for frac in (0.25, 0.5, 0.75):
        p = clone(best)
        p["events"] = p["events"][: int(len(p["events"]) * frac) + 1]
        if time.monotonic() < end and fails(p):
            best = p
            break
    step = max(1, len(best["events"]) // 2)
    while step >= 1 and time.monotonic() < end:
        i, changed = 0, False
        while i < len(best["events"]) and time.monotonic() < end:
            p = clone(best)
            del p["events"][i : i + step]
            if fails(p):
                best, changed = p, True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2) if step > 1 else (1 if changed else 0)
    for i in range(len(best["windows"]) - 1, -1, -1):
        if time.monotonic() < end:
            p = clone(best)
            del p["windows"][i]
            if fails(p):
                best = p
    for i, e in enumerate(best["events"]):
        for k in list(e.get("faults", {})):
            if time.monotonic() < end:
                p = clone(best)
                del p["events"][i]["faults"][k]
                if fails(p):
                    best = p
    return best


def size(p):
    return "%d events, %d operation faults, %d outages" % (len(p["events"]), sum(len(e.get("faults", {})) for e in p["events"]), len(p["windows"]))


# ---------------------------------------------------------------- commands
def check(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = {"pub": 1, "jobs": 1}.get(NAME, 5)
    runs = int(os.environ.get("CRLSIM_RUNS") or (QUICK if tier == "quick" else THOROUGH) * scale)
    flavors = [f for f, n in PROPS[prop].items() for _ in range(n)]
    num = int(prop[1:])
    jobs = []
    for i in range(runs):
        jobs.append((flavors[(i * 7 + i // len(flavors)) % len(flavors)], seed * 10000000 + num * 100000 + i))
    base = tempfile.mkdtemp(prefix="crlpub-", dir=scratch_root())
    known = known_findings()
    agg = {"faults": {}, "stats": {}, "flavours": {}, "orders": set(), "steps": 0, "simtime": 0.0, "other": {}, "broken": [], "stuck": 0, "n": 0, "nontrivial": set(), "overlaps": set(), "seen_known": {}, "digests": {}}
    samples = []
    bad = []

    def handle(job, r):
        if "broken" in r:
            agg["broken"].append((job, r["broken"]))
            return False
        agg["n"] += 1
        if r.get("stuck"):
            agg["stuck"] += 1
            if prop == "C27":
                bad.append((job, ("C27", "hang-cpu", "a process does not end and makes no operation", 0.0)))
                return True
            return False
        agg["digests"][job] = r["digest"]
        agg["flavours"][job[0]] = agg["flavours"].get(job[0], 0) + 1
        for k, v in r["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in r["stats"].items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["orders"].add(r["order"])
        agg["steps"] += r["steps"]
        agg["simtime"] += r["simtime"]
        agg["overlaps"].update(r["overlaps"])
        if world.nontrivial(r):
            agg["nontrivial"].add(r["order"])
        if len(samples) < 4:
            samples.append({"flavour": job[0], "seed": job[1], "digest": r["digest"], "simulated_seconds": int(r["simtime"]) if NAME in ("pub", "jobs") else 0, "simulator_events": r["steps"], "faults_fired": r["faults"], "probes": {k: v for k, v in r["stats"].items() if v}})
        for v in r["violations"]:
            if v[0] != prop:
                k = "%s %s" % (v[0], v[1])
                agg["other"][k] = agg["other"].get(k, 0) + 1
            elif (v[0], v[1]) in known:
                agg["seen_known"][v[1]] = known[(v[0], v[1])]
            else:
                bad.append((job, v))
        return bool(bad)

    rc = 0
    mism = pairs = 0
    try:
        parallel(jobs, handle, t0 + CAP[tier], base)
        if not bad:
            # a sample of the runs once more: the same seed is the same run
            again = [j for i, j in enumerate(jobs) if i % 97 == 0 and j in agg["digests"]][: (8 if NAME == "pub" else 36) if tier == "quick" else 200]
            res = []
            parallel(again, lambda j, r: res.append((j, r)) and False, time.monotonic() + 60, base)
            for j, r in res:
                if "digest" not in r:
                    continue
                pairs += 1
                if r.get("digest") != agg["digests"][j]:
                    mism += 1
        for c, what in agg["seen_known"].items():
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, c))
        if bad:
            job, v = bad[0]
            plan = gen.make(*job)
            print("%s %s in flavour %s seed %d: %s" % (v[0], v[1], job[0], job[1], v[2]))
            small = plan
            if v[1] != "hang-cpu":
                small = minimise(plan, prop, v[1], base, 60 if tier == "quick" else 300)
            path = write_replay(prop, v, small, base)
            print("minimised from %s to %s" % (size(plan), size(small)))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
    wall = time.monotonic() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": TEXT[NAME]["rule"],
            "samples": samples,
            "runs_by_flavour": agg["flavours"],
            "faults_fired": agg["faults"],
            "probes": agg["stats"],
            "probes_never_hit": sorted(k for k, v in agg["stats"].items() if not v),
            "distinct_interleavings": len(agg["orders"]),
            "interleavings_measure": "hash over the sequence of (process, operation) of a run",
            "operations_overlapped": sorted(agg["overlaps"]),
            "simulator_events": agg["steps"],
            "simulated_hours": agg["simtime"] / 3600 if NAME in ("pub", "jobs") else 0,
            "runs_per_hour": agg["n"] / wall * 3600,
            "seeds_per_hour": agg["n"] / wall * 3600,
            "determinism_pairs": pairs,
            "determinism_mismatches": mism,
            "runs_without_verdict": len(agg["broken"]) + agg["stuck"],
            "known_findings_seen": sorted(agg["seen_known"]),
            "violations_of_other_properties_seen": agg["other"],
            "components": TEXT[NAME]["components"],
        },
        "assumptions": TEXT[NAME]["assumptions"],
        "wall_s": wall,
        "violations": 1 if rc else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        if agg["broken"]:
            print("%d runs broke: %s" % (len(agg["broken"]), agg["broken"][0]), file=sys.stderr)
        if agg["n"] == 0 or len(agg["broken"]) > agg["n"]:
            print("ERROR: no verdict", file=sys.stderr)
            return 2
        print("%s held in %d simulated histories (%s), %.0f s" % (prop, agg["n"], "%.0f days" % (agg["simtime"] / 86400) if NAME == "pub" else "%d runs" % agg["stats"]["runs"], wall))
    return rc


def write_replay(prop, v, plan, base):
    got = []

    def handle(j, r):
        got.append(r)
        return True

    parallel([plan], handle, time.monotonic() + WALL + 5, base)
    r = got[0] if got else {}
    h = hits(r, prop, v[1])
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%d.json" % (prop, v[1], plan["flavor"], plan["seed"]))
    trace = []
    pid = os.fork() if r.get("digest") else 0
    tf = os.path.join(base, "trace")
    if r.get("digest"):
        if pid == 0:
            try:
                w = execute(plan, True, base)
                with open(tf, "w") as f:
                    f.write("\n".join(w.sim.trace))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        try:
            with open(tf) as f:
                trace = f.read().split("\n")
        except OSError:
            pass
        for i, line in enumerate(trace):
            if "VIOLATION %s %s" % (prop, v[1]) in line:
                trace = trace[max(0, i - 400) : i + 1]
                break
    with open(path, "w") as f:
        json.dump({"world": NAME, "property": prop, "class": v[1], "detail": (h or [v])[0][2], "digest": r.get("digest"), "plan": plan, "trace": trace}, f, indent=1)
    return path


def replay(path, tracefile=None):
    with open(path) as f:
        rf = json.load(f)
    w = execute(rf["plan"], bool(tracefile))
    r = summary(w)
    if tracefile:
        with open(tracefile, "w") as f:
            f.write("\n".join(w.sim.trace) + "\n")
    print("digest %s (recorded %s), %d events, %.0f simulated seconds" % (r["digest"], rf["digest"], r["steps"], r["simtime"]))
    h = hits(r, rf["property"], rf["class"])
    if not h:
        print("the violation does not occur")
        return 0
    print("%s %s at %.3f s: %s" % (h[0][0], h[0][1], h[0][3], h[0][2]))
    print("VIOLATION property=%s replay=%s" % (rf["property"], path))
    return 1


def main():
    argv = list(sys.argv)
    cmd = argv[1]
    if cmd == "replay":
        with open(argv[2]) as f:
            use(json.load(f).get("world", "pub"))
    elif cmd == "check":
        use(next(n for n, w in WORLDS.items() if argv[2] in w[0]))
    else:
        use(next(n for n, w in WORLDS.items() if any(argv[2].split(",")[0] in f for f in w[0].values())))
    if cmd == "check":
        tier = argv[3] if len(argv) > 3 else "quick"
        sys.exit(check(argv[2], tier))
    elif cmd == "replay":
        sys.exit(replay(argv[2], argv[3] if len(argv) > 3 else None))
    elif cmd == "one":
        w = execute(gen.make(argv[2], int(argv[3])), True)
        print("\n".join(w.sim.trace))
        print(w.sim.digest.hexdigest(), w.sim.steps, w.stats, w.sim.fault_counts)
        for v in w.sim.violations:
            print("VIOLATION", v)
    elif cmd == "dev":
        classes, tot, t0 = {}, {}, time.time()
        mx = [0, 0]

        def handle(job, r):
            if "violations" not in r:
                print(job, r)
                return False
            mx[0] = max(mx[0], r["steps"])
            for k, v in list(r["stats"].items()) + list(r["faults"].items()):
                tot[k] = tot.get(k, 0) + v
            for v in r["violations"]:
                l = classes.setdefault((v[0], v[1]), [])
                l.append(job[1])
                if len(l) <= 2:
                    print(job[1], v)
            return False

        for f in argv[2].split(","):
            parallel([(f, s) for s in range(int(argv[3]), int(argv[4]))], handle, time.monotonic() + 3600, None)
        print({k: (len(v), sorted(v)[:6]) for k, v in classes.items()}, tot, "max steps", mx[0], "%.1fs" % (time.time() - t0))

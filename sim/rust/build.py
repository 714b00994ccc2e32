#!/usr/bin/env python3
"""Build the real rust-create-cascade and rust-query-crlite of the repository
against the stub crates of the simulation, and the fault-injecting shim.

The manifest is the repository's own, with the dependencies that the sandbox
does not have (and those that must be under the simulator's control) replaced
by the stubs, and the real sources as its only binary.

usage: build.py [rust-create-cascade | rust-query-crlite]"""

import hashlib, os, shutil, subprocess, sys, tomllib
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parents[1]
REPO = Path(os.environ.get("CRLSIM_REPO", "/repo"))
# crate: where it is built, and where its stubs are (first match)
CRATES = {
    "rust-create-cascade": (Path(os.environ.get("CRLSIM_RUST", VERIF / ".build" / "rust")), [HERE / "stubs"], HERE / "Cargo.lock"),
    "rust-query-crlite": (Path(os.environ.get("CRLSIM_QUERY", VERIF / ".build" / "query")), [VERIF / "sim" / "query" / "stubs", HERE / "stubs"], VERIF / "sim" / "query" / "Cargo.lock"),
}


def toml(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    return "{ " + ", ".join(f"{k} = {toml(x)}" for k, x in v.items()) + " }"


def build(crate):
    OUT, where, lock = CRATES[crate]
    src = REPO / crate
    m = tomllib.loads((src / "Cargo.toml").read_text())
    stubs = {}
    for d in where:
        for p in d.iterdir():
            stubs.setdefault(p.name, p)
    deps = {}
    for name, spec in m.get("dependencies", {}).items():
        spec = {"version": spec} if isinstance(spec, str) else dict(spec)
        if name in stubs:
            spec.pop("version", None)
            spec["path"] = str(stubs[name])
        deps[name] = spec
    pkg = {k: v for k, v in m["package"].items() if k in ("name", "version", "edition")}
    out = ["[package]"] + [f"{k} = {toml(v)}" for k, v in pkg.items()]
    out += ["", "[[bin]]", f'name = "{crate}"', f"path = {toml(str(src / 'src' / 'main.rs'))}"]
    out += ["", "[dependencies]"] + [f"{k} = {toml(v)}" for k, v in deps.items()]
    out += ["", "[profile.dev]", "debug = false", "opt-level = 1", "incremental = false", "", "[workspace]", ""]
    OUT.mkdir(parents=True, exist_ok=True)
    man = OUT / "Cargo.toml"
    text = "\n".join(out)
    if not man.exists() or man.read_text() != text:
        man.write_text(text)
    if not (OUT / "Cargo.lock").exists() and lock.exists():
        shutil.copy(lock, OUT / "Cargo.lock")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LD_PRELOAD", "RUSTFLAGS", "CARGO_TARGET"))}
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", str(man), "--target-dir", str(OUT / "target")], env=env)
    if p.returncode:
        return 2
    for out, csrc, flags in (("shim.so", HERE / "shim.c", ["-shared", "-fPIC", "-ldl", "-lpthread"]), ("step", VERIF / "sim" / "jobs" / "step.c", [])):
        so = OUT / out
        if not so.exists() or so.stat().st_mtime < csrc.stat().st_mtime:
            tmp = OUT / f"{out}.{os.getpid()}"
            if subprocess.run(["gcc", "-O1", "-Wall", "-o", str(tmp), str(csrc)] + flags).returncode:
                return 2
            os.replace(tmp, so)
    return 0


def main():
    for crate in sys.argv[1:] or CRATES:
        rc = build(crate)
        if rc:
            return rc
    return 0


if __name__ == "__main__":
    sys.exit(main())

"""Shared pieces of the checks: paths, builds, evidence, verdicts."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
CPUS = max(2, min(8, os.cpu_count() or 2))


class HarnessError(Exception):
    pass


def die(msg):
    """An error of the check itself: neither 'held' nor 'violated'."""
    print("HARNESS-ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def env_seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1")) & 0xFFFFFFFF
    except ValueError:
        return 1


_lock = None


def lock_build():
    global _lock
    os.makedirs(BUILD, exist_ok=True)
    _lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(_lock, fcntl.LOCK_EX)


def repo_hash():
    h = hashlib.sha256()
    for base in ("codecs", "codecs_derive", "asn-compiler"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def cargo(args, cwd, timeout=850, env=None, quiet=True):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    return subprocess.run(["cargo"] + args + ["--offline"], cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def fresh_target(ws, target=TARGET):
    """Cargo compares times, not contents: force a rebuild of hampi whenever its text changed."""
    h = repo_hash()
    stamp = os.path.join(BUILD, "stamp-" + os.path.basename(ws))
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != h:
        for p in ("asn1-codecs", "asn1_codecs_derive", "asn1-compiler"):
            for prof in ([], ["--release"]):
                cargo(["clean", "-p", p] + prof, ws, env={"CARGO_TARGET_DIR": target})
    with open(stamp, "w") as f:
        f.write(h)


def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        if open(p).read() == s:
            return
    except OSError:
        pass
    with open(p, "w") as f:
        f.write(s)


def known_findings(prop):
    """id -> description of the findings recorded (not repaired) for a property."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2].strip()
                ident, _, what = rest.partition(" ")
                out[ident[3:]] = what
    return out


def write_replay(prop, name, obj):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s.json" % (prop, name))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    return p


def write_evidence(prop, tier, seed, coverage, assumptions, t0, violations, level="exploration"):
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    p = os.path.join(EVIDENCE, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def finish(prop, found):
    """found: list of (replay path, one-line description)."""
    for path, what in found:
        print("%s: %s" % (prop, what))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not found:
        print("%s: held on everything explored" % prop)
    sys.stdout.flush()
    sys.exit(1 if found else 0)

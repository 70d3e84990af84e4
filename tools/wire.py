"""The wire world: simulated nodes built from hampi's codec and derive macro (C08-C17)."""
import json, os, signal, struct, subprocess, time
from common import *

SHARDS = 8
# runs per shard: (quick, thorough)
RUNS = {
    "C08": (30000, 1200000), "C09": (100000, 2500000), "C10": (30000, 900000), "C11": (8000, 500000),
    "C12": (30000, 2500000), "C13": (120000, 9000000), "C14": (120000, 3500000), "C15": (10000, 700000),
    "C16": (50000, 1500000), "C17": (16000, 1200000),
}
RULES = {
    "C08": "one run: a seeded history of writers appending random valid messages of random types to one bit buffer while readers decode from it, from snapshots and after crashes of either side; every decode must give the message written and consume exactly its bits. Non-trivial: at least one message was written and read back. Distinct: hash of every message's type, bits and fault.",
    "C09": "one run: a node encodes random in-constraint values of random types at random bit positions and an independent X.691 implementation must predict every bit and read the values back. Non-trivial: at least one value was encoded. Distinct: hash of types, positions and bits.",
    "C10": "one run: an independent peer sends datagrams of random values over a simulated network that delays, duplicates, reorders and drops them and crashes nodes; the node under test must decode exactly the value sent or refuse what it cannot represent. Non-trivial: at least one message was delivered and decoded. Distinct: hash of datagrams and delivery order.",
    "C11": "one run: a client of a node hands it messages in which constraints are violated at random nesting depths among valid ones; each must be refused (or sent as a proper extension value), and valid ones before and after must still go out intact. Non-trivial: at least one violation was injected. Distinct: hash of types, values and sites.",
    "C12": "one run: a peer's datagrams are corrupted on the simulated network (flips aimed at lengths and bitmaps, splices, inserts, deletes, garbage); whatever decodes must satisfy the constraints and equal what the reference decoder reads. Non-trivial: at least one corrupted message reached a decoder. Distinct: hash of the bytes delivered.",
    "C13": "one run: hostile buffers (corrupted valid messages or arbitrary octets) are decoded as random types at random positions, several times over, under an allocation meter, a processor-time watchdog and a panic trap. Non-trivial: at least one hostile buffer was decoded. Distinct: hash of bytes, types and positions.",
    "C14": "one run: connections break and datagrams are cut at random octets or bits; what is decoded must equal what was sent or be reported. Non-trivial: at least one message was cut. Distinct: hash of messages and cut points.",
    "C15": "one run: a seeded history of decodes, failed decodes, rewinds, appended octets and encodes over shared buffers and interleaved nodes; each result is compared with a fresh decode at the same bit position. Non-trivial: at least one decode followed another operation. Distinct: hash of the history.",
    "C16": "one run: a peer sends open types whose frames are exact, longer or shorter than the carried value, nested and corrupted; the receiver must resume right after the declared length and never read beyond it. Non-trivial: at least one open type was carried. Distinct: hash of frames.",
    "C17": "one run: a peer built from a later version of the types (added components, alternatives, items, sizes out of the root) sends streams to a node of the older version. Non-trivial: at least one evolved value was delivered. Distinct: hash of types, values and order.",
}
REAL = ["asn1-codecs (codecs/): all of aper encode, decode and buffer handling", "asn1_codecs_derive: derived encoders and decoders of every generated type"]
STUB = ["the network, the clock and the peers' sockets (in-memory discrete-event simulation)",
        "the independent peer (reference ALIGNED PER implementation in simcore/src/refper.rs)",
        "the logger installed in the log facade"]

CARGO = """[package]
name = "wirezoo"
version = "0.1.0"
edition = "2021"

[dependencies]
wirelib = {{ path = "{v}/wirelib" }}
asn1-codecs = {{ path = "/repo/codecs" }}
asn1_codecs_derive = {{ path = "/repo/codecs_derive" }}
bitvec = "1.0"
log = "0.4"

[workspace]

[profile.dev]
opt-level = 0
debug = 0
overflow-checks = true
debug-assertions = true
incremental = false

[profile.dev.package."*"]
opt-level = 2
overflow-checks = true
debug-assertions = true
"""
MAIN = """mod glue;
mod types;
#[global_allocator]
static A: wirelib::alloc::Counting = wirelib::alloc::Counting;
fn main() {{
    let env = wirelib::simcore::zoo::build({seed}, {k});
    wirelib::worker::main("zoo{k}", wirelib::worker::align(env, glue::entries()), true)
}}
"""


def simgen():
    r = cargo(["build", "--manifest-path", VERIF + "/simgen/Cargo.toml"], VERIF)
    if r.returncode:
        raise HarnessError("simgen does not build:\n" + r.stdout[-3000:])
    return TARGET + "/debug/simgen"


def build(seed):
    """Builds the workers of one zoo; returns their paths."""
    ws = "%s/zoo%d" % (BUILD, seed)
    gen = simgen()
    for k in range(SHARDS):
        d = "%s/src/bin/z%d_%d" % (ws, seed, k)
        os.makedirs(d, exist_ok=True)
        r = subprocess.run([gen, "zoo", str(seed), str(k), d + "/types.rs", d + "/glue.rs"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise HarnessError("simgen zoo failed: " + r.stdout[-1000:])
        write_if_changed(d + "/main.rs", MAIN.format(seed=seed, k=k))
    write_if_changed(ws + "/Cargo.toml", CARGO.format(v=VERIF))
    lock = open(VERIF + "/tools/wirezoo.lock").read()
    if not os.path.exists(ws + "/Cargo.lock"):
        open(ws + "/Cargo.lock", "w").write(lock)
    fresh_target(ws)
    r = cargo(["build"], ws)
    if r.returncode:
        raise HarnessError("the wire workers do not build against /repo:\n" + r.stdout[-6000:])
    return ["%s/debug/z%d_%d" % (TARGET, seed, k) for k in range(SHARDS)]


def setup(seed):
    lock_build()
    build(seed)


def died(rc):
    return "hang" if rc == 97 else "death by signal %d" % -rc if rc < 0 else "exit status %d" % rc


def child(worker, prop, args, limit=60):
    try:
        r = subprocess.run([worker, "--prop", prop] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 97, ""


def minimise_death(worker, prop, tape, rc0, extra, seconds=40):
    """Delta-debugging of a tape whose run kills its process; every trial is a fresh process."""
    end = time.time() + seconds
    tf = "%s/min-%d.tape" % (BUILD, os.getpid())

    def fails(t):
        with open(tf, "w") as f:
            f.write("\n".join(map(str, t)))
        rc, _ = child(worker, prop, ["--tape", tf, "--cpu-ms", "2500"] + extra, 20)
        return rc == rc0

    best = list(tape)
    chunk = max(1, len(best) // 2)
    while chunk >= 1 and time.time() < end:
        i = 0
        while i < len(best) and time.time() < end:
            c = best[:i] + best[i + chunk:]
            if fails(c):
                best = c
            else:
                i += chunk
        chunk //= 2
    for i in range(len(best)):
        if time.time() > end:
            break
        if best[i] > 0:
            c = best[:i] + [0] + best[i + 1:]
            if fails(c):
                best = c
    if os.path.exists(tf):
        os.unlink(tf)
    return best


def handle_death(worker, prop, shard, seed_zoo, base, cur, rc, extra):
    """A worker died: find the run, reproduce and minimise it. Returns a record."""
    r = subprocess.run([worker, "--seed-of", str(base), "--prop", prop, "--shard-no", str(shard), "--start", str(cur)] + extra,
                       stdout=subprocess.PIPE, text=True)
    rs = int(r.stdout.strip())
    sink = "%s/sink-%s-%d" % (BUILD, prop, shard)
    rc2, _ = child(worker, prop, ["--one", str(rs), "--sink", sink] + extra)
    if rc2 in (0, 1):
        raise HarnessError("worker %s died (%s) at run %d but the run alone does not" % (worker, died(rc), cur))
    tape = [int(x) for x in open(sink).read().split()]
    os.unlink(sink)
    small = minimise_death(worker, prop, tape, rc2, extra)
    if rc2 == 97:
        # shortened under a shorter limit than the one that counts
        with open(sink, "w") as f:
            f.write("\n".join(map(str, small)))
        if child(worker, prop, ["--tape", sink] + extra)[0] != rc2:
            small = tape
        os.unlink(sink)
    return {"property": prop, "shard": "zoo%d" % shard, "seed": rs, "kind": died(rc2),
            "message": "the process under simulation ended with: " + died(rc2), "tape": small, "trace": []}


def run_all(prop, workers, base, runs, max_secs, tier, extra, names=None):
    """Runs every worker to its quota. Returns (results, records, wall, digests)."""
    procs = []
    t0 = time.time()
    for k, w in enumerate(workers):
        out = "%s/out-%s-%d" % (BUILD, prop, k)
        for s in (".json", ".dig", ".cur", ".rec"):
            if os.path.exists(out + s):
                os.unlink(out + s)
        a = [w, "--prop", prop, "--seed", str(base), "--runs", str(runs), "--shard-no", str(k), "--max-secs",
             str(max_secs), "--out", out, "--stop-on-violation"] + extra
        procs.append((k, w, out, subprocess.Popen(a, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    results, records, digests = [], [], set()
    dead = []
    for k, w, out, p in procs:
        try:
            rc = p.wait(timeout=max(5, max_secs + 90 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 97
        if rc == 0:
            j = json.load(open(out + ".json"))
            results.append(j)
            for r in j["records"]:
                r["worker"] = k
            records += j["records"]
            b = open(out + ".dig", "rb").read()
            digests.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        else:
            dead.append((k, w, out, rc))
    wall = time.time() - t0
    for k, w, out, rc in dead[:2]:
        if os.path.exists(out + ".rec"):
            r = json.load(open(out + ".rec"))
            r["worker"] = k
            records.append(r)
            continue
        if rc == 101 or not os.path.exists(out + ".cur"):
            raise HarnessError("worker %s failed with %s" % (w, died(rc)))
        cur = struct.unpack("<Q", open(out + ".cur", "rb").read(8))[0]
        r = handle_death(w, prop, k, 0, base, cur, rc, extra)
        r["worker"] = k
        records.append(r)
    for k, w, out, p in procs:
        for s in (".json", ".dig", ".cur", ".rec"):
            if os.path.exists(out + s):
                os.unlink(out + s)
    return results, records, wall, digests


def summarise(results, wall, digests, rule, base):
    stats = {}
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max.") else stats.get(k, 0) + v
    done = sum(r["done"] for r in results)
    return {
        "evaluations": done,
        "distinct_nontrivial": len(digests),
        "rule": rule,
        "samples": [s for r in results for s in r["samples"]][:6],
        "simulated_runs": done,
        "seeds_per_hour": int(done / max(wall, 0.001) * 3600),
        "runs_per_second": round(done / max(wall, 0.001), 1),
        "simulated_seconds": round(sum(r["sim_us"] for r in results) / 1e6, 3),
        "first_seed": base,
        "faults_injected": {k: v for k, v in sorted(stats.items()) if k.startswith("fault_") or k == "reordered"},
        "probes": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault_") and not k.startswith("max.") and k != "reordered"},
        "slowest_run_cpu_ms": stats.get("max.cpu_ms", 0),
        "search_wall_s": round(wall, 2),
    }


def report(prop, records, workers, extra_of, known):
    found = []
    for n, r in enumerate(records):
        if r["kind"] == "harness":
            raise HarnessError("%s (seed %s): %s" % (r["shard"], r["seed"], r["message"]))
    seen = set()
    for r in records:
        if r["kind"] in seen and len(seen) > 0:
            continue
        seen.add(r["kind"])
        name = "%s-%s" % (r["shard"], r["seed"])
        r = dict(r)
        r.update(extra_of(r))
        found.append((write_replay(prop, name, r), "%s: %s" % (r["kind"], r["message"].split("\n")[0][:400])))
    return found


def check(prop, tier, seed):
    t0 = time.time()
    lock_build()
    quick = tier == "quick"
    base = seed
    workers = build(seed)
    extra = [] if quick else ["--thorough"]
    runs = RUNS[prop][0 if quick else 1]
    results, records, wall, digests = run_all(prop, workers, base, runs, 150 if quick else 1500, tier, extra)
    cov = summarise(results, wall, digests, RULES[prop], base)
    cov["zoo_seed"] = seed
    cov["state_measure"] = "64-bit hash of each run's decisions and octets; distinct_nontrivial counts distinct hashes of non-trivial runs"
    cov["components_real"] = REAL
    cov["components_stub"] = STUB
    found = report(prop, records, workers, lambda r: {"world": "wire", "zoo_seed": seed, "thorough": not quick}, {})
    write_evidence(prop, tier, seed, cov,
                   ["the reference ALIGNED PER implementation (simcore/src/refper.rs) follows X.691",
                    "sampling: clean runs are evidence, not proof",
                    "types are those of a seeded zoo of %d shards" % SHARDS], t0, len(found))
    finish(prop, found)


def replay(r):
    lock_build()
    workers = build(r["zoo_seed"])
    w = workers[r["worker"]]
    return replay_with(r, w)


def replay_with(r, w, more=()):
    tf = "%s/replay.tape" % BUILD
    with open(tf, "w") as f:
        f.write("\n".join(map(str, r["tape"])))
    rc, out = child(w, r["property"], list(more) + ["--tape", tf] + (["--thorough"] if r.get("thorough") else []))
    os.unlink(tf)
    if rc == 0:
        print("the replayed run passes")
        return 0
    if rc == 1:
        j = json.loads(out)
        for l in j["trace"]:
            print("  " + l)
        print("%s: %s" % (j["kind"], j["message"]))
    else:
        print("the process ended with: " + died(rc))
    print("VIOLATION property=%s replay=%s" % (r["property"], "(this file)"))
    return 1

"""C18: from the specification to the wire. Phase 1 compares what the simulated compiler makes of many random
specifications with the model they were rendered from; phase 2 builds nodes from the bindings of some of them and lets
them talk to an independent peer."""
import json, os, re, subprocess, time
from common import *
import comp, wire

# specifications that become nodes: random ones and parts of each of the repository's own (quick, thorough)
NODES = (7, 20)
PARTS = (1, 4)
RUNS = (1500, 12000)
RULE = ("one evaluation is one simulated compiler run over a random specification or a part of one of the repository's own, whose bindings "
        "are compared with the model, or one simulated history in which nodes built from such bindings exchange messages with an independent "
        "peer. Non-trivial: bindings were compared or at least one message was exchanged. Distinct: hash of the specification and schedule, "
        "or of the messages.")
MAIN = """mod glue;
mod types;
#[global_allocator]
static A: wirelib::alloc::Counting = wirelib::alloc::Counting;
fn main() {{
    let env = {env};
    wirelib::worker::main("{name}", wirelib::worker::align(env, glue::entries()), false)
}}
"""


class Refused(Exception):
    pass


def is_part(name):
    """(specification, seed) of a part."""
    m = re.match(r"p(\d+)_(\w+)$", name)
    return (m.group(2), int(m.group(1))) if m else None


def sources(name, d):
    """Specification, bindings and glue of one node in directory d. Raises Refused if there are no bindings."""
    import shutil
    gen = wire.simgen()
    sp = "%s/spec" % d
    os.makedirs(sp, exist_ok=True)
    part = is_part(name)
    if part:
        shutil.rmtree(sp)
        os.makedirs(sp)
        cmd = [gen, "part", "%s/specs/%s" % (REPO, part[0]), str(part[1]), sp]
    else:
        cmd = [gen, "sample", name[1:], sp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessError("simgen failed: " + r.stdout[-1000:])
    if part:
        texts = "".join('include_str!("spec/%s"), ' % f for f in sorted(os.listdir(sp)))
        env = "wirelib::simcore::asn1::read(&[%s]).unwrap().env" % texts
    else:
        env = "wirelib::simcore::spec::sample(%s).env" % name[1:]
    write_if_changed(d + "/main.rs", MAIN.format(env=env, name=name))
    r = subprocess.run([comp.SIM] + comp.common_args()[:4] + ["--emit", d + "/types.new", "--from", d], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=120)
    if r.returncode:
        raise Refused("a sound specification is refused: " + " ".join(r.stdout.split())[-400:])
    with open(d + "/types.new") as f:
        write_if_changed(d + "/types.rs", f.read())
    os.unlink(d + "/types.new")
    r = subprocess.run([gen, "glue", d + "/types.rs", d + "/glue.rs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Refused(r.stdout.strip()[-400:])


def build(names, tag):
    """Builds nodes from the bindings of the given specifications. Returns ({name: worker}, {name: what is wrong})."""
    import shutil
    ws = "%s/spec-%s" % (BUILD, tag)
    bad = {}
    for s in names:
        d = "%s/src/bin/%s" % (ws, s)
        os.makedirs(d, exist_ok=True)
        try:
            sources(s, d)
        except Refused as e:
            bad[s] = ("refused", str(e))
            write_if_changed(d + "/main.rs", "fn main() {}\n")
    write_if_changed(ws + "/Cargo.toml", wire.CARGO.format(v=VERIF).replace('"wirezoo"', '"speczoo"'))
    if not os.path.exists(ws + "/Cargo.lock"):
        lock = open(VERIF + "/tools/wirezoo.lock").read().replace('"wirezoo"', '"speczoo"')
        open(ws + "/Cargo.lock", "w").write(lock)
    for b in os.listdir(ws + "/src/bin"):
        if b not in names:
            shutil.rmtree(ws + "/src/bin/" + b)
    fresh_target(ws)
    r = cargo(["build", "--keep-going"], ws)
    if r.returncode:
        for s in names:
            if s in bad:
                continue
            one = cargo(["build", "--bin", s], ws)
            if one.returncode:
                if "could not compile `speczoo`" not in one.stdout:
                    raise HarnessError("the nodes do not build against /repo:\n" + one.stdout[-4000:])
                if "src/bin/%s/types.rs" % s not in one.stdout and "glue.rs" not in one.stdout:
                    raise HarnessError("the nodes do not build against /repo:\n" + one.stdout[-4000:])
                err = [l for l in one.stdout.split("\n") if l.startswith("error")]
                bad[s] = ("does not compile", "the bindings do not compile: " + "; ".join(err[:3]))
    return {s: "%s/debug/%s" % (TARGET, s) for s in names if s not in bad}, bad


def setup(seed):
    lock_build()
    comp.build()
    build(names_of(seed, "quick"), "%d-quick" % seed)


def names_of(seed, tier):
    k = 0 if tier == "quick" else 1
    v = ["s%d" % (seed * 1000 + i) for i in range(NODES[k])]
    for d in sorted(os.listdir(REPO + "/specs")):
        if os.path.isdir("%s/specs/%s" % (REPO, d)) and re.match(r"\w+$", d):
            v += ["p%d_%s" % (seed * 1000 + i, d) for i in range(PARTS[k])]
    return v


def check(prop, tier, seed):
    t0 = time.time()
    lock_build()
    comp.build()
    quick = tier == "quick"
    # phase 1: structure, many specifications
    res1, rec1, wall1, dig1 = comp.search(prop, tier, seed)
    found = wire.report(prop, rec1, None, lambda r: {"world": "compiler", "thorough": not quick}, {})
    # phase 2: nodes
    tag = "%d-%s" % (seed, "quick" if quick else "thorough")
    workers, bad = build(names_of(seed, tier), tag)
    for s, (kind, what) in sorted(bad.items()):
        r = {"property": prop, "world": "bindings", "spec": s, "kind": kind, "message": what}
        found.append((write_replay(prop, "spec-%s" % s, r), "%s: specification %s: %s" % (kind, s, what)))
        break
    order = sorted(workers)
    res2, rec2, wall2, dig2, t2 = [], [], 0.0, set(), []
    step = CPUS
    for i in range(0, len(order), step):
        part = order[i:i + step]
        a, b, w, d = wire.run_all(prop, [workers[s] for s in part], seed, RUNS[0 if quick else 1], 100 if quick else 400, tier,
                                  [] if quick else ["--thorough"])
        for r in b:
            r["spec"] = part[r["worker"]]
        res2 += a
        rec2 += b
        wall2 += w
        dig2 |= d
    found += wire.report(prop, rec2, None, lambda r: {"world": "nodes", "thorough": not quick}, {})
    cov1 = comp.tidy(wire.summarise(res1, wall1, dig1, RULE, seed))
    cov = comp.tidy(wire.summarise(res1 + res2, wall1 + wall2, dig1 | dig2, RULE, seed))
    cov2 = wire.summarise(res2, wall2, dig2, RULE, seed)
    cov["faults_injected"] = {**cov["faults_injected"], **cov2["faults_injected"]}
    cov["samples"] = (res1[0]["samples"][:2] if res1 else []) + (res2[0]["samples"][:3] if res2 else [])
    cov["specifications_compared_with_the_model"] = cov1["evaluations"]
    cov["specifications_turned_into_nodes"] = len(workers)
    cov["of_these_parts_of_the_repositorys_own"] = sum(1 for s in workers if is_part(s))
    cov["histories_of_those_nodes"] = cov2["evaluations"]
    cov["state_measure"] = "64-bit hash of each run's decisions and octets; distinct_nontrivial counts distinct hashes of non-trivial runs"
    cov["components_real"] = ["asn-compiler: the hampi-asn1c binary as built for release"] + wire.REAL
    cov["components_stub"] = comp.STUB[:2] + wire.STUB
    for ident in comp.print_known(prop):
        what = "probe %s fails and is not a known finding" % ident
        found.append((write_replay(prop, "probe-" + ident, {"property": prop, "world": "probe", "probe": ident, "message": what}), what))
    write_evidence(prop, tier, seed, cov,
                   ["the model of a random specification (simcore/src/spec.rs) says what its text means",
                    "an independent reader (simcore/src/asn1.rs) says what the repository's own specifications mean",
                    "the reference ALIGNED PER implementation (simcore/src/refper.rs) follows X.691",
                    "sampling: clean runs are evidence, not proof"], t0, len(found))
    finish(prop, found)


def replay(r):
    if r["world"] in ("compiler", "probe"):
        return comp.replay(r)
    lock_build()
    comp.build()
    s = r["spec"]
    workers, bad = build([s], "replay")
    if s in bad:
        print("specification %s: %s: %s" % ((s,) + bad[s]))
        print("VIOLATION property=%s replay=(this file)" % r["property"])
        return 1
    if r["world"] == "bindings":
        print("the bindings of specification %s compile" % s)
        return 0
    return wire.replay_with(r, workers[s])

"""The compiler world: the compiler's own binary on a simulated operating system (C01-C06), its tokenizer under
simulated readers (C07)."""
import json, os, subprocess, time
from common import *
import wire

# a directory of its own: what another workspace cleans must not take the compiler away
OWN = BUILD + "/compiler"
BIN = OWN + "/release/hampi-asn1c"
SIM = TARGET + "/debug/asn1csim"
SHIM = BUILD + "/shim.so"
# runs per shard: (quick, thorough)
RUNS = {
    "C01": (1100, 60000), "C02": (900, 60000), "C03": (900, 60000), "C04": (1500, 90000), "C05": (3000, 200000),
    "C06": (1100, 90000), "C07": (4000, 400000), "C18": (1500, 90000),
    "C20": (1200, 60000),
}
RULES = {
    "C01": "one run: a random or one of the repository's specifications is compiled several times on simulated machines that differ in hash seeds, thread and process schedule, pipe capacity and in how reads, writes and pipe transfers are split and interrupted; status and bindings must be the same octet for octet. Non-trivial: at least two runs were compared. Distinct: hash of schedules, sizes and ends.",
    "C02": "one run: the modules of a specification are spread over files, files are ordered and definitions of each module permuted at random; every layout must give the same set of items or none. Non-trivial: at least two layouts were compared. Distinct: hash of schedules, sizes and ends.",
    "C03": "one run: a specification is compiled while the simulator makes chosen calls fail (open, read, write, pipe, spawn, wait, thread creation, allocation) or the formatter die, lie or stop at a chosen octet; exit status 0 is only allowed with the complete bindings on standard output. Non-trivial: at least one fault was injected. Distinct: hash of schedules, sizes and ends.",
    "C04": "one run: a specification, often corrupted, cut, repeated or nested deeply in storage, is compiled under a random schedule with pipes of random capacity; the run must end within the processor time, address space and number of scheduling points without progress that the simulator allows. Non-trivial: at least one run was judged. Distinct: hash of schedules, sizes and ends.",
    "C05": "one run: a sound specification, whose bindings must hold every type exactly once, or one broken in a chosen way (lost, stale, doubled or renamed definitions, modules, imports, fields, circles), which must be refused. Non-trivial: a run was judged. Distinct: hash of schedules, sizes and ends.",
    "C06": "one run: a specification that compiles is torn at a random octet inside one of its modules (or its tail reads as zeros), which must be refused without bindings. Non-trivial: at least one torn specification was judged. Distinct: hash of schedules, sizes and ends.",
    "C20": "one run: a specification grows over several stages, each one sound and holding the one before it (random ones, parts of the repository's, copies of definitions in other modules at last); each must compile, and every type of every earlier stage must have the bindings it had. Non-trivial: at least two stages were compared. Distinct: hash of schedules, sizes and ends.",
    "C07": "one run: the tokenizer reads a text, sound or corrupted, from readers that split, interrupt and fail reads at chosen octets; tokens must be those of one undisturbed read, faults must be reported. Non-trivial: at least one disturbed read was judged. Distinct: hash of text and calls.",
}
REAL = ["asn-compiler: the hampi-asn1c binary as built for release (C01-C06) or the asn1-compiler library (C07)",
        "the Rust standard library's file, pipe, process and thread code above the system interface"]
STUB = ["file storage, pipes, standard streams, clock, randomness, thread scheduling and process handling (shim/shim.c, preloaded)",
        "the formatter: a simulated process that reads its input, holds it back or cuts it as the scenario says",
        "for C07, the reader"]


def build():
    fresh_target(REPO, OWN)
    r = cargo(["build", "--locked", "--release", "-p", "asn1-compiler", "--bin", "hampi-asn1c"], REPO, env={"CARGO_TARGET_DIR": OWN})
    if r.returncode:
        raise HarnessError("the compiler does not build:\n" + r.stdout[-4000:])
    r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-fno-delete-null-pointer-checks", "-o", SHIM, VERIF + "/shim/shim.c", "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessError("the shim does not build:\n" + r.stdout[-4000:])
    ws = VERIF + "/asn1csim"
    fresh_target(ws)
    r = cargo(["build", "--locked"], ws)
    if r.returncode:
        raise HarnessError("asn1csim does not build against /repo:\n" + r.stdout[-4000:])


def setup(seed):
    lock_build()
    build()


def common_args():
    return ["--bin", BIN, "--shim", SHIM, "--specs", REPO + "/specs"]


def search(prop, tier, seed):
    quick = tier == "quick"
    extra = common_args() + ([] if quick else ["--thorough"])
    n = RUNS[prop][0 if quick else 1]
    return wire.run_all(prop, [SIM] * CPUS, seed, n, 150 if quick else 1500, tier, extra)


def tidy(cov):
    p = cov["probes"]
    cov["faults_injected"] = {k[6:]: v for k, v in p.items() if k.startswith("fault.")}
    cov["probes"] = {k: v for k, v in p.items() if not k.startswith("fault.") and not k.startswith("max.")}
    return cov


def probes(prop):
    """Fixed cases of recorded findings: returns the ids that still fail."""
    still = []
    for ident, (files, bad) in PROBES.get(prop, {}).items():
        d = "%s/probe-%s-%d" % (BUILD, ident, os.getpid())
        os.makedirs(d + "/spec", exist_ok=True)
        for n, t in files.items():
            with open("%s/spec/%s" % (d, n), "w") as f:
                f.write(t)
        r = subprocess.run([SIM] + common_args()[:4] + ["--emit", d + "/out.rs", "--from", d], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=120)
        out = open(d + "/out.rs").read() if r.returncode == 0 else None
        if bad(out):
            still.append(ident)
        for p in ["/spec/" + n for n in files] + ["/out.rs"]:
            if os.path.exists(d + p):
                os.unlink(d + p)
        os.rmdir(d + "/spec")
        os.rmdir(d)
    return still


def squeeze(s):
    return "".join(s.split())


def spec(body):
    return {"p.asn1": "P DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n" % body}


PROBES = {
    "C05": {
        # ok when refused
        "contained": ({"p.asn1": "P DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nA ::= OCTET STRING (CONTAINING Nowhere)\nEND\n"},
                      lambda out: out is not None),
        "addition-value": ({"p.asn1": "P DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nA ::= SEQUENCE { ..., [[ a INTEGER (0..nowhere) OPTIONAL ]] }\nEND\n"},
                           lambda out: out is not None),
        "template-value": ({"p.asn1": "P DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nA {INTEGER:x} ::= SEQUENCE { a INTEGER (0..nowhere), b INTEGER (0..x) }\nB ::= NULL\nEND\n"},
                           lambda out: out is not None),
        "unused-argument": ({"p.asn1": "P DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nA {INTEGER:x} ::= SEQUENCE { a INTEGER (0..4) }\nB ::= A { nowhere }\nEND\n"},
                            lambda out: out is not None),
    },
    "C18": {
        "ia5": (spec("A ::= IA5String"), lambda out: out is not None and 'type="IA5String"' in squeeze(out)),
        "ref-constraint": (spec("Foo ::= Bar (0..5)\nBar ::= INTEGER (0..255)"),
                           lambda out: out is not None and 'ub="5"' not in squeeze(out)),
        "root-additions": (spec("A ::= SEQUENCE { a NULL, ..., b INTEGER (0..3) OPTIONAL }"),
                           lambda out: out is not None and "optional_fields=1" in squeeze(out)),
        "alphabet": (spec('A ::= PrintableString (SIZE(1..5) ^ FROM("0".."9"))'), lambda out: out is not None and "0..9" not in squeeze(out)
                     and "alphabet" not in out),
        "wide": (spec("A ::= INTEGER (0..18446744073709551616)"), lambda out: out is not None and "pubu64" in squeeze(out)),
    },
}


def print_known(prop):
    known = known_findings(prop)
    for ident in probes(prop):
        if ident in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[ident]))
        else:
            yield ident


def check(prop, tier, seed):
    t0 = time.time()
    lock_build()
    build()
    results, records, wall, digests = search(prop, tier, seed)
    cov = tidy(wire.summarise(results, wall, digests, RULES[prop], seed))
    cov["state_measure"] = "64-bit hash of each run's schedule, choices and outcome; distinct_nontrivial counts distinct hashes of non-trivial runs"
    cov["components_real"] = REAL
    cov["components_stub"] = STUB
    found = wire.report(prop, records, None, lambda r: {"world": "compiler", "thorough": tier != "quick"}, {})
    for ident in print_known(prop):
        what = "probe %s fails and is not a known finding" % ident
        found.append((write_replay(prop, "probe-" + ident, {"property": prop, "world": "probe", "probe": ident, "message": what}), what))
    write_evidence(prop, tier, seed, cov,
                   ["the shim presents the operating system as Linux and its C library do",
                    "sampling: clean runs are evidence, not proof",
                    "random specifications stay within what simcore/src/spec.rs can write; the repository's own are mixed in"], t0, len(found))
    finish(prop, found)


def replay(r):
    lock_build()
    build()
    if r["world"] == "probe":
        bad = r["probe"] in probes(r["property"])
        print("the probe %s" % ("still fails" if bad else "passes"))
        if bad:
            print("VIOLATION property=%s replay=(this file)" % r["property"])
        return 1 if bad else 0
    return wire.replay_with(r, SIM, common_args())

"""The compiler world's part of MANIFEST.json."""
T = "deterministic simulation: seeded search over %s"
OS = " of the real compiler binary on a simulated operating system"
CLAIMED = {
    "C01": (T % ("hash seeds, thread, process and pipe schedules and splits of I/O" + OS), "comp"),
    "C02": (T % ("orders of files, modules and definitions under random schedules" + OS), "comp"),
    "C03": (T % ("failing calls, dying, lying and stalling formatters and schedules" + OS), "comp"),
    "C04": (T % ("schedules, pipe capacities and inputs corrupted in storage, with progress bounded in simulated steps," + OS), "comp"),
    "C05": (T % ("losses, stale and duplicate copies and edits of specification files on their way to" + OS[3:] + ", with the specification's model as oracle"), "comp"),
    "C06": (T % ("crash points (every octet at which a copy can stop) of specification files given to" + OS[3:]), "comp"),
    "C07": (T % "short, interrupted and failing reads and corrupted text, with the real tokenizer on a simulated reader", "comp"),
    "C18": (T % "random specifications compiled on a simulated operating system; nodes built from the bindings then exchange messages with an independent ALIGNED PER peer over a simulated network", "both"),
    "C20": (T % ("histories of growing specifications (random ones, parts of the repository's) under random schedules" + OS), "comp"),
}
NOTE = {
    "comp": "Seeded sampling, not proof: every run is a pure function of one integer and replays exactly. Real code: the unmodified hampi-asn1c binary (C07: the library) built from /repo's working tree; stubs: files, pipes, processes, threads' scheduling, clock, randomness (shim/shim.c) and the formatter. Trusts the shim and the specification generator in simcore/src/spec.rs.",
    "both": "Seeded sampling, not proof. Real code: the hampi-asn1c binary, the derive macro and the runtime; stubs: operating system below the compiler, network, peers. Trusts the model of each random specification (simcore/src/spec.rs) and the reference PER implementation (simcore/src/refper.rs).",
}
NA = {}

#!/usr/bin/env python3
"""determinism.py [PROPERTY...]: runs the first runs of every shard twice, first all shards at once, then one after another,
and compares the digests of all runs in order. Exit 1 if a run is not repeatable."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common, wire, comp
ALL = ["C%02d" % i for i in range(1, 18)]


def digests(cmds, together):
    d = tempfile.mkdtemp(dir=common.BUILD)
    ps, out = [], []
    for k, c in enumerate(cmds):
        p = subprocess.Popen(c + ["--out", "%s/o%d" % (d, k)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ps.append(p)
        if not together:
            p.wait()
    for k, p in enumerate(ps):
        p.wait()
        out.append(open("%s/o%d.dig" % (d, k), "rb").read())
    shutil.rmtree(d)
    return out


def main(props):
    common.lock_build()
    seed = common.env_seed()
    zoo = wire.build(seed)
    comp.build()
    bad = 0
    for p in props or ALL:
        w = [comp.SIM] * 8 if p < "C08" else zoo
        n = max(20, (comp.RUNS if p < "C08" else wire.RUNS)[p][0] // 20)
        extra = comp.common_args() if p < "C08" else []
        cmds = [[x, "--prop", p, "--seed", str(seed), "--runs", str(n), "--shard-no", str(k), "--max-secs", "600"] + extra
                for k, x in enumerate(w)]
        a, b = digests(cmds, True), digests(cmds, False)
        same = a == b
        bad += not same
        print(p, "%d shards of %d runs:" % (len(w), n), "the same digests" if same else "DIFFERENT", flush=True)
    return 1 if bad else 0


sys.exit(main(sys.argv[1:]))

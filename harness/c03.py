"""C03: seeding. Spec: History; MCHistory (design, histories), HistoryTrace (conformance)."""
import random, warnings
import numpy as np
import vf
import histories as hs
from histories import Instance

HCONST = 'Pre = %d\nPost = %d\nActs = {"a0", "a1"}\nSeeds = {"s1", "s2"}\nLeaky = {}\nEmitLen = %d'
TAIL = ["s1", "a0", "a1", "a2", "a0", "a1", "a3", "a1", "a1", "a2", "a0", "reset", "a1", "a0", "reset", "a2", "a2", "a1", "reset"]
SEEDS = {"s1": 4711, "s2": 12, "s3": 0}


def disturb(rng):
    """What other code may do with the global random generators."""
    k = rng.randrange(4)
    if k == 0:
        np.random.seed(rng.randrange(1000))
    elif k == 1:
        random.seed(rng.randrange(1000))
    elif k == 2:
        np.random.random(rng.randrange(1, 5)), random.random()


def run_calls(inst, iid, calls, tr, rng, refs=True, burst=1):
    for c in calls:
        disturb(rng)
        if c.startswith("a"):
            for _ in range(burst if burst == 1 else rng.randrange(1, burst)):
                if inst.dead or not hasattr(inst.dice, "full"):
                    break
                d, r = inst.step(int(c[1]))
                tr.append(dict(ev="step", id=iid, a=c, d=d, **(dict(ref=r) if refs else {})))
        else:
            d, i, r = inst.reset(SEEDS.get(c))
            tr.append(dict(ev="reset", id=iid, seed=c if c in SEEDS else "none", d=d, init=i, **(dict(ref=r) if refs else {})))


def scenario(tr, name, cfg, hists, rng):
    build, refs = cfg
    tr.append(dict(ev="mode", mode="seed", det=False))
    inst = Instance(build)
    tr.append(dict(ev="new", id="A", cfg=name, d=inst.look()))
    run_calls(inst, "A", TAIL, tr, rng, refs)
    for n, h in enumerate(hists):
        if n % 2 == 1:          # another instance of the same configuration
            inst = Instance(build)
            tr.append(dict(ev="new", id="B%d" % n, cfg=name, d=inst.look()))
        iid = "A" if n % 2 == 0 and n == 0 else [e["id"] for e in tr if e["ev"] == "new"][-1]
        run_calls(inst, iid, h, tr, rng, refs, burst=1 + n % 4 * 4)
        run_calls(inst, iid, TAIL, tr, rng, refs)
        run_calls(inst, iid, ["s1", "a3", "reset", "a1", "a0", "a1", "reset", "a0"], tr, rng, refs)       # other episode lengths
    run_calls(inst, iid, ["s2", "s3", "a1", "a0", "reset", "s3", "a1", "a0", "s2", "a1"], tr, rng, refs)
    tr.append(dict(ev="seeds"))


def run(c):
    c.model("MCHistory", HCONST % (2, 2 if c.quick else 3, 3), ["SameAnswers", "SameKeys", "EpisodeDraw", "ErasedMemory"])
    hist = c.generate("MCHistory", HCONST % (3, 0, 3), "INVARIANT Emit\nCONSTRAINT GenOnly\n")
    c.extra["histories_enumerated"] = len(hist)
    traces, names = [], []
    for k, (name, cfg) in enumerate(hs.random_configs().items()):
        if c.quick and "-v0" in name and (k // 2 + k) % 2:
            continue
        hh = c.rng.sample(hist, 4 if c.quick else 24)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(lambda tr: scenario(tr, name, cfg, hh, c.rng)))
        names.append(name)
    c.validate("HistoryTrace", traces, names)
    c.assumptions += ["C03: answers are compared bit by bit within one process; the reference of a switched generator restarts at switches, so only the seeded comparison applies to it"]

"""C05: reset erases history. Spec: History, Scml; MCHistory (design, histories), HistoryTrace and ScmlTrace (conformance)."""
import warnings
import vf, envs, scml
import histories as hs
from c03 import HCONST, disturb, SEEDS

TAILS = [["a0", "a1", "a2", "a0", "a3"], ["a3", "a3", "a3", "a2", "a1", "a0"], ["a1", "a0", "a0"]]


def calls(inst, iid, seq, tr, rng, burst):
    for c in seq:
        if c.startswith("a"):
            for _ in range(rng.randrange(1, burst + 1)):
                if inst.dead or not hasattr(inst.dice, "full"):
                    break
                d, _ = inst.step(int(c[1]))
                tr.append(dict(ev="step", id=iid, a=c, d=d))
        else:
            d, _, _ = inst.reset(SEEDS.get(c))
            tr.append(dict(ev="reset", id=iid, seed=c if c in SEEDS else "none", d=d))


class Silent(hs.Instance):
    """Without the random callback."""
    def reset(self, seed=None):
        self.dice.v = 0.0
        (state, ref), info = self.env.reset(seed=seed)
        self.dead = False
        return hs.digest(state, ref, self.dice.full, self.attributes(), int(self.env.physical_system.k)), None, None

    def step(self, a):
        (state, ref), rew, term, trunc, info = self.env.step(self.acts[a])
        self.dead = bool(term)
        return hs.digest(state, ref, rew, term, trunc, self.dice.full, int(self.env.physical_system.k)), None


def scenario(tr, name, build, hists, rng, det):
    """Episodes fed the same actions after different histories; det: nothing random, resets without seed."""
    tr.append(dict(ev="mode", mode="history", det=det))
    cls = Silent if det else hs.Instance
    inst, iid = cls(build), "A"
    tr.append(dict(ev="new", id=iid, cfg=name, d=inst.look()))
    for t in TAILS:
        calls(inst, iid, ["reset" if det else "s1"] + t, tr, rng, 1)
    for n, h in enumerate(hists):
        if n == len(hists) // 2:
            inst, iid = cls(build), "B"
            tr.append(dict(ev="new", id=iid, cfg=name, d=inst.look()))
        calls(inst, iid, h, tr, rng, 6)
        t = TAILS[n % len(TAILS)]
        calls(inst, iid, ["reset" if det else "s1"] + t, tr, rng, 1)


def drive(c, mtype, kind, tr):
    """Many short episodes of a system with memory everywhere, each predicted by the specification from its defined initial state."""
    rng = c.rng
    cfg = scml.configuration(rng, mtype, kind)
    if kind == "Finite":
        cfg["til"] = cfg["tau"] * rng.uniform(0.1, 0.4)
    if rng.random() < 0.6:
        cfg["sup"] = dict(kind="rc", u0=cfg["sup"]["u0"], R=rng.uniform(0.05, 0.5), C=rng.uniform(1e-3, 5e-3))
    env, rec, sol = scml.make(cfg)
    env.action_space.seed(rng.randrange(10**6))
    tr.append(scml.head(env, cfg))
    for ep in range(6 if c.quick else 20):
        scml.reset(env, rec, sol, cfg, tr, seed=rng.choice([None, None, rng.randrange(10**6)]))
        for k in range(rng.choice([0, 1, 2, 3, 6])):
            scml.step(env, rec, sol, cfg, tr, rng)
            if not scml.safe(rec):
                break


def run(c):
    c.model("MCHistory", HCONST % (2, 2 if c.quick else 3, 3), ["SameAnswers", "SameKeys", "ErasedMemory"])
    hist = c.generate("MCHistory", HCONST % (3, 0, 3), "INVARIANT Emit\nCONSTRAINT GenOnly\n")
    unseeded = [h for h in hist if not any(x.startswith("s") for x in h)]
    traces, names = [], []
    for k, (name, build) in enumerate(hs.deterministic_configs().items()):
        if c.quick and (k + k // 8) % 2:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            hh = c.rng.sample(unseeded, 3 if c.quick else 12) + c.rng.sample(hist, 2 if c.quick else 12)
            traces.append(vf.scenario(lambda tr: scenario(tr, name, build, hh, c.rng, True)))
        names.append("deterministic " + name)
    for k, (name, (build, _)) in enumerate(hs.random_configs().items()):
        if c.quick and "-v0" in name and k % 3:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(lambda tr: scenario(tr, name, build, c.rng.sample(hist, 3 if c.quick else 16), c.rng, False)))
        names.append("seeded " + name)
    c.validate("HistoryTrace", traces, names)
    traces, names = [], []
    for rep in range(2 if c.quick else 20):
        for m in envs.MOTORS:
            for kind in envs.CT:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    traces.append(vf.scenario(lambda tr: drive(c, m, kind, tr)))
                names.append("%s %s #%d" % (kind, m, rep))
    c.validate("ScmlTrace", traces, names)
    c.assumptions += ["C05: the ramping limit margin keeps its margin over episodes by design (C28) and is not used here",
                      "C05: equal random streams are obtained by equal seeds"]

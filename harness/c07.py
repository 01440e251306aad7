"""C07: finite-control-set converters. Spec: Converters; MCConverters (design), ConverterTrace (conformance)."""
import itertools
import numpy as np
import vf
from vf import fl, vec
from converters import build, head, currents, refuse, FIN, NACT


def history(c, rng, types, til, tau, actions, env_style, resets=0.1):
    def run(tr):
        conv, other = build(rng, types, til, tau, env_style), build(rng, types, til, tau * 2, False)
        tr.append(head(conv, types, til, tau))
        if rng.random() < 0.9:
            tr.append(dict(ev="reset", u=vec(conv.reset())))
        t = rng.choice([0.0, 0.0, 0.37])
        for a in actions:
            if rng.random() < resets:
                tr.append(dict(ev="reset", u=vec(conv.reset())))
                t = 0.0
            if rng.random() < 0.1:
                bad = [n for n in (-1, NACT[types[0]], 99)]
                b = rng.choice(bad)
                arg = b if len(types) == 1 else [b] + [0] * (len(types) - 1)
                probe = build(rng, types, til, tau, False)
                probe.reset()
                tr.append(dict(ev="refused", raised=refuse(probe, arg)))
            if rng.random() < 0.3:
                other.set_action(a[0] if len(types) == 1 else list(a), 0.0)
            arg = rng.choice([int, np.int64])(a[0]) if len(types) == 1 else rng.choice([list, tuple, np.array])(a)
            times = conv.set_action(arg, t)
            tr.append(dict(ev="set", a=[int(x) for x in a], t=fl(t), times=vec(times)))
            for te in times:
                i = currents(rng, types)
                u = list(conv.convert(np.array(i), te))
                tr.append(dict(ev="section", t=fl(te), i=vec(i), u=vec(u), isup=fl(conv.i_sup(np.array(i)))))
            t = t + tau
    return run


def run(c):
    rng = c.rng
    kinds = '{"F1QC", "F2QC", "F4QC", "FB6C"}'
    for lock in ("TRUE", "FALSE"):
        c.model("MCConverters", "Types = %s\nPeriod = 4\nSteps = %d\nLock = %s" % (kinds, 2 if c.quick else 3, lock),
                ["Commanded", "PowerBalance", "InRange"], ["DeadTimeKept", "OpenLongEnough"])
    traces, names = [], []

    def add(nm, fn):
        traces.append(vf.scenario(fn))
        names.append(nm)
    # all action sequences of length L of each elementary converter, with and without interlocking
    for t in FIN:
        L = {"F1QC": 4, "F2QC": 4, "F4QC": 3, "FB6C": 2}[t] + (0 if c.quick else 1)
        seqs = list(itertools.product(range(NACT[t]), repeat=L))
        for s in seqs:
            til = rng.choice([0.0, 1e-6, 5e-6])
            add("%s til=%g %s" % (t, til, s), history(c, rng, [t], til, 1e-4, [(a,) for a in s], rng.random() < 0.5, 0.0))
    # long random histories, multi converters
    combos = [["F1QC"], ["F2QC"], ["F4QC"], ["FB6C"], ["F2QC", "F1QC"], ["F4QC", "F4QC"], ["FB6C", "F4QC"], ["FB6C", "FB6C"],
              ["F1QC", "F2QC", "F4QC"], ["F4QC", "FB6C", "F1QC"]]
    for k in range(2 if c.quick else 20):
        for types in combos:
            til = rng.choice([0.0, 1e-7, 2e-6, 5e-5])
            tau = rng.choice([1e-5, 1e-4, 1e-3])
            til = min(til, tau / 2)
            acts = [tuple(rng.randrange(NACT[t]) for t in types) for _ in range(60)]
            add("%s til=%g tau=%g #%d" % ("+".join(types), til, tau, k), history(c, rng, types, til, tau, acts, rng.random() < 0.7))
    c.validate("ConverterTrace", traces, names)
    c.assumptions += ["Output and supply current are sampled once per interval between the announced switching times, at its end (as the simulation does)"]

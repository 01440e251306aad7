"""C08: continuously controlled converters. Spec: Converters; MCContConverters (design), ConverterTrace (conformance)."""
import numpy as np
import vf
from vf import fl, vec
from converters import build, head, currents, CONT


def duties(rng, types):
    d = []
    for t in types:
        for _ in range(3 if t == "CB6C" else 1):
            d.append(rng.choice([-1.0, 0.0, 1.0, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-3, 3), rng.uniform(0.9, 1.0)]))
    return d


def run(c):
    rng = c.rng
    c.model("MCContConverters", 'Types = {"C1QC", "C2QC", "C4QC", "CB6C"}\nDuties <- SmallDuties\nTils <- SmallTils\nAmps <- SmallAmps',
            ["InRange", "PowerBalance", "LossOpposes", "Clipped"])
    traces, names = [], []
    combos = [["C1QC"], ["C2QC"], ["C4QC"], ["CB6C"], ["C2QC", "C1QC"], ["C4QC", "C4QC"], ["CB6C", "C4QC"], ["CB6C", "CB6C"],
              ["C1QC", "C2QC", "C4QC"], ["C4QC", "CB6C", "C1QC"]]
    for k in range(8 if c.quick else 80):
        for types in combos:
            tau = rng.choice([1e-5, 1e-4, 1e-3])
            til = rng.choice([0.0, 0.0, 1e-7, tau / 100, tau / 20])
            style = rng.random() < 0.7

            def hist(tr):
                conv, other = build(rng, types, til, tau, style), build(rng, types, til, tau * 2, False)
                tr.append(head(conv, types, til, tau))
                tr.append(dict(ev="reset", u=vec(conv.reset())))
                t = 0.0
                for n in range(25):
                    if rng.random() < 0.1:
                        tr.append(dict(ev="reset", u=vec(conv.reset())))
                        t = 0.0
                    d = duties(rng, types)
                    if rng.random() < 0.3:
                        other.set_action(np.array(duties(rng, types)), 0.0)
                    times = conv.set_action(np.array(d), t)
                    tr.append(dict(ev="set", a=vec(d), t=fl(t), times=vec(times)))
                    i = currents(rng, types)
                    # the current may be read before or after the conversion
                    if rng.random() < 0.5:
                        tr.append(dict(ev="supply", i=vec(i), isup=fl(conv.i_sup(np.array(i)))))
                    for te in times:
                        i = currents(rng, types)
                        u = [float(np.ravel(x)[0]) for x in conv.convert(np.array(i), te)]
                        tr.append(dict(ev="section", t=fl(te), i=vec(i), u=vec(u)))
                    i = currents(rng, types)
                    tr.append(dict(ev="supply", i=vec(i), isup=fl(conv.i_sup(np.array(i)))))
                    t += tau
            traces.append(vf.scenario(hist))
            names.append("%s til=%g tau=%g #%d" % ("+".join(types), til, tau, k))
    c.validate("ConverterTrace", traces, names)

"""Shared by C07 and C08: construct converters and record their behaviour."""
import numpy as np
import vf
from vf import fl, vec
from gym_electric_motor.physical_systems import converters as cv

FIN = {"F1QC": cv.FiniteOneQuadrantConverter, "F2QC": cv.FiniteTwoQuadrantConverter, "F4QC": cv.FiniteFourQuadrantConverter, "FB6C": cv.FiniteB6BridgeConverter}
CONT = {"C1QC": cv.ContOneQuadrantConverter, "C2QC": cv.ContTwoQuadrantConverter, "C4QC": cv.ContFourQuadrantConverter, "CB6C": cv.ContB6BridgeConverter}
NACT = {"F1QC": 2, "F2QC": 3, "F4QC": 4, "FB6C": 8}
NPORT = lambda t: 3 if t.endswith("B6C") else 1


def build(rng, types, til, tau, env_style):
    """One elementary converter, or a multi converter; env_style: tau is set afterwards (as systems do)."""
    classes = {**FIN, **CONT}
    kw = dict(interlocking_time=til) if til or rng.random() < 0.3 else {}
    kw_tau = {} if env_style else dict(tau=tau)
    if len(types) == 1:
        c = classes[types[0]](**kw, **kw_tau)
    else:
        multi = cv.FiniteMultiConverter if types[0] in FIN else cv.ContMultiConverter
        if rng.random() < 0.5:
            c = multi(subconverters=[classes[t](**kw, **kw_tau) for t in types], **kw_tau)
        else:
            c = multi(subconverters=[classes[t] for t in types], **kw, **kw_tau)
    if env_style:
        c.tau = tau
    return c


def head(c, types, til, tau):
    ev = dict(ev="converter", units=[dict(type=t, til=fl(til)) for t in types], tau=fl(tau), got_tau=fl(c.tau), multi=len(types) > 1,
              ilow=vec(c.currents.low), ihigh=vec(c.currents.high), ulow=vec(c.voltages.low), uhigh=vec(c.voltages.high))
    if types[0] in FIN:
        ev["nact"] = [int(c.action_space.n)] if len(types) == 1 else [int(n) for n in c.action_space.nvec]
    else:
        ev.update(alow=vec(c.action_space.low), ahigh=vec(c.action_space.high))
    return ev


def currents(rng, types):
    i = []
    for t in types:
        if NPORT(t) == 3:
            a, b = (rng.choice([0.0, rng.uniform(-50, 50), rng.choice([-1.0, 1.0])]) for _ in range(2))
            i += [a, b, -a - b]
        else:
            x = rng.choice([0.0, rng.uniform(-50, 50), rng.choice([-1.0, 1.0])])
            i.append(abs(x) if t.endswith("1QC") and rng.random() < 0.6 else x)
    return i


def refuse(c, action):
    try:
        c.set_action(action, 0.0)
    except Exception:
        return True
    return False

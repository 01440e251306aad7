"""C09: dead time. Spec: DeadTime; MCDeadTime (design, histories), DeadTimeTrace (conformance)."""
import copy, warnings
import numpy as np
import gymnasium
import vf, envs
from vf import fl, vec
from gym_electric_motor import physical_system_wrappers as pw
from gym_electric_motor.physical_systems import converters as cv


class Probe(pw.PhysicalSystemWrapper):
    """Transparent wrapper that keeps copies of what passes through it."""
    def __init__(self):
        self.actions, self.states = [], []
        super().__init__()

    def simulate(self, action):
        self.actions.append(copy.deepcopy(action))
        s = super().simulate(action)
        self.states.append(np.array(s, dtype=float))
        return s

    def reset(self, **kw):
        s = super().reset(**kw)
        self.states.append(np.array(s, dtype=float))
        return s


def avec(a):
    return vec(np.atleast_1d(np.asarray(a, dtype=float)))


def describe(ps):
    return [["state names", [str(x) for x in ps.state_names]], ["limits", vec(ps.limits)], ["nominal values", vec(ps.nominal_state)],
            ["state space", [vec(ps.state_space.low), vec(ps.state_space.high)]], ["action space", repr(ps.action_space)],
            ["state positions", sorted([str(k), int(v)] for k, v in ps.state_positions.items())], ["sampling time", fl(ps.tau)]]


def two_actions(space, rng, n):
    """n distinct legal actions of the space."""
    if isinstance(space, gymnasium.spaces.Discrete):
        return [int(k % space.n) for k in range(1, n + 1)]
    if isinstance(space, gymnasium.spaces.MultiDiscrete):
        return [np.array([(k + 3 * j + 1) % m for j, m in enumerate(space.nvec)]) for k in range(n)]
    return [np.clip(space.low + (space.high - space.low) * np.array([rng.uniform(0, 1) for _ in range(int(np.prod(space.shape)))]).reshape(space.shape), space.low, space.high)
            for _ in range(n)]


def zero(space):
    return 0 if isinstance(space, gymnasium.spaces.Discrete) else np.zeros_like(space.nvec) if isinstance(space, gymnasium.spaces.MultiDiscrete) else np.zeros(space.shape)


SYSTEMS = [("Finite-CC-PermExDc-v0", None), ("Cont-CC-SeriesDc-v0", None), ("Cont-CC-ExtExDc-v0", None), ("Finite-CC-PMSM-v0", None), ("Cont-CC-PMSM-v0", None),
           ("Finite-CC-ExtExDc-v0", None), ("Finite-CC-DFIM-v0", None), ("Cont-CC-EESM-v0", None), ("Finite-CC-EESM-v0", None), ("Cont-CC-SCIM-v0", None),
           ("Finite-CC-ShuntDc-v0", "1QC"), ("Cont-CC-PermExDc-v0", "2QCc"), ("Cont-SC-SeriesDc-v0", "1QCc"), ("Cont-CC-ExtExDc-v0", "multi")]
CONVERTERS = {"1QC": lambda: cv.FiniteOneQuadrantConverter(), "1QCc": lambda: cv.ContOneQuadrantConverter(), "2QCc": lambda: cv.ContTwoQuadrantConverter(),
              "multi": lambda: cv.ContMultiConverter([cv.ContFourQuadrantConverter(), cv.ContOneQuadrantConverter()])}


def replay(c, tr, eid, variant, delays, hist, style, custom):
    """style: fresh action objects or one buffer that is overwritten; custom: own reset actions."""
    rng = c.rng
    inner, outer = Probe(), Probe()
    space = envs.make(eid, **(dict(converter=CONVERTERS[variant]()) if variant else {})).action_space
    kw = dict(converter=CONVERTERS[variant]()) if variant else {}
    resets, dead = [], []
    for d in delays:                                   # innermost first
        box = [[zero(space)] * d]
        if custom:                                     # other reset actions in every episode
            def draw(d=d, box=box):
                box[0] = two_actions(space, rng, d)
                return [copy.deepcopy(x) for x in box[0]]
            dead.append(pw.DeadTimeProcessor(steps=d, reset_action=draw))
        else:
            dead.append(pw.DeadTimeProcessor(steps=d) if rng.random() < 0.7 or d != 1 else pw.DeadTimeProcessor())
        resets.append(box)
        if not custom and rng.random() < 0.3:              # the processor served a system with another action space before
            envs.make(rng.choice(envs.IDS), constraints=(), physical_system_wrappers=(dead[-1],)).reset()
    env = envs.make(eid, constraints=(), physical_system_wrappers=tuple([inner] + dead + [outer]), **kw)
    tr.append(dict(ev="layout", inner=describe(inner), outer=describe(outer)))
    for w in dead:
        tr.append(dict(ev="layout", inner=describe(inner), outer=describe(w)))
    acts = dict(zip(sorted(set(hist) - {"reset"}), two_actions(space, rng, 6)))
    buf = None
    for h in hist:
        inner.actions.clear(), inner.states.clear(), outer.states.clear()
        if h == "reset":
            env.reset()
            tr.append(dict(ev="reset", resets=[[avec(x) for x in box[0]] for box in resets[::-1]]))
        else:
            a = copy.deepcopy(acts[h])
            if style == "buffer" and isinstance(a, np.ndarray):
                buf = a if buf is None else buf
                buf[...] = a
                env.step(buf)
                buf[...] = acts[rng.choice(sorted(acts))]      # the caller goes on working with its array
            else:
                env.step(a)
            tr.append(dict(ev="step", a=avec(acts[h]), got=[avec(x) for x in inner.actions]))
        tr.append(dict(ev="state", inner=vec(inner.states[-1]), outer=vec(outer.states[-1])))
    env.close()


def run(c):
    q = c.quick
    for d1, d2 in ((1, 0), (2, 0), (3, 0), (1, 2)):
        c.model("MCDeadTime", 'D1 = %d\nD2 = %d\nActs = {"a", "b"}\nMaxLen = %d\nMaxEp = 3\nByReference = FALSE' % (d1, d2, 7 if q else 10), ["Delayed", "InFlight"])
    hists = c.generate("MCDeadTime", 'D1 = 2\nD2 = 0\nActs = {"a", "b"}\nMaxLen = %d\nMaxEp = 3\nByReference = FALSE' % (6 if q else 7), "INVARIANT Emit\n")
    traces, names = [], []

    def add(nm, fn):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(fn))
        names.append(nm)
    hists = [["reset"] + h[1:] for h in hists]
    c.extra["enumerated_histories"] = len(hists)
    c.rng.shuffle(hists)
    pool = list(hists)
    for k, (eid, var) in enumerate(SYSTEMS):
        for delays in ((1,), (2,), (3,), (5,), (1, 2)):
            for style in ("buffer", "fresh"):
                for custom in (False, True):
                    for _ in range(1 if q else 4):
                        # a concatenation of enumerated histories: aborted episodes in between
                        hist = sum([pool.pop() if pool else c.rng.choice(hists) for _ in range(2 if q else 3)], [])
                        hist += [c.rng.choice(["a", "b", "c", "d"]) for _ in range(12)]
                        add("%s d=%s %s custom=%s" % (eid, delays, style, custom), lambda tr: replay(c, tr, eid, var, delays, hist, style, custom))
    c.validate("DeadTimeTrace", traces, names)
    c.assumptions += ["The order in which different reset actions of a user callable are executed is not documented; both directions are accepted"]

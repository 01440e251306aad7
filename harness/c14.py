"""C14: switched and multiple references. Spec: Composed; MCComposed, MCReferences (design), ComposedTrace (conformance)."""
import numpy as np
import gym_electric_motor.reference_generators as rgs
from gym_electric_motor.core import ReferenceGenerator
from gym_electric_motor.random_component import RandomComponent
import vf, envs
from vf import fl, vec


class Part(ReferenceGenerator, RandomComponent):
    """Transparent observer of a reference generator that is part of another one."""
    def __init__(self, inner, no, log):
        ReferenceGenerator.__init__(self)
        RandomComponent.__init__(self)
        self.inner, self.no, self.log = inner, no, log

    def __getattr__(self, name):
        return getattr(self.__dict__["inner"], name)

    reference_names = property(lambda s: s.inner.reference_names)
    referenced_states = property(lambda s: s.inner.referenced_states)
    reference_space = property(lambda s: s.inner.reference_space, lambda s, v: None)

    def set_modules(self, ps):
        self.inner.set_modules(ps)

    def seed(self, seed=None):
        if isinstance(self.inner, RandomComponent):
            self.inner.seed(seed)
        else:
            RandomComponent.seed(self, seed)

    def reset(self, initial_state=None, initial_reference=None):
        given = None if initial_reference is None else np.array(initial_reference, dtype=float)
        r, o, tr = self.inner.reset(initial_state=initial_state, initial_reference=initial_reference)
        self.log.append(dict(i=self.no, op="reset", given=[] if given is None else vec(given), ref=vec(r), obs=vec(o)))
        return r, o, tr

    def get_reference(self, state, *a, **k):
        return self.inner.get_reference(state, *a, **k)

    def get_reference_observation(self, state, *a, **k):
        o = self.inner.get_reference_observation(state, *a, **k)
        self.log.append(dict(i=self.no, op="obs", given=[], ref=[], obs=vec(o)))
        return o


def leaf(c, state, ps):
    rng = c.rng
    lens = rng.choice([(2, 9), (5, 5), 7])
    f = (1 / ps.tau / 60, 1 / ps.tau / 10)
    kind = rng.choice(["const", "sin", "saw", "tri", "step", "wiener", "laplace"])
    m = rng.choice([None, 0.7, (0.4, 0.9)])
    if kind == "const":
        return rgs.ConstReferenceGenerator(reference_state=state, reference_value=rng.uniform(-1, 1))
    cls = dict(sin=rgs.SinusoidalReferenceGenerator, saw=rgs.SawtoothReferenceGenerator, tri=rgs.TriangularReferenceGenerator, step=rgs.StepReferenceGenerator,
               wiener=rgs.WienerProcessReferenceGenerator, laplace=rgs.LaplaceProcessReferenceGenerator)[kind]
    return cls(reference_state=state, episode_lengths=lens, limit_margin=m, **(dict(frequency_range=f) if kind in ("sin", "saw", "tri", "step") else {}))


def head(kind, gen, parts, p, rng_):
    b = lambda m: [bool(x) for x in m]
    return dict(ev="setup", kind=kind, refnames=[str(n) for n in gen.reference_names], mask=b(gen.referenced_states), low=vec(gen.reference_space.low), high=vec(gen.reference_space.high),
                parts=[dict(names=[str(n) for n in q.inner.reference_names], mask=b(q.inner.referenced_states), low=vec(q.inner.reference_space.low), high=vec(q.inner.reference_space.high)) for q in parts],
                p=[fl(x) for x in p], range=rng_)


def drive(tr, c, gen, parts, log, ps, episodes, n):
    rng = c.rng
    for _ in range(episodes):
        state = c.np_rng.uniform(-1, 1, len(ps.state_names))
        given = None if rng.random() < 0.7 else c.np_rng.uniform(-0.3, 0.3, len(ps.state_names))
        log.clear()
        r, o, _ = gen.reset(initial_state=state, initial_reference=given)
        tr.append(dict(ev="call", op="reset", given=[] if given is None else vec(given), ref=vec(r), obs=vec(o), calls=list(log), now=[]))
        for _ in range(rng.choice(n)):
            state = c.np_rng.uniform(-1, 1, len(ps.state_names))
            log.clear()
            r = np.array(gen.get_reference(state), dtype=float)
            calls = list(log)
            tr.append(dict(ev="call", op="ref", given=[], ref=vec(r), obs=[], calls=calls, now=[vec(q.inner.get_reference(state)) for q in parts]))
            log.clear()
            o = gen.get_reference_observation(state)
            tr.append(dict(ev="call", op="obs", given=[], ref=[], obs=vec(o), calls=list(log), now=[]))
    tr.append(dict(ev="end"))


def switched(tr, c, pool, env_driven=False):
    rng = c.rng
    ps = rng.choice(pool)
    st = rng.choice([n for n in ps.state_names if n != "u_sup"])
    k = rng.randrange(1, 5)
    log = []
    multi = rng.random() < 0.25
    if multi:
        other = rng.choice([n for n in ps.state_names if n not in (st, "u_sup")])
        inner = [rgs.MultipleReferenceGenerator([leaf(c, st, ps), leaf(c, other, ps)]) for _ in range(k)]
    else:
        inner = [leaf(c, st, ps) for _ in range(k)]
    parts = [Part(g, i + 1, log) for i, g in enumerate(inner)]
    p = None
    if rng.random() < 0.6:
        w = [rng.choice([0.0, rng.uniform(0.2, 1)]) for _ in range(k)]
        if sum(w) == 0:
            w[rng.randrange(k)] = 1.0
        p = [x / sum(w) for x in w]
    L = rng.choice([1, 4, 4.0, (1, 2), (1, 7), (3, 15), (2, 40)])
    kw = {} if p is None else dict(p=p)
    gen = rgs.SwitchedReferenceGenerator(parts, super_episode_length=L, **kw)
    gen.set_modules(ps)
    gen.seed(np.random.SeedSequence(rng.randrange(10 ** 6)))
    rr = [int(L), int(L) + 1] if not isinstance(L, tuple) else list(L)
    tr.append(head("switched", gen, parts, p or [1 / k] * k, rr))
    drive(tr, c, gen, parts, log, ps, 4, [1, 30, 150, 400])


def multiple(tr, c, pool):
    rng = c.rng
    ps = rng.choice(pool)
    names = [n for n in ps.state_names if n != "u_sup"]
    rng.shuffle(names)
    k = rng.randrange(1, min(5, len(names)) + 1)
    log, inner = [], []
    for n in names[:k]:
        x = rng.random()
        if x < 0.2:
            inner.append(rgs.SwitchedReferenceGenerator([leaf(c, n, ps) for _ in range(2)], super_episode_length=(2, 9)))
        else:
            inner.append(leaf(c, n, ps))
    if rng.random() < 0.2:
        inner.insert(rng.randrange(len(inner) + 1), rgs.ZeroReferenceGenerator())
    parts = [Part(g, i + 1, log) for i, g in enumerate(inner)]
    gen = rgs.MultipleReferenceGenerator(parts)
    gen.set_modules(ps)
    gen.seed(np.random.SeedSequence(rng.randrange(10 ** 6)))
    tr.append(head("multiple", gen, parts, [1] * len(parts), [1, 2]))
    drive(tr, c, gen, parts, log, ps, 3, [2, 20, 60])


def construct(tr, c, pool):
    """parts given as classes with arguments; equal random parts must not run in parallel"""
    rng = c.rng
    ps = rng.choice(pool)
    a, b = [n for n in ps.state_names if n != "u_sup" and ps.state_space.low[list(ps.state_names).index(n)] < 0][:2]
    cls = rng.choice([rgs.WienerProcessReferenceGenerator, rgs.SinusoidalReferenceGenerator, rgs.LaplaceProcessReferenceGenerator])
    margin = dict(limit_margin=0.5)
    gen = rgs.MultipleReferenceGenerator([cls, cls], sub_args=[dict(reference_state=a, **margin), dict(reference_state=b, **margin)])
    gen.set_modules(ps)
    gen.seed(np.random.SeedSequence(rng.randrange(10 ** 6)))
    xs = [gen.reset(None)[1]] + [gen.get_reference_observation(None) for _ in range(20)]
    x = np.array(xs)
    tr.append(dict(ev="streams", equal=bool(np.allclose(x[:, 0], x[:, 1]))))
    gen = rgs.SwitchedReferenceGenerator([cls(reference_state=a, **margin), cls(reference_state=a, **margin)], super_episode_length=(1, 3))
    gen.set_modules(ps)
    gen.seed(np.random.SeedSequence(rng.randrange(10 ** 6)))
    xs = [gen.reset(None)[1]]
    for _ in range(20):
        gen.get_reference(None)
        xs.append(gen.get_reference_observation(None))
    tr.append(dict(ev="streams", equal=len({float(v[0]) for v in xs}) < 10))


def run(c):
    c.model("MCComposed", "Parts = {1, 2, 3}\nUsable = {1, 3}\nRange <- SmallRange\nMaxT = %d" % (10 if c.quick else 14), ["OnlyUsable", "IsActive", "InRange", "Bounded"], ["Continuous"])
    c.model("MCReferences", "Lens = {1, 2}\nSuperLens = {1, 2}\nIncs <- SmallIncs\nMaxT = %d\nFreq = 2\nRampStep = 1" % (5 if c.quick else 7),
            ["InLimits", "InMargin", "CompleteSubEpisodes", "SuperEpisodes", "MarginInMax"], ["NoGap", "MarginGrows"])
    ids = ["Cont-SC-PermExDc-v0", "Finite-CC-PMSM-v0", "Cont-TC-SCIM-v0", "Finite-SC-SeriesDc-v0", "Cont-CC-EESM-v0", "Cont-SC-ShuntDc-v0", "Cont-CC-ExtExDc-v0"]
    pool = [envs.make(x).physical_system for x in ids]
    traces, names = [], []

    def add(nm, *a):
        traces.append(vf.scenario(*a))
        names.append(nm)
    for r in range(14 if c.quick else 150):
        add("switched/%d" % r, switched, c, pool)
        add("multiple/%d" % r, multiple, c, pool)
    for r in range(4 if c.quick else 30):
        add("construct/%d" % r, construct, c, pool)
    c.validate("ComposedTrace", traces, names, chunk=80)

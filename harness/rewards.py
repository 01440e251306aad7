"""Scenarios for constraints (C11) and rewards (C12)."""
import copy, warnings
import numpy as np
import gymnasium
import vf, envs
from vf import fl, vec
from gym_electric_motor.core import Callback, RewardFunction, ReferenceGenerator, ConstraintMonitor
from gym_electric_motor.constraints import Constraint, LimitConstraint, SquaredConstraint
from gym_electric_motor.reward_functions import WeightedSumOfErrors
from gym_electric_motor import physical_system_wrappers as pw


class MaskReference(ReferenceGenerator):
    """References random values on a chosen set of states."""
    def __init__(self, rng, share):
        super().__init__()
        self.rng, self.share = rng, share

    def set_modules(self, ps):
        super().set_modules(ps)
        n = len(ps.state_names)
        self._referenced_states = np.array([self.rng.random() < self.share for _ in range(n)], dtype=bool)
        self._reference_names = [s for s, r in zip(ps.state_names, self._referenced_states) if r]
        self.reference_space = gymnasium.spaces.Box(-1, 1, shape=(max(1, int(self._referenced_states.sum())),), dtype=np.float64)
        self.low, self.high = ps.state_space.low, ps.state_space.high

    def reset(self, initial_state=None, initial_reference=None):
        return self.get_reference(), self.get_reference_observation(None), {}

    def get_reference(self, state=None, *_, **__):
        r = np.array([self.rng.uniform(max(l, -1), min(h, 1)) for l, h in zip(self.low, self.high)])
        return np.where(self._referenced_states, r, 0.0)

    def get_reference_observation(self, state, *_, **__):
        return np.zeros(self.reference_space.shape)


class DegreeReward(RewardFunction):
    """Reward equal to the violation degree."""
    def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
        return float(violation_degree)


class Fn:
    """Function constraint answering scripted degrees."""
    def __init__(self, rng, hard):
        self.rng, self.hard, self.log = rng, hard, []

    def degree(self):
        v = self.rng.choice([0.0, 0.0, 0.25, 0.999, self.rng.random()] + ([1.0] if self.hard and self.rng.random() < 0.3 else []))
        self.log.append(v)
        return v

    def __call__(self, state):
        return self.degree()


class FnConstraint(Constraint):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, state):
        return self.fn.degree()


class Seen(Callback):
    def on_reset_end(self, state, reference):
        self.state, self.ref = np.array(state, dtype=float), np.array(reference, dtype=float)

    def on_step_end(self, k, state, reference, reward, done):
        self.state, self.ref, self.rew, self.done = np.array(state, dtype=float), np.array(reference, dtype=float), float(reward), bool(done)


class MergeUser:
    def __init__(self, rng):
        self.kind = rng.choice(["mean", "min", "max"])
        self.got, self.out = [], 0.0

    def __call__(self, *degrees):
        d = degrees[0] if len(degrees) == 1 and np.ndim(degrees[0]) == 1 else degrees
        self.got = [float(x) for x in d]
        self.out = dict(mean=float(np.mean(self.got)), min=min(self.got), max=max(self.got))[self.kind]
        return self.out


def constraint_set(rng, names, hard=True, limits=True):
    """(argument list for an environment, spec records, functions)."""
    args, recs, fns = [], [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        k = rng.choice((["name", "limit", "limit_all", "squared"] if limits else []) + ["fn", "fn", "fnc"])
        some = rng.sample(list(names), rng.randrange(1, min(4, len(names)) + 1))
        if k == "name":
            args.append(some[0])
        elif k == "limit":
            args.append(LimitConstraint(some if rng.random() < 0.7 else tuple(some)))
            recs.append(dict(kind="limit", all=False, names=some))
        elif k == "limit_all":
            args.append(rng.choice([lambda: LimitConstraint(), lambda: LimitConstraint("all_states"), lambda: LimitConstraint(["all_states"])])())
            recs.append(dict(kind="limit", all=True, names=[]))
        elif k == "squared":
            if "psi_abs" in names and rng.random() < 0.5:
                some = ["psi_abs"]
            args.append(SquaredConstraint(tuple(some)))
            recs.append(dict(kind="squared", all=False, names=some))
        else:
            f = Fn(rng, hard)
            fns.append(f)
            args.append(FnConstraint(f) if k == "fnc" else rng.choice([lambda: f, lambda: (lambda s: f.degree())])())
            recs.append(dict(kind="fn"))
    strs = [a for a in args if isinstance(a, str)]
    if limits and rng.random() < 0.15:
        args.insert(rng.randrange(len(args) + 1), "all")
        recs.append(dict(kind="limit", all=True, names=[]))
    elif strs:
        recs.append(dict(kind="limit", all=False, names=strs))
    return args, recs, fns


def wrap(rng, eid):
    """Physical-system wrappers that change the number of states."""
    m = eid.split("-")[2]
    remove = rng.random() < 0.5
    if m in ("PMSM", "SynRM", "EESM") and rng.random() < 0.4:
        return lambda: (pw.CosSinProcessor(remove_angle=remove),)
    if m == "ExtExDc" and rng.random() < 0.4:
        return lambda: (pw.CurrentSumProcessor(["i_a", "i_e"]),)
    if m in ("SCIM", "DFIM") and rng.random() < 0.5:
        return lambda: (pw.FluxObserver(),)
    return tuple


def make_env(rng, eid, cons, reward, rg=None):
    seen = Seen()
    kw = dict(constraints=cons, reward_function=reward, callbacks=(seen,), physical_system_wrappers=wrap(rng, eid)())
    if rg is not None:
        kw["reference_generator"] = rg
    for _ in range(50):
        try:
            env = envs.make(eid, **kw)
            env.reset()
            return env, seen
        except Exception as ex:
            if "nominal boundaries" not in str(ex):
                raise
    raise RuntimeError("no initial state found")


def base(env, recs, merge):
    ps = env.physical_system
    return dict(ev="setup", names=[str(n) for n in ps.state_names], low=vec(ps.state_space.low), high=vec(ps.state_space.high), cons=recs, merge=merge)


def random_state(rng, n):
    x = np.array([rng.uniform(-1, 1) for _ in range(n)])
    for _ in range(rng.choice([0, 0, 1, 2])):
        x[rng.randrange(n)] = rng.choice([-1.0, 1.0, rng.uniform(1.0, 1.5), -rng.uniform(1.0, 1.5), 0.0])
    if rng.random() < 0.3:
        x *= rng.choice([0.1, 0.3])
    return x


def on_edge(x, recs, names):
    """Squared constraints are not judged where rounding decides."""
    for r in recs:
        if r["kind"] == "squared":
            s = sum(x[names.index(n)] ** 2 for n in r["names"])
            if abs(s - 1) < 1e-9 and s != 1.0:
                return True
    return False


def reset_again(env):
    for _ in range(60):
        try:
            return env.reset()
        except Exception as ex:
            if "nominal boundaries" not in str(ex):
                raise


# ---------------------------------------------------------------------------------------------- C11
def monitor(c, tr, eid):
    """A ConstraintMonitor asked about arbitrary states."""
    rng = c.rng
    env = envs.make(eid, physical_system_wrappers=wrap(rng, eid)())
    ps = env.physical_system
    names = [str(n) for n in ps.state_names]
    args, recs, fns = constraint_set(rng, names)
    lim = [a for a in args if isinstance(a, str)]
    add = [a for a in args if not isinstance(a, str)]
    if "all" in lim:
        lim = rng.choice(["all_states", ["all_states"]]) if len(lim) == 1 else lim
    mk = rng.choice(["max", "product", "user"])
    user = MergeUser(rng)
    m = user if mk == "user" else mk
    cm = ConstraintMonitor(limit_constraints=lim, additional_constraints=add, merge_violations=m) if mk != "max" or rng.random() < 0.5 else \
        ConstraintMonitor(lim, add)
    if rng.random() < 0.3 and not any(r["names"] for r in recs if r["kind"] != "fn"):
        cm.set_modules(envs.make("Cont-CC-DFIM-v0").physical_system)      # used before with another system
    cm.set_modules(ps)
    tr.append(base(env, recs, mk))
    for _ in range(25 if c.quick else 80):
        x = random_state(rng, len(names))
        if on_edge(x, recs, names):
            continue
        for f in fns:
            f.log.clear()
        user.got, user.out = [], 0.0
        keep = x.copy()
        tot = cm.check_constraints(x)
        tr.append(dict(ev="look", x=vec(keep), ref=[], given=[fl(v) for f in fns for v in f.log], merged=vec(user.got), out=fl(user.out), total=fl(tot)))


def episodes(c, tr, eid):
    """Constraints of an environment: termination and the degree the reward function receives."""
    rng = c.rng
    names = [str(n) for n in envs.make(eid).physical_system.unwrapped.state_names]
    names = [n for n in names if n != "epsilon"]
    args, recs, fns = constraint_set(rng, names)
    mk, user, arg = "max", MergeUser(rng), tuple(args)
    form = rng.choice(["tuple", "list", "monitor"])
    if form == "list":
        arg = list(args)
    elif form == "monitor":
        mk = rng.choice(["max", "product", "user"])
        arg = ConstraintMonitor([a for a in args if isinstance(a, str)], [a for a in args if not isinstance(a, str)], user if mk == "user" else mk)
    env, seen = make_env(rng, eid, arg, DegreeReward())
    full = [str(n) for n in env.physical_system.state_names]
    tr.append(base(env, recs, mk))
    env.action_space.seed(rng.randrange(10**6))
    for n in range(40 if c.quick else 150):
        for f in fns:
            f.log.clear()
        user.got, user.out = [], 0.0
        _, rew, term, _, _ = env.step(env.action_space.sample())
        if not on_edge(seen.state, recs, full):
            tr.append(dict(ev="look", x=vec(seen.state), ref=[], given=[fl(v) for f in fns for v in f.log], merged=vec(user.got), out=fl(user.out),
                           term=bool(term), vrew=fl(rew)))
        if term:
            reset_again(env)


# ---------------------------------------------------------------------------------------------- C12
def reward_setting(rng, names):
    """Keyword arguments of WeightedSumOfErrors and the record of the specification."""
    kw, r = {}, dict(normed=False, gamma=fl(0.9), bias=fl(0.0), viol="none", wkind="none", wn=[], wv=[], pkind="number", p=fl(1), pn=[], pv=[])
    wk = rng.choice(["none", "dict", "dict", "list", "array"])
    if wk == "dict":
        sel = rng.sample(names, rng.randrange(1, min(4, len(names)) + 1))
        val = [rng.choice([1, rng.uniform(0.01, 3)]) for _ in sel]
        kw["reward_weights"] = dict(zip(sel, val))
        r.update(wkind="dict", wn=sel, wv=vec(val))
    elif wk != "none":
        val = [rng.choice([0.0, 0.0, rng.uniform(0.01, 2)]) for _ in names]
        val[rng.randrange(len(val))] = 0.7
        kw["reward_weights"] = val if wk == "list" else np.array(val)
        r.update(wkind="array", wv=vec(val))
    if rng.random() < 0.5:
        kw["normed_reward_weights"] = rng.random() < 0.7
        r["normed"] = kw["normed_reward_weights"]
    if rng.random() < 0.4:
        kw["violation_reward"] = rng.choice([-10.0, rng.uniform(-50, 5), 0, 0.0])
        r["viol"] = fl(kw["violation_reward"])
    if rng.random() < 0.5:
        kw["gamma"] = rng.choice([0.0, 0.5, 0.99])
        r["gamma"] = fl(kw["gamma"])
    if rng.random() < 0.6:
        b = rng.choice(["positive", "positive", rng.uniform(-1, 1), 1, rng.uniform(2, 6)])
        kw["bias"] = b
        r["bias"] = b if b == "positive" else fl(b)
    pk = rng.choice(["default", "number", "dict", "list"])
    if pk == "number":
        kw["reward_power"] = rng.choice([1, 2, 0.5, 1.5])
        r["p"] = fl(kw["reward_power"])
    elif pk != "default":
        pv = [rng.choice([0.5, 1, 2]) for _ in names]
        kw["reward_power"] = dict(zip(names, pv)) if pk == "dict" else pv
        r.update(pkind="dict" if pk == "dict" else "array", pn=names, pv=vec(pv))
    return kw, r


def complete(tr, env, r):
    ref = env.reference_generator.referenced_states
    tr[-1].update(r=r, referenced=[bool(x) for x in ref], range=vec(env.reward_range))


def formula(c, tr, eid):
    """The reward function asked directly for arbitrary states, references and degrees."""
    rng = c.rng
    e0 = envs.make(eid)
    names = [str(n) for n in e0.physical_system.state_names]
    kw, r = reward_setting(rng, names)
    keep = {k: (dict(v) if isinstance(v, dict) else copy.deepcopy(v)) for k, v in kw.items()}
    rg = rng.choice([None, MaskReference(rng, rng.choice([0.0, 0.3, 0.8]))])
    rf = WeightedSumOfErrors(**kw)
    if rng.random() < 0.4:      # the same reward function served the environment of another task (other references) before
        task = rng.choice([t for t in ("SC", "TC", "CC") if "-%s-" % t not in eid])
        other = "-".join([eid.split("-")[0], task] + eid.split("-")[2:])
        if other in envs.IDS:
            envs.make(other, reward_function=rf)
    env = envs.make(eid, reward_function=rf, **({} if rg is None else dict(reference_generator=rg)))
    tr.append(base(env, [dict(kind="fn")], "max"))
    complete(tr, env, r)
    assert all(np.all(np.asarray(kw[k]) == np.asarray(keep[k])) if not isinstance(kw[k], dict) else kw[k] == keep[k] for k in kw), "the user's settings were altered"
    low, high = env.physical_system.state_space.low, env.physical_system.state_space.high
    for n in range(25 if c.quick else 100):
        x = np.array([rng.uniform(max(l, -1), min(h, 1)) for l, h in zip(low, high)])
        ref = np.array([rng.uniform(max(l, -1), min(h, 1)) if rng.random() < 0.8 else xi for l, h, xi in zip(low, high, x)])
        if n % 5 == 0:
            x, ref = np.array([rng.choice([l, h]) for l, h in zip(low, high)]), np.array([rng.choice([l, h]) for l, h in zip(low, high)])
        if n % 7 == 0:
            x = random_state(rng, len(names))
        d = rng.choice([0.0, 0.0, 1.0, rng.random()])
        tr.append(dict(ev="look", x=vec(x), ref=vec(ref), given=[fl(d)], merged=[], out=fl(0.0), rew=fl(rf.reward(x, ref, n, None, d))))


def rewarded(c, tr, eid):
    """The reward of environments."""
    rng = c.rng
    e0 = envs.make(eid)
    base_names = [str(n) for n in e0.physical_system.unwrapped.state_names]
    names = [n for n in base_names if n != "epsilon"]
    args, recs, fns = constraint_set(rng, names)
    seen = Seen()
    rg = rng.choice([None, MaskReference(rng, rng.choice([0.0, 0.3, 0.8]))])
    wrap_ = wrap(rng, eid)
    probe = envs.make(eid, physical_system_wrappers=wrap_())
    full = [str(n) for n in probe.physical_system.state_names]
    kw, r = reward_setting(rng, full)
    rw = WeightedSumOfErrors(**kw)
    user = MergeUser(rng)
    merge = rng.choice(["max", "max", "product", "user"])
    cm = tuple(args) if merge == "max" else ConstraintMonitor([a for a in args if isinstance(a, str)], [a for a in args if not isinstance(a, str)], user if merge == "user" else merge)
    env = envs.make(eid, physical_system_wrappers=wrap_(), constraints=cm, reward_function=rw, callbacks=(seen,), **({} if rg is None else dict(reference_generator=rg)))
    reset_again(env)
    tr.append(base(env, recs, merge))
    complete(tr, env, r)
    env.action_space.seed(rng.randrange(10**6))
    for n in range(30 if c.quick else 120):
        for f in fns:
            f.log.clear()
        user.got, user.out = [], 0.0
        _, rew, term, _, _ = env.step(env.action_space.sample())
        if not on_edge(seen.state, recs, full):
            tr.append(dict(ev="look", x=vec(seen.state), ref=vec(seen.ref), given=[fl(v) for f in fns for v in f.log], merged=vec(user.got), out=fl(user.out), rew=fl(rew)))
        if term:
            reset_again(env)


def run(c, what, fns):
    cfg = ("Vals <- SmallVals\nRefs <- SmallRefs\nWeight <- SmallWeight\nPowers <- SmallPowers\nBiases <- SmallBiases\nViols <- SmallViols\nDegs <- SmallDegs")
    c.model("MCReward", cfg, ["Merging", "Stronger"] if what == "C11" else ["InRange", "Positive", "Worst", "Blend"])
    traces, names = [], []
    for fn, ids in fns:
        for eid in ids:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                traces.append(vf.scenario(lambda tr: fn(c, tr, eid)))
            names.append("%s %s" % (fn.__name__, eid))
    c.validate("RewardTrace", traces, names, constants='What = "%s"' % what)

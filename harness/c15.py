"""C15: observations. Spec: Observation; MCObservation (design), ObservationTrace (conformance)."""
import warnings
import numpy as np
import gymnasium
import vf, envs
from vf import fl, vec
from c14 import leaf
from c17 import load_for
from rewards import reset_again
import gym_electric_motor.reference_generators as rgs
from gym_electric_motor.core import Callback
from gym_electric_motor.observers import StateObserver
from gym_electric_motor import physical_systems as psy
from gym_electric_motor import physical_system_wrappers as pw
from gym_electric_motor.physical_systems import converters as cv
from gym_electric_motor.reward_functions import WeightedSumOfErrors


class Reward(WeightedSumOfErrors):
    """The default reward; remembers what it is computed from."""
    def reward(self, state, reference, *a, **k):
        self.x, self.r = np.array(state, dtype=float), np.array(reference, dtype=float)
        return super().reward(state, reference, *a, **k)


class Seen(Callback):
    def on_reset_end(self, state, reference):
        self.x, self.r = np.array(state, dtype=float), np.array(reference, dtype=float)

    def on_step_end(self, k, state, reference, reward, done):
        self.x, self.r = np.array(state, dtype=float), np.array(reference, dtype=float)


def wrappers(rng, m):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["cossin", "sum", "dead", "vec"])
        if k == "cossin" and m in ("PMSM", "SynRM", "EESM") and not any(isinstance(o, pw.CosSinProcessor) for o in out):
            out.append(pw.CosSinProcessor(remove_angle=rng.random() < 0.6))
        elif k == "sum" and m in ("ExtExDc", "SCIM", "DFIM") and not any(isinstance(o, pw.CurrentSumProcessor) for o in out):  # a second one would give two states the same name
            out.append(pw.CurrentSumProcessor(["i_a", "i_e"] if m == "ExtExDc" else ["i_sd", "i_sq"], limit=rng.choice(["max", "sum"])))
        elif k == "dead":
            out.append(pw.DeadTimeProcessor(steps=rng.randrange(1, 4)))
    return tuple(out)


def converter(rng, m, kind):
    """DC motors on every converter topology."""
    if m not in envs.MOTORS[:4] or rng.random() < 0.3:
        return None, False
    q = rng.choice(["One", "Two", "Two", "Four"])
    cls = getattr(cv, "%s%sQuadrantConverter" % (kind, q))
    if m == "ExtExDc":
        q2 = rng.choice(["One", "Two", "Four"])
        multi = getattr(cv, "%sMultiConverter" % kind)
        return multi([cls(), getattr(cv, "%s%sQuadrantConverter" % (kind, q2))()]), "One" in (q, q2)
    return cls(), q == "One"


def ref_gen(c, env_ps):
    """A generator (tree) for states of the system; names in any order."""
    rng = c.rng
    names = [str(n) for n in env_ps.state_names if n in ("omega", "torque", "i", "i_a", "i_e", "i_sd", "i_sq", "i_sum", "u_sd")]
    k = rng.choice(["leaf", "multi", "multi", "switch", "multi_switch"])
    if k == "leaf" or len(names) < 2:
        return leaf(c, rng.choice(names), env_ps)
    if k == "switch":
        n = rng.choice(names)
        return rgs.SwitchedReferenceGenerator([leaf(c, n, env_ps) for _ in range(rng.randrange(1, 4))], super_episode_length=rng.choice([3, (2, 9), (20, 30)]))
    sel = rng.sample(names, rng.randrange(2, min(4, len(names)) + 1))
    sub = [leaf(c, n, env_ps) for n in sel]
    if k == "multi_switch":
        sub[0] = rgs.SwitchedReferenceGenerator([leaf(c, sel[0], env_ps) for _ in range(2)], super_episode_length=(2, 9))
    return rgs.MultipleReferenceGenerator(sub)


def session(tr, c, eid, forced=False):
    rng = c.rng
    kind, _, m = eid.split("-")[:3]
    conv, one = converter(rng, m, kind)
    if forced:
        conv, one = cv.FiniteOneQuadrantConverter(), True
    conv_kw = dict(converter=conv) if conv is not None else {}
    kw = dict(tau=rng.choice([1e-5, 1e-4]))
    if rng.random() < 0.5:
        kw["load"] = load_for(rng, m) if m in envs.MOTORS[4:] else rng.choice([
            lambda: psy.PolynomialStaticLoad(dict(a=rng.uniform(0, 0.5), b=0.01, c=0.0, j_load=1e-3)), lambda: psy.ConstantSpeedLoad(omega_fixed=rng.uniform(0, 100)),
            lambda: psy.ExternalSpeedLoad(lambda t: 50 * (1 - np.cos(50 * t)), tau=kw["tau"])])()
    if forced:
        kw["load"] = psy.ConstantSpeedLoad(omega_fixed=50.0)
    ws = wrappers(rng, m) if not forced else ()
    cons = rng.choice([("all",), ("all",), None, ()])
    if cons is not None:
        kw["constraints"] = cons
    own = rng.random() < 0.3
    tmp = envs.make(eid, **dict(kw))
    names = [str(n) for n in tmp.physical_system.state_names]
    rg = None if own else ref_gen(c, tmp.physical_system)
    wnames = [n for n in names]
    for w in ws:
        if isinstance(w, pw.CosSinProcessor):
            wnames += ["cos(epsilon)", "sin(epsilon)"]
    known = list(wnames)
    filt = []
    style = rng.choice(["none", "subset", "subset", "perm", "one"])
    gone = "epsilon" if any(isinstance(w, pw.CosSinProcessor) for w in ws) else None      # perhaps removed
    cand = [n for n in known if n != gone]
    if style == "subset":
        filt = rng.sample(cand, rng.randrange(1, len(cand) + 1))
    elif style == "perm":
        filt = rng.sample(cand, len(cand))
    elif style == "one":
        filt = [rng.choice(cand)]
    filt = filt if not forced else []
    filt_arg = None if not filt else rng.choice([list, tuple])(filt)
    rf, seen = Reward(reward_weights={rng.choice([n for n in names if n != gone]): 1.0}, bias=rng.choice([0.0, "positive"])), Seen()
    env = envs.make(eid, state_filter=filt_arg, physical_system_wrappers=ws, reward_function=rf, callbacks=(seen,), **kw, **conv_kw,
                    **({} if rg is None else dict(reference_generator=rg)))
    ps, sp = env.physical_system, env.observation_space
    full = [str(n) for n in ps.state_names]
    tr.append(dict(ev="env", sys=dict(names=full, limits=vec(ps.limits), nominal=vec(ps.nominal_state), low=vec(ps.state_space.low), high=vec(ps.state_space.high)),
                   filter=filt, shown=dict(names=[str(n) for n in env.state_names], limits=vec(env.limits), nominal=vec(env.nominal_state), low=vec(sp[0].low), high=vec(sp[0].high)),
                   struct=bool(isinstance(sp, gymnasium.spaces.Tuple) and len(sp) == 2 and sp[0].dtype == np.float64),
                   ridx=[full.index(n) + 1 for n in env.reference_names], rspace=dict(low=vec(sp[1].low), high=vec(sp[1].high)), onequadrant=bool(one)))
    env.action_space.seed(rng.randrange(10 ** 6))
    last, scribble = None, rng.random() < 0.3

    def rec(ev, obs):
        e = dict(ev=ev, x=vec(seen.x), ref=vec(seen.r), obs=vec(obs[0]), refobs=vec(obs[1]), member=bool(sp.contains(obs)))
        if ev == "step":
            e.update(rref=vec(rf.r), rx=vec(rf.x))
        tr.append(e)

    watch = StateObserver(rng.choice([env, gymnasium.wrappers.OrderEnforcing(env)]))

    def look():
        all_names = [str(n) for n in env.state_names] + [str(n) + "_ref" for n in env.reference_names]
        seen_names = rng.sample(all_names, rng.randrange(1, len(all_names) + 1))
        got = [watch.observe(n) for n in seen_names]
        refused = False
        if rng.random() < 0.3:
            try:
                watch.observe(rng.choice(["no such state", "omega_ref_ref"]))
            except ValueError:
                refused = True
        else:
            refused = True
        tr.append(dict(ev="look", asked=[n if n in env.state_names else "" for n in seen_names], refs=["" if n in env.state_names else n[:-4] for n in seen_names],
                       refnames=[str(n) for n in env.reference_names], named=[str(g[0]) for g in got] == seen_names, vals=[fl(g[1]) for g in got], refused=refused))

    def again():
        if last is not None:
            tr.append(dict(ev="after", obs=vec(last[0]), refobs=vec(last[1])))
    for ep in range(3):
        last, _ = reset_again(env)
        rec("reset", last)
        if rng.random() < 0.3:
            look()
        a = env.action_space.sample()
        for n in range(rng.choice([2, 8, 25, 40])):
            if rng.random() < 0.6:
                a = env.action_space.sample()
            if scribble:                       # what a user does with the arrays returned to him has no effect
                last[0][:], last[1][:] = 7.0, -7.0
            obs, _, term, _, _ = env.step(a)
            if rng.random() < 0.3 and not scribble:
                again()
            last = obs
            if rng.random() < 0.1:
                env.render()
            rec("step", last)
            if rng.random() < 0.15:
                look()
            if term:
                break
        if not scribble:
            again()


def run(c):
    q = c.quick
    c.model("MCObservation", 'Base <- SmallBase\nExtra = {"c", "d"}\nMaxLen = %d\nMaxT = %d\nRefs = {0, 1}' % (3 if q else 4, 3), ["Labels", "Order"], ["NextRewarded"])
    traces, names = [], []
    for r in range(2 if q else 12):
        for eid in envs.IDS:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                traces.append(vf.scenario(session, c, eid))
            h = traces[-1][0] if traces[-1] else {}
            names.append("%s/%d%s" % (eid, r, " one-quadrant" if h.get("onequadrant") else ""))
    for eid in ("Finite-CC-PermExDc-v0", "Finite-TC-PermExDc-v0"):
        traces.append(vf.scenario(session, c, eid, True))
        names.append(eid + " constant speed one-quadrant")
    c.validate("ObservationTrace", traces, names, chunk=60)
    c.assumptions += ["membership is claimed for observations whose states are all within their limits (a state beyond a limit that no constraint monitors may leave the space)"]

"""C04: isolation of environment instances. Spec: History; MCIsolation (design, schedules), HistoryTrace (conformance)."""
import multiprocessing, os, random, signal, sys, traceback, warnings
import numpy as np
import vf, envs, scml, motors
import histories as hs
from gym_electric_motor import reference_generators as rg, reward_functions as rf, physical_system_wrappers as pw
from gym_electric_motor.physical_systems import voltage_supplies as vs, solvers as so, mechanical_loads as ml, converters as cv, electric_motors as em
from gym_electric_motor.callbacks import RampingLimitMargin
from gym_electric_motor.constraints import SquaredConstraint

P1 = ["new", "reset", "step", "step", "reset", "step"]
P2 = ["new", "reset", "step", "close"]
P3 = [["new", "reset", "step"], ["new", "reset", "step"], ["new", "reset"]]

def of(eid, others, kw):
    """A builder for an environment with the given components; used: the same objects served an environment of another kind before."""
    def build(cb, used=None):
        comp = {k: v() for k, v in kw.items()}
        if used is not None:
            env = envs.make(others[used % len(others)], **comp)
            env.reset(seed=4)
            env.action_space.seed(8)
            for _ in range(3):
                if env.step(env.action_space.sample())[2]:
                    env.reset()
        return envs.make(eid, callbacks=cb, **comp)
    return build


def sc(**kw):
    """A builder for a direct current environment with the given components."""
    return of("Cont-SC-PermExDc-v0", ["Cont-SC-SeriesDc-v0", "Cont-CC-PermExDc-v0", "Cont-TC-SeriesDc-v0"], kw)


def ac(**kw):
    return of("Finite-CC-PMSM-v0", ["Finite-TC-SynRM-v0", "Finite-SC-PMSM-v0", "Finite-CC-SynRM-v0"], kw)


def ramp(**kw):
    return lambda cb: envs.make("Cont-SC-PermExDc-v0", callbacks=list(cb) + [RampingLimitMargin(**kw)])


def both(mk, key, **variants):
    return {n: mk(**{key: f}) for n, f in variants.items()}


def wave(cls, **kw):
    return {"default": sc(reference_generator=lambda: cls(reference_state="omega")), "own": sc(reference_generator=lambda: cls(reference_state="omega", **kw))}


# variants of one component class with default and with own parameters: what one is given must not become the default of the other
GROUPS = {
    "rc": both(sc, "supply", default=lambda: vs.RCVoltageSupply(u_nominal=60.0), own=lambda: vs.RCVoltageSupply(u_nominal=60.0, supply_parameter={"R": 2.0, "C": 1e-2}),
               dict=lambda: vs.RCVoltageSupply(60.0, dict(R=0.5, C=2e-2))),
    "ac1": both(sc, "supply", default=lambda: vs.AC1PhaseSupply(u_nominal=60.0), own=lambda: vs.AC1PhaseSupply(u_nominal=60.0, supply_parameter={"frequency": 33.0, "phase": 0.4}),
                phase=lambda: vs.AC1PhaseSupply(u_nominal=60.0, supply_parameter={"frequency": 21.0})),
    "ideal": both(sc, "supply", default=lambda: vs.IdealVoltageSupply(), own=lambda: vs.IdealVoltageSupply(u_nominal=48.0), override=lambda: dict(u_nominal=72.0)),
    "poly": both(sc, "load", default=lambda: ml.PolynomialStaticLoad(), own=lambda: ml.PolynomialStaticLoad(load_parameter=dict(a=0.2, b=0.1, c=0.05, j_load=0.1), limits=dict(omega=210.0)),
                 init=lambda: ml.PolynomialStaticLoad(load_initializer={"states": {"omega": 7.0}, "interval": [[1.0, 20.0]], "random_init": "uniform", "random_params": (None, None)}),
                 override=lambda: dict(load_parameter=dict(a=0.3, b=0.2))),
    "ou": both(sc, "load", default=lambda: ml.OrnsteinUhlenbeckLoad(), own=lambda: ml.OrnsteinUhlenbeckLoad(mu=20.0, sigma=5.0, theta=2.0)),
    "const": both(sc, "load", default=lambda: ml.ConstantSpeedLoad(), own=lambda: ml.ConstantSpeedLoad(omega_fixed=33.0)),
    "ext": both(sc, "load", a=lambda: ml.ExternalSpeedLoad(lambda t, w=10.0: w * t, tau=1e-4), b=lambda: ml.ExternalSpeedLoad(lambda t, w=10.0: w * t, tau=1e-4, speed_profile_kwargs=dict(w=300.0))),
    "solver": both(sc, "ode_solver", default=lambda: so.ScipyOdeSolver(), own=lambda: so.ScipyOdeSolver("dop853", rtol=1e-3, first_step=1e-5), euler=lambda: so.EulerSolver(),
                   euler3=lambda: so.EulerSolver(nsteps=3), ivp=lambda: so.ScipySolveIvpSolver(), ivpown=lambda: so.ScipySolveIvpSolver(method="Radau", rtol=1e-5), override=lambda: dict(nsteps=77),
                   oint=lambda: so.ScipyOdeIntSolver(), ointown=lambda: so.ScipyOdeIntSolver(hmax=1e-5)),
    "dead": both(ac, "physical_system_wrappers", none=lambda: (), default=lambda: (pw.DeadTimeProcessor(),), own=lambda: (pw.DeadTimeProcessor(steps=3),), reset=lambda: (pw.DeadTimeProcessor(steps=2, reset_action=lambda: [3, 5]),)),
    "noise": both(sc, "physical_system_wrappers", default=lambda: (pw.StateNoiseProcessor(states="all"),), own=lambda: (pw.StateNoiseProcessor(states=["omega"], random_kwargs=dict(loc=0.1, scale=0.3)),),
                  uniform=lambda: (pw.StateNoiseProcessor(states=["i"], random_dist="uniform", random_kwargs=dict(low=-0.2, high=0.0)),)),
    "cossin": both(ac, "physical_system_wrappers", keep=lambda: (pw.CosSinProcessor("epsilon"),), drop=lambda: (pw.CosSinProcessor("epsilon", remove_angle=True),), none=lambda: ()),
    "sum": both(ac, "physical_system_wrappers", a=lambda: (pw.CurrentSumProcessor(["i_a", "i_b"]),), b=lambda: (pw.CurrentSumProcessor(["i_sd", "i_sq"], limit="sum"),)),
    "multi": {"a": lambda cb: envs.make("Finite-TC-ExtExDc-v0", callbacks=cb, converter=cv.FiniteMultiConverter(subconverters=[cv.FiniteFourQuadrantConverter, cv.FiniteTwoQuadrantConverter], interlocking_time=1e-6)),
              "b": lambda cb: envs.make("Finite-TC-ExtExDc-v0", callbacks=cb), "c": lambda cb: envs.make("Finite-TC-ExtExDc-v0", callbacks=cb, converter=cv.FiniteMultiConverter(subconverters=[cv.FiniteTwoQuadrantConverter, cv.FiniteTwoQuadrantConverter]))},
    "conv": both(ac, "converter", default=lambda: cv.FiniteB6BridgeConverter(), own=lambda: cv.FiniteB6BridgeConverter(interlocking_time=2e-6), override=lambda: dict(interlocking_time=4e-6)),
    "contconv": both(sc, "converter", default=lambda: cv.ContFourQuadrantConverter(), own=lambda: cv.ContFourQuadrantConverter(interlocking_time=2e-5), two=lambda: cv.ContTwoQuadrantConverter(interlocking_time=1e-5), one=lambda: cv.ContTwoQuadrantConverter()),
    "reward": both(sc, "reward_function", default=lambda: rf.WeightedSumOfErrors(), own=lambda: rf.WeightedSumOfErrors(reward_weights=dict(i=2.0, omega=1.0), gamma=0.5, bias=0.1, reward_power=2),
                   normed=lambda: rf.WeightedSumOfErrors(reward_weights=dict(i=2.0), normed_reward_weights=True, bias="positive"), override=lambda: dict(reward_weights=dict(torque=3.0)),
                   power=lambda: rf.WeightedSumOfErrors(reward_power=dict(omega=0.5), violation_reward=-7.0)),
    "constraints": both(ac, "constraints", default=lambda: ("i_a", "i_b"), own=lambda: ["omega"], squared=lambda: (SquaredConstraint(("i_sd", "i_sq")),), none=lambda: (), all=lambda: ("all",)),
    "filter": both(ac, "state_filter", none=lambda: None, some=lambda: ["i_sq", "omega"], others=lambda: ["epsilon", "u_a", "torque"]),
    "tau": both(ac, "tau", a=lambda: 1e-5, b=lambda: 4e-5, c=lambda: 2e-6),
    "wiener": wave(rg.WienerProcessReferenceGenerator, sigma_range=(0.1, 0.2), episode_lengths=(3, 5), initial_range=(0.2, 0.3), limit_margin=0.5),
    "laplace": wave(rg.LaplaceProcessReferenceGenerator, sigma_range=(0.1, 0.2), episode_lengths=(3, 5), limit_margin=(0.1, 0.4)),
    "sin": wave(rg.SinusoidalReferenceGenerator, amplitude_range=(0.1, 0.2), frequency_range=(100, 200), offset_range=(0.1, 0.2), episode_lengths=(3, 5)),
    "tri": wave(rg.TriangularReferenceGenerator, amplitude_range=(0.1, 0.2), frequency_range=(100, 200), offset_range=(0.1, 0.2), episode_lengths=(3, 5)),
    "saw": wave(rg.SawtoothReferenceGenerator, amplitude_range=(0.1, 0.2), frequency_range=(100, 200), offset_range=(0.1, 0.2), episode_lengths=(3, 5)),
    "step": wave(rg.StepReferenceGenerator, amplitude_range=(0.1, 0.2), frequency_range=(100, 200), offset_range=(0.1, 0.2), episode_lengths=(3, 5)),
    "constref": both(sc, "reference_generator", default=lambda: rg.ConstReferenceGenerator(), own=lambda: rg.ConstReferenceGenerator("i", 0.3), zero=lambda: rg.ZeroReferenceGenerator(),
                     override=lambda: dict(sigma_range=(0.3, 0.4))),
    "switched": both(sc, "reference_generator", a=lambda: hs.switched("omega"), b=lambda: rg.SwitchedReferenceGenerator([rg.ConstReferenceGenerator("omega", 0.1), rg.ConstReferenceGenerator("omega", 0.2)])),
    "multiref": both(ac, "reference_generator", default=lambda: None, one=lambda: rg.ConstReferenceGenerator("i_sd", 0.2),
                     args=lambda: rg.MultipleReferenceGenerator([rg.WienerProcessReferenceGenerator, rg.StepReferenceGenerator], sub_args=[dict(reference_state="i_sq"), dict(reference_state="i_sd", episode_lengths=(2, 4))])),
    "ramp": {"none": sc(), "default": ramp(), "own": ramp(initial_limit_margin=(-0.1, 0.1), maximum_limit_margin=(-1, 1), update_freq=1, update_time="step")},
}


# dictionaries a user passes to several environments
SHARED = dict(par={m: {n: v * 1.1 for n, v in p.items() if n != "p"} for m, p in scml.specdefaults.PARAMS.items()}, lim=dict(omega=321.0), nom=dict(omega=300.0, u=50.0),
              ini={m: hs.initializer(m, "uniform") for m in scml.STATES}, load=dict(a=0.01, j_load=1e-3), lini={"states": {"omega": 0.0}, "interval": [[-20.0, 20.0]], "random_init": "uniform",
              "random_params": (None, None)}, sup={"R": 0.3, "C": 1e-2}, rew=dict(omega=2.0), constraints=["torque", "omega"])


def configurations():
    """Name -> builder.  Pairs of the same class with different settings stress shared class attributes and default arguments."""
    d = {}
    for eid in envs.IDS:
        d[eid] = hs.plain(eid)
    for m in envs.MOTORS:
        par = {n: v * 1.3 for n, v in scml.specdefaults.PARAMS[m].items() if n != "p"}
        d["own-" + m] = lambda cb, m=m, par=par: envs.make("Finite-CC-%s-v0" % m, callbacks=cb, tau=2e-5, constraints=(), motor=motors.CLS[m](
            motor_parameter=dict(par), limit_values=dict(omega=123.0, u=77.0), nominal_values=dict(omega=100.0)),
            load=ml.PolynomialStaticLoad(load_parameter=dict(a=0.02, j_load=3e-3), load_initializer={"states": {"omega": 0.0 if m in scml.IM else 11.0}}),
            supply=vs.IdealVoltageSupply(u_nominal=77.0), physical_system_wrappers=(pw.DeadTimeProcessor(steps=2),))
        d["dict-" + m] = lambda cb, m=m: envs.make("Cont-SC-%s-v0" % m, callbacks=cb, motor=dict(limit_values=dict(omega=222.0)), load=dict(load_parameter=dict(a=0.05)),
                                                   supply=dict(u_nominal=66.0))
        d["init-" + m] = lambda cb, m=m: envs.make("Cont-CC-%s-v0" % m, callbacks=cb, motor=motors.CLS[m](motor_initializer=hs.initializer(m, "uniform")))
        d["shared-" + m] = lambda cb, m=m: envs.make("Finite-SC-%s-v0" % m, callbacks=cb, constraints=SHARED["constraints"], tau=1e-5,
            motor=motors.CLS[m](motor_parameter=SHARED["par"][m], limit_values=SHARED["lim"], nominal_values=SHARED["nom"], motor_initializer=SHARED["ini"][m]),
            load=ml.PolynomialStaticLoad(load_parameter=SHARED["load"], load_initializer=SHARED["lini"]), supply=vs.RCVoltageSupply(60.0, supply_parameter=SHARED["sup"]),
            reward_function=rf.WeightedSumOfErrors(reward_weights=SHARED["rew"]))
    for group, variants in GROUPS.items():
        for v, build in variants.items():
            d["%s:%s" % (group, v)] = build
            if group not in ("multi", "ramp"):
                for o in range(1 if (group, v) == ("poly", "override") else 3):      # current control has another load
                    d["used%d~%s:%s" % (o, group, v)] = lambda cb, build=build, o=o: build(cb, o)
    return d


def components(k):
    """Construct (and use) components on their own, as user code does."""
    for m in scml.specdefaults.PARAMS:
        mo = motors.CLS[m](motor_parameter={n: v * (1.5 + k) for n, v in list(scml.specdefaults.PARAMS[m].items())[:3] if n != "p"}, limit_values=dict(omega=50.0 + k), nominal_values=dict(omega=40.0 + k))
        mo.motor_parameter.update(p=99)
    for ld in (ml.PolynomialStaticLoad(load_parameter=dict(a=0.5, j_load=1.0), load_initializer={"states": {"omega": 5.0 + k}}), ml.PolynomialStaticLoad(), ml.ConstantSpeedLoad(3.0), ml.OrnsteinUhlenbeckLoad()):
        ld.set_j_rotor(0.1)
        ld.initializer
    for cl in (cv.FiniteTwoQuadrantConverter, cv.ContTwoQuadrantConverter, cv.FiniteB6BridgeConverter, cv.ContB6BridgeConverter, cv.FiniteFourQuadrantConverter, cv.ContFourQuadrantConverter):
        x = cl(tau=7e-5, interlocking_time=1e-6)
        x.reset()
        x.set_action(x.action_space.sample(), 0.0)
    for s in (vs.RCVoltageSupply(u_nominal=5.0 + k), vs.AC1PhaseSupply(u_nominal=6.0), vs.AC3PhaseSupply(u_nominal=7.0)):
        s.reset()
        s.get_voltage(1e-3, 1.0)
    rf.WeightedSumOfErrors(reward_weights=dict(omega=5.0))
    rg.WienerProcessReferenceGenerator(reference_state="i"), rg.SwitchedReferenceGenerator([rg.ConstReferenceGenerator("i", 0.1)])


def fresh(n):
    """The configuration with components that were not used before."""
    return n.split("~")[-1]


class Player:
    """Executes schedules; instance k follows the program of configuration names[k]."""
    def __init__(self, names, builders):
        self.names, self.builders = names, builders
        self.inst, self.tr, self.acts = {}, [], {}

    def do(self, k, op, base="I"):
        iid = "%s%d" % (base, k)
        if op == "new":
            self.inst[k] = hs.Instance(self.builders[k])
            self.acts[k] = 0
            self.tr.append(dict(ev="new", id=iid, cfg="%s" % fresh(self.names[k]), d=self.inst[k].look()))
        elif op == "reset":
            self.acts[k] += 1
            d, _, _ = self.inst[k].reset(31 if self.acts[k] == 1 else None)
            self.tr.append(dict(ev="reset", id=iid, seed="s" if self.acts[k] == 1 else "none", d=d))
        elif op == "step":
            for _ in range(3):
                self.acts[k] += 1
                a = self.acts[k] % 4
                if self.inst[k].dead:
                    break
                d, _ = self.inst[k].step(a)
                # the user draws from the action space of this environment as well
                self.tr.append(dict(ev="step", id=iid, a="a%d" % a, d=hs.digest(d, self.inst[k].env.action_space.sample())))
        elif op == "close":
            self.inst[k].env.close()
        if op != "close":
            self.tr.append(dict(ev="look", id=iid, d=self.inst[k].look()))


def job(args):
    """In a process of its own, that never built an environment before."""
    names, progs, sched, extra = args
    signal.alarm(100)
    warnings.simplefilter("ignore")
    cfgs = configurations()
    p = Player(names, [cfgs[n] for n in names])
    pc = [0] * len(names)
    try:
        for n, k in enumerate(sched):
            if extra and n % 2 == 0:
                components(n)
            p.do(k, progs[k][pc[k]])
            pc[k] += 1
    except Exception as ex:
        last = traceback.extract_tb(ex.__traceback__)[-1]
        p.tr.append(dict(ev="exc", msg="%s: %s (%s:%s)" % (type(ex).__name__, str(ex)[:150].replace('"', "'"), os.path.basename(last.filename), last.lineno)))
    return p.tr


def merge(tr, base):
    return [dict(e, id=base + e["id"]) if "id" in e else e for e in tr]


def run(c):
    pn = "Progs <- TwoProgs"
    c.model("MCIsolation", 'N = 2\nProgs <- TwoProgs\nImpure = {}', ["OwnOnly"])
    two = c.generate("MCIsolation", 'N = 2\nProgs <- TwoProgs\nImpure = {}', "INVARIANT Emit\n")
    three = c.generate("MCIsolation", 'N = 3\nProgs <- ThreeProgs\nImpure = {}', "INVARIANT Emit\n")
    c.extra["schedules_enumerated"] = len(two) + len(three)
    names = [n for n in configurations() if "~" not in n]
    rng = c.rng
    jobs = []
    # same family together: ids of one motor, own parameters, dict overrides
    fam = [[n for n in names if n.split("-")[-2 if n.endswith("v0") else -1] == m] for m in envs.MOTORS]
    rest = [n for n in names if not any(n in f for f in fam)]
    pick = lambda: rng.choice(rng.choice(fam)) if rng.random() < 0.75 else rng.choice(rest + names)
    scheds = [(s, [P1, P2]) for s in (two if not c.quick else rng.sample(two, 190))] + [(s, P3) for s in (rng.sample(three, 110 if c.quick else 900))]
    groups = [["%s:%s" % (g, v) for v in vs_] for g, vs_ in GROUPS.items()]
    turn = 0
    for s, progs in scheds:
        r = rng.random()
        if r < 0.5:
            f = groups[turn % len(groups)]
            turn += 1
        else:
            f = rng.choice(fam) if r < 0.9 else rest + names
        ns = rng.sample(f, len(progs)) if len(f) >= len(progs) and rng.random() < 0.8 else [rng.choice(f) for _ in progs]
        jobs.append((ns, progs, [k - 1 for k in s], rng.random() < 0.4))
    used = [n for n in configurations() if "~" in n]
    for n in used:
        jobs.append(([n], [P1], [0] * len(P1), False))
    solo = {}
    for j in jobs:
        for k, n in enumerate(j[0]):
            solo[(fresh(n), k, len(j[1][k]) if k else len(j[1][k]), tuple(j[1][k]))] = None
    keys = list(solo)
    sjobs = [([n] * (k + 1), [list(p)] * (k + 1), [k] * len(p), False) for n, k, _, p in keys]
    ctx = multiprocessing.get_context("fork")
    res = pooled(ctx, sjobs + jobs)
    for key, r in zip(keys, res):
        solo[key] = r
    traces, tnames = [], []
    for j, r in zip(jobs, res[len(sjobs):]):
        tr = [dict(ev="mode", mode="own", det=False)]
        for k, n in enumerate(j[0]):
            tr += merge(solo[(fresh(n), k, len(j[1][k]), tuple(j[1][k]))], "solo%d-" % k)
        traces.append(tr + merge(r, "both-"))
        tnames.append("+".join(j[0]) + (" with components" if j[3] else "") + " schedule " + "".join(str(k) for k in j[2]))
    c.validate("HistoryTrace", traces, tnames)
    c.extra["configurations"] = len(names)
    c.assumptions += ["C04: every schedule runs in a process of its own; the answers of an instance running alone are the reference"]


def one(args, conn):
    conn.send(job(args))
    conn.close()


def pooled(ctx, jobs):
    """Every job in a freshly forked process (no environment was built in the parent)."""
    out, running, todo = [None] * len(jobs), {}, list(range(len(jobs)))[::-1]
    while todo or running:
        while todo and len(running) < 8:
            i = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=one, args=(jobs[i], b))
            p.start()
            b.close()
            running[a] = (i, p)
        for a in multiprocessing.connection.wait(list(running), timeout=120):
            i, p = running.pop(a)
            try:
                out[i] = a.recv()
            except EOFError:
                out[i] = [dict(ev="exc", msg="the process ended without an answer (time limit)")]
            p.join()
    return out


import multiprocessing.connection

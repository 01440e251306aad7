"""C22: registered environments. Spec: Registry; MCRegistry (table, overrides), RegistryTrace (conformance)."""
import copy, hashlib, warnings
import numpy as np
import gymnasium
import gym_electric_motor as gem
import gym_electric_motor.reference_generators as rgs
from gym_electric_motor import physical_systems as ps, reward_functions as rfs, ElectricMotorEnvironment
from gym_electric_motor.physical_systems import converters as cv, solvers as so, voltage_supplies as vs, mechanical_loads as ml, electric_motors as em, physical_systems as sy
from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint
from gym_electric_motor.core import Callback, ElectricMotorVisualization
from gym_electric_motor.visualization import MotorDashboard
from gym_electric_motor import physical_system_wrappers as pw
import vf, envs
from vf import fl, vec

SPACES = [ps, cv, so, vs, ml, em, sy, rgs, rfs]
SLOTS = ["supply", "converter", "motor", "load", "ode_solver", "reference_generator", "reward_function", "visualization"]
AC = envs.MOTORS[4:]


def cls_of(name):
    if name == "MotorDashboard":
        return MotorDashboard
    for m in SPACES:
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def value(v):
    """JSON of the specification to Python arguments."""
    if isinstance(v, dict):
        return build(v) if set(v) == {"cls", "args"} else {k: value(x) for k, x in v.items()}
    if isinstance(v, list):
        return tuple(value(x) for x in v)
    try:
        return float(v)
    except ValueError:
        return v


def args_of(c):
    return {k: value(v) for k, v in (c["args"] or {}).items()} if isinstance(c["args"], dict) else {}


def build(c, **more):
    return cls_of(c["cls"])(**dict(args_of(c), **more))


def cons_of(row):
    return tuple(SquaredConstraint(tuple(k["names"])) if k["kind"] == "squared" else LimitConstraint(tuple(k["names"])) for k in row["constraints"])


class Vis(ElectricMotorVisualization):
    def render(self):
        pass


class CB(Callback):
    pass


class Spy(so.EulerSolver):
    """Remembers whether it was handed a Jacobian."""
    jac = "not used"

    def set_system_equation(self, system_equation, jac=None):
        Spy.jac = repr(jac is not None)
        return super().set_system_equation(system_equation, jac)


def dict_override(rng, row, slot, m):
    kind = row["id"].split("-")[0]
    if slot == "supply":
        return dict(u_nominal=rng.choice([48.0, 200.0, 333.0]))
    if slot == "converter":
        if len(row["switches"]) == 1:
            return dict(interlocking_time=rng.choice([1e-6, 3e-6]))
        b = [getattr(cv, kind + ("B6BridgeConverter" if x == 8 else "TwoQuadrantConverter"))(interlocking_time=2e-6) for x in row["switches"]]
        return dict(subconverters=b)
    if slot == "motor":
        par = "r_a" if m not in AC else "r_s"
        out = dict(motor_parameter={par: rng.choice([0.03, 0.07])})
        if rng.random() < 0.5:
            out["limit_values"] = dict(omega=rng.choice([500.0, 777.0]))
        return out
    if slot == "load":
        if row["load"]["cls"] == "ConstantSpeedLoad":
            return dict(omega_fixed=rng.choice([33.0, 55.0]))
        return dict(load_parameter=dict(a=0.02, b=0.003, c=1e-4, j_load=rng.choice([2e-3, 5e-3])))
    if slot == "ode_solver":
        return dict(integrator=rng.choice(["dopri5", "dop853"]))
    if slot == "reference_generator":
        if row["reference_generator"]["cls"] == "WienerProcessReferenceGenerator":
            return rng.choice([lambda: dict(sigma_range=(2e-3, 3e-3)), lambda: dict(episode_lengths=(5, 9)), lambda: dict(sigma_range=(2e-3, 3e-3), limit_margin=(0.0, 0.5))])()
        r = row["referenced"]
        return dict(sub_generators=tuple(rgs.LaplaceProcessReferenceGenerator(reference_state=n) for n in r))
    if slot == "reward_function":
        return rng.choice([lambda: dict(bias="positive"), lambda: dict(reward_weights={row["referenced"][0]: 0.8, "omega": 0.4}), lambda: dict(gamma=0.5, reward_power=2)])()
    return dict(update_interval=rng.choice([10, 400]))


def object_override(rng, row, slot, m):
    """A factory: each environment gets its own object."""
    kind = row["id"].split("-")[0]
    r0 = row["referenced"][0]
    if slot == "supply":
        u = rng.choice([48.0, 123.0])
        return lambda: vs.RCVoltageSupply(u) if u < 50 else vs.IdealVoltageSupply(u)
    if slot == "converter":
        names = ["B6Bridge" if x == 8 else rng.choice(["One", "Two", "Four"]) + "Quadrant" if m in ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc") else "FourQuadrant" for x in row["switches"]]
        one = [lambda n=n: getattr(cv, kind + n + "Converter")(interlocking_time=1e-6) for n in names]
        return one[0] if len(one) == 1 else (lambda: getattr(cv, kind + "MultiConverter")([f() for f in one]))
    if slot == "motor":
        cl = cls_of(row["motor"]["cls"])
        return lambda: cl(motor_parameter={"r_a" if m not in AC else "r_s": 0.05})
    if slot == "load":
        return rng.choice([lambda: ml.ConstantSpeedLoad(omega_fixed=20.0), lambda: ml.PolynomialStaticLoad(dict(a=0.01, b=0.0, c=0.0, j_load=1e-2))])
    if slot == "ode_solver":
        return rng.choice([Spy, lambda: so.ScipyOdeSolver("dopri5")])
    if slot == "reference_generator":
        return rng.choice([lambda: rgs.ConstReferenceGenerator(reference_state=r0, reference_value=0.3), lambda: rgs.SinusoidalReferenceGenerator(reference_state=r0)])
    if slot == "reward_function":
        return lambda: rfs.WeightedSumOfErrors(reward_weights={"omega": 1.0}, bias=0.25)
    return Vis


def digest(env, seed):
    h = hashlib.sha256()
    for s in range(60):
        try:
            obs, _ = env.reset(seed=seed + s)
            break
        except Exception as ex:
            if "nominal boundaries" not in str(ex):
                raise
    env.action_space.seed(seed)
    for n in range(12):
        for a in obs:
            h.update(np.asarray(a, dtype=float).tobytes())
        obs, rew, term, _, _ = env.step(env.action_space.sample())
        h.update(repr((float(rew), bool(term))).encode())
        if term:
            obs, _ = env.reset(seed=seed)
    return h.hexdigest()


def shown(make, seed):
    Spy.jac = "not used"
    env = make()
    return dict(spaces=repr((env.action_space, env.observation_space)), names=repr((list(env.state_names), list(env.reference_names), list(env.physical_system.state_names))),
                limits=vec(env.limits), nominal=vec(env.nominal_state), range=vec(env.reward_range), tau=fl(env.physical_system.tau),
                vis=repr([type(v).__name__ for v in env.visualizations] + [getattr(v, "update_interval", None) for v in env.visualizations]),
                jacobian=Spy.jac, traj=digest(env, seed))


def through(rng, row, p=0.4):
    """Arguments passed on as they are: (for the registered id, for the assembled environment)."""
    kw = {}
    if rng.random() < p:
        kw["tau"] = rng.choice([1e-6, 3e-6]) if p == 1 else rng.choice([2e-5, 5e-5, 2e-4, 1e-3])
    if rng.random() < p:
        kw["calc_jacobian"] = p < 1 and rng.random() < 0.5
    if rng.random() < p:
        kw["state_filter"] = rng.choice([["torque", "omega"], ["omega"], ["u_sup", "torque", "omega"]])
    if rng.random() < p:
        kw["constraints"] = rng.choice([lambda: (), lambda: ("omega",), lambda: ("all",)])()
    if rng.random() < p:
        n = rng.randrange(1, 4)
        kw["physical_system_wrappers"] = lambda: rng_form((pw.DeadTimeProcessor(steps=n),), n)
    return kw


def rng_form(t, n):
    return t if n % 2 else list(t)


def assemble(row, over, kw):
    """The environment the row of the specification describes, with resolved overrides."""
    make = {}
    for slot in SLOTS:
        form, val = over.get(slot, ("none", None))
        make[slot] = val() if form == "object" else build(row[slot], **(copy.deepcopy(val) if form == "dict" else {}))
    sysm = cls_of(row["system"])(supply=make["supply"], converter=make["converter"], motor=make["motor"], load=make["load"], ode_solver=make["ode_solver"],
                                 calc_jacobian=kw.get("calc_jacobian", True), tau=kw.get("tau", float(row["tau"])))
    ws = kw.get("physical_system_wrappers", lambda: ())()
    ws = tuple(ws) + ((pw.CurrentSumProcessor(("i_a", "i_e")),) if row["currentsum"] else ())
    return ElectricMotorEnvironment(physical_system=sysm, reference_generator=make["reference_generator"], reward_function=make["reward_function"],
                                    visualization=make["visualization"], constraints=kw.get("constraints", cons_of(row)), state_filter=kw.get("state_filter"),
                                    physical_system_wrappers=ws)


def registered(tr, row, over, kw):
    given, dicts, args = {}, {}, {}
    for slot, (form, val) in over.items():
        if form == "object":
            args[slot] = given[slot] = val()
        elif form == "dict":
            args[slot] = copy.deepcopy(val)
            dicts[slot] = (args[slot], repr(val))
        elif form == "explicit":
            args[slot] = None
    more = {k: v for k, v in kw.items()}
    if "physical_system_wrappers" in more:
        more["physical_system_wrappers"] = more["physical_system_wrappers"]()
    cbs = [CB()]
    env = gem.make(row["id"], callbacks=cbs, **args, **more).unwrapped
    u = env.physical_system.unwrapped
    where = dict(supply=lambda: u.supply, converter=lambda: u.converter, motor=lambda: u.electrical_motor, load=lambda: u.mechanical_load,
                 reference_generator=lambda: env.reference_generator, reward_function=lambda: env.reward_function)
    for slot, o in given.items():
        if slot in where:
            tr.append(dict(ev="given", slot=slot, same=where[slot]() is o))
        elif slot == "visualization":
            tr.append(dict(ev="given", slot=slot, same=len(env.visualizations) == 1 and env.visualizations[0] is o))
    if dicts:
        tr.append(dict(ev="intact", same=all(repr(a) == b or "object at" in b for a, b in dicts.values())))
    return env


def default(tr, row):
    env = gem.make(row["id"]).unwrapped
    p = env.physical_system
    names = [str(n) for n in p.state_names]
    a = env.action_space
    kind = "box" if isinstance(a, gymnasium.spaces.Box) else "finite"
    n = list(a.shape) if kind == "box" else [int(a.n)] if isinstance(a, gymnasium.spaces.Discrete) else [int(x) for x in a.nvec]
    probes, cons = [], []
    for j, s in enumerate(names):
        length = float(p.state_space.high[j] - p.state_space.low[j])
        ref = np.zeros(len(names))
        ref[j] = 0.5
        probes.append(dict(name=s, len=fl(length), rew=fl(env.reward_function.reward(np.zeros(len(names)), ref, 0, None, 0.0))))
        for v in (1.0, 1.5, 0.9):
            x = np.zeros(len(names))
            x[j] = v
            cons.append(dict(names=[s], v=fl(v), deg=fl(env.constraint_monitor.check_constraints(x))))
    for s1 in names:
        for s2 in names:
            if s1 < s2 and s1[0] == "i" == s2[0]:
                x = np.zeros(len(names))
                x[names.index(s1)], x[names.index(s2)] = 0.8, -0.8
                cons.append(dict(names=[s1, s2], v=fl(0.8), deg=fl(1.0 if env.constraint_monitor.check_constraints(x) >= 1 else 0.0)))
    for k in cons:
        k["deg"] = fl(1.0 if float(k["deg"]) >= 1 else 0.0)
    motors = [c for c in ("DcPermanentlyExcitedMotor", "DcExternallyExcitedMotor", "DcSeriesMotor", "DcShuntMotor", "PermanentMagnetSynchronousMotor", "SynchronousReluctanceMotor",
                          "ExternallyExcitedSynchronousMotor", "SquirrelCageInductionMotor", "DoublyFedInductionMotor") if isinstance(p.unwrapped.electrical_motor, getattr(em, c))]
    c_, t_, m_, _ = row["id"].split("-")
    tr.append(dict(ev="built", id=[c_, t_, m_], motor=motors, aspace=dict(kind=kind, n=n), refs=[str(r) for r in env.reference_names], tau=fl(p.tau), probes=probes, cons=cons,
                   names=names, dashboard=len(env.visualizations) == 1 and isinstance(env.visualizations[0], MotorDashboard)))
    return env


def twin(tr, row, over, kw, seed):
    tr.append(dict(ev="twin", a=shown(lambda: registered(tr, row, over, kw), seed), b=shown(lambda: assemble(row, over, kw), seed)))


def one(tr, c, row):
    rng = c.rng
    m = row["id"].split("-")[2]
    seed = rng.randrange(10 ** 6)
    default(tr, row)
    twin(tr, row, {}, {}, seed)
    # every component as object, every component as dictionary
    pick = lambda slot, form: (form, object_override(rng, row, slot, m) if form == "object" else dict_override(rng, row, slot, m) if form == "dict" else None)
    safe_kw = lambda kw, over: kw
    for form in ("object", "dict"):
        over = {s: pick(s, form) for s in SLOTS}
        if form == "object":
            over["ode_solver"] = ("object", Spy)
        twin(tr, row, over, through(rng, row, 1.0), seed)
    for _ in range(4 if c.quick else 20):
        over = {s: pick(s, rng.choice(["object", "dict", "explicit"])) for s in SLOTS if rng.random() < 0.5}
        twin(tr, row, over, through(rng, row), seed)
    # afterwards the default is what it was
    twin(tr, row, {}, {}, seed)
    for slot in SLOTS:
        for form in ("class", "str"):
            if c.quick and rng.random() < 0.5:
                continue
            val = cls_of(row[slot]["cls"]) if form == "class" else rng.choice(["IdealVoltageSupply", "euler", "Disc-4QC"])
            try:
                gem.make(row["id"], **{slot: val})
                ok = False
            except Exception:
                ok = True
            tr.append(dict(ev="refuse", slot=slot, form=form, refused=ok))


def run(c):
    q = c.quick
    c.model("MCRegistry", "MaxMakes = %d\nEmitting = FALSE" % (1 if q else 2), ["OnlyTheOverridden", "ObjectUsed", "DictUpdates", "Refused", "Sizes", "Distinct", "TaskNamed", "OneWeightEach"])
    rows = c.generate("MCRegistry", "MaxMakes = 0\nEmitting = TRUE", "INVARIANT Emit\n")
    assert len(rows) == 54
    traces, names = [], []
    for row in rows:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(one, c, row, seconds=300))
        names.append(row["id"])
    reg = sorted(k for k in gymnasium.envs.registry if k.split("-")[0] in ("Cont", "Finite"))
    missing = [r["id"] for r in rows if r["id"] not in reg]
    if missing:
        c.report("an id is not registered", dict(ids=missing), missing[0])
    c.validate("RegistryTrace", traces, names)

"""C18: mechanical loads. Spec: Loads; MCLoads (design), LoadTrace (conformance)."""
import math, warnings
import numpy as np
import gymnasium
import vf, envs
from vf import fl
from gym_electric_motor.physical_systems import mechanical_loads as ml
from gym_electric_motor.physical_systems.solvers import EulerSolver

PROFILE = {"sin": lambda t, amp, freq, off: amp * math.sin(2 * math.pi * freq * t) + off,
           "ramp": lambda t, amp, freq, off: amp * t + off,
           "step": lambda t, amp, freq, off: off if t < freq else off + amp}
SPACE = gymnasium.spaces.Box(np.array([-1.0, -1.0]), np.array([1.0, 1.0]), dtype=np.float64)
POS = {"omega": 0, "torque": 1}


def load_reset(load, nominal=1000.0, low=-1.0):
    space = gymnasium.spaces.Box(np.array([low, -1.0]), np.array([1.0, 1.0]), dtype=np.float64)
    return float(np.ravel(load.reset(state_space=space, state_positions=POS, nominal_state=np.array([nominal, 10.0])))[0])


def ode(load, t, w, torque):
    dw = np.array(load.mechanical_ode(t, np.array([w]), torque), dtype=float)
    ev = dict(ev="ode", t=fl(t), w=fl(w), torque=fl(torque))
    if load.HAS_JACOBIAN:
        j = load.mechanical_jacobian(t, np.array([w]), torque)
        if j is not None:
            ev.update(jw=fl(np.ravel(j[0])[0]), jt=fl(np.ravel(j[1])[0]))
    load.mechanical_ode(t + 1.0, np.array([w + 3.0]), torque + 1)
    ev["dw"] = fl(np.ravel(dw)[0])
    return ev


def points(rng, n, extra=()):
    for _ in range(n):
        w = rng.choice([0.0, rng.uniform(-1, 1) * 10 ** rng.uniform(-6, 3), rng.choice(extra) if extra else 1.0])
        yield rng.uniform(0, 2), w, rng.choice([0.0, 0.0, rng.uniform(-100, 100)])


def poly_params(rng):
    return {k: v for k, v in dict(a=rng.choice([0.0, rng.uniform(0, 5)]), b=rng.choice([0.0, rng.uniform(0, 1)]),
                                  c=rng.choice([0.0, rng.uniform(0, 0.1)]), j_load=10 ** rng.uniform(-5, 0)).items() if rng.random() < 0.8}


def poly_event(load, user, jr, ulim):
    return dict(ev="poly", user={k: fl(v) for k, v in user.items()} or {"none": 0}, j_rotor=fl(jr), j_total=fl(load.j_total),
                ulimits={k: fl(v) for k, v in ulim.items()} if ulim else {}, limits={k: fl(v) for k, v in load.limits.items()} or {"none": 0},
                par={k: fl(v) for k, v in load.load_parameter.items()})


def direct(c, add):
    rng = c.rng
    n, k = (25, 24) if c.quick else (250, 60)

    def poly(tr):
        user, jr = poly_params(rng), rng.choice([0.0, 10 ** rng.uniform(-4, 0)])
        ulim = rng.choice([{}, dict(omega=rng.uniform(10, 500))])
        w0 = rng.uniform(-9, 9)
        kw = dict(load_initializer=dict(states=dict(omega=w0))) if rng.random() < 0.5 else {}
        load = ml.PolynomialStaticLoad(load_parameter=dict(user), limits=dict(ulim), **kw)
        other = ml.PolynomialStaticLoad(load_parameter=poly_params(rng))
        if jr:
            if rng.random() < 0.4:
                load.set_j_rotor(10 ** rng.uniform(-4, 0))      # served another motor before
            load.set_j_rotor(jr)
            other.set_j_rotor(0.3)
        tr.append(poly_event(load, user, jr, ulim))
        wl = user.get("a", 0.0) / load.j_total * 1e-3
        for t, w, T in points(rng, k, [wl * 0.5, -wl * 0.999, wl * 1.001, -wl * 1.5]):
            tr.append(ode(load, t, w, T))
        for _ in range(3):
            tr.append(dict(ev="init", want=fl(w0 if kw else 0.0), w=fl(load_reset(load))))

    def const(tr):
        w0, w1 = rng.choice([0, rng.uniform(-100, 100)]), rng.uniform(-100, 100)
        if rng.random() < 0.5:
            load = ml.ConstantSpeedLoad(omega_fixed=w0)
        else:
            load, w0 = ml.ConstantSpeedLoad(load_initializer=dict(states=dict(omega=w1))), w1
        ml.ConstantSpeedLoad(omega_fixed=17.0)
        load.set_j_rotor(rng.uniform(0, 1))
        tr.append(dict(ev="const", fixed=fl(w0), reported=fl(load.omega_fixed)))
        for t, w, T in points(rng, k):
            tr.append(ode(load, t, w, T))
        for _ in range(3):
            tr.append(dict(ev="init", want=fl(w0), w=fl(load_reset(load))))

    def ext(tr):
        f = dict(kind=rng.choice(sorted(PROFILE)), amp=rng.uniform(-50, 50), freq=rng.uniform(0.001, 40), off=rng.uniform(-50, 50))
        if f["kind"] == "step":
            f["freq"] = rng.uniform(0.01, 1)
        tau = 10 ** rng.uniform(-5, -3)
        args = {x: f[x] for x in ("amp", "freq", "off")}
        load = ml.ExternalSpeedLoad(PROFILE[f["kind"]], speed_profile_kwargs=args, tau=tau)
        ev = {x: (v if x == "kind" else fl(v)) for x, v in f.items()}
        tr.append(dict(ev="ext", prof=ev, tau=fl(tau)))
        for t, w, T in points(rng, k):
            if f["kind"] == "step" and abs(t + tau - f["freq"]) < 1e-6:
                continue
            tr.append(ode(load, t, w, T))
        for _ in range(2):
            tr.append(dict(ev="init", want=fl(PROFILE[f["kind"]](0.0, **args)), w=fl(load_reset(load))))

    def ou(tr):
        o = dict(mu=rng.uniform(-300, 300), sigma=rng.choice([0.0, 0.0, rng.uniform(0, 100)]), theta=rng.uniform(0, 20), tau=10 ** rng.uniform(-5, -3),
                 lo=rng.uniform(-100, -60), hi=rng.uniform(60, 100))
        load = ml.OrnsteinUhlenbeckLoad(mu=o["mu"], sigma=o["sigma"], theta=o["theta"], tau=o["tau"], omega_range=(o["lo"], o["hi"]))
        tr.append(dict(ev="ou", ou={x: fl(v) for x, v in o.items()}))
        for t, w, T in points(rng, k):
            tr.append(ode(load, t, max(o["lo"], min(o["hi"], w)), T))
        for b, s in (("lo", 1.0), ("hi", -1.0)):        # near the ends of the range, where the drift is cut
            for e in (-8, -5, -3, -2, -1):
                tr.append(ode(load, 0.0, o[b] + s * 10 ** (e + rng.random()), 0.0))
        for _ in range(4):
            tr.append(dict(ev="within", w=fl(load_reset(load)), lo=fl(o["lo"]), hi=fl(o["hi"])))

    def random_init(tr):
        lo, hi = sorted([rng.uniform(-90, 90), rng.uniform(-90, 90)])
        nominal, low = rng.uniform(20, 200), rng.choice([-1.0, 0.0])
        lo2, hi2 = max(lo, low * nominal), min(hi, nominal)
        if lo2 > hi2:
            lo, hi = -10.0, 15.0
            lo2, hi2 = max(lo, low * nominal), min(hi, nominal)
        load = ml.PolynomialStaticLoad(load_initializer=dict(random_init=rng.choice(["uniform", "gaussian"]), interval=[[lo, hi]], states=dict(omega=0.0)))
        tr.append(poly_event(load, {}, 0.0, {}))
        for _ in range(6):
            tr.append(dict(ev="within", w=fl(load_reset(load, nominal, low)), lo=fl(lo2 - 1e-9), hi=fl(hi2 + 1e-9)))

    for i in range(n):
        for nm, fn in (("poly", poly), ("const", const), ("ext", ext), ("ou", ou), ("random_init", random_init)):
            add("load %s#%d" % (nm, i), fn)


def systems(c, add):
    rng = c.rng
    ids = [i for i in envs.IDS if "-CC-" in i or not c.quick]
    for i, eid in enumerate(ids):
        for kind in ("poly", "const", "ext", "ou"):
            def run(tr):
                tau = rng.choice([1e-5, 5e-5, 1e-4])
                head = None
                f = None
                if kind == "poly":
                    user = poly_params(rng)
                    user["j_load"] = 10 ** rng.uniform(-3, -1)
                    load = ml.PolynomialStaticLoad(load_parameter=dict(user))
                elif kind == "const":
                    w = rng.choice([0.0, rng.uniform(1, 30)])
                    load = ml.ConstantSpeedLoad(omega_fixed=w)
                    head = dict(ev="const", fixed=fl(w), reported=fl(load.omega_fixed))
                elif kind == "ext":
                    f = dict(kind=rng.choice(["sin", "ramp"]), amp=rng.uniform(1, 20), freq=rng.uniform(1, 40), off=rng.uniform(25, 30))
                    load = ml.ExternalSpeedLoad(PROFILE[f["kind"]], speed_profile_kwargs={x: f[x] for x in ("amp", "freq", "off")}, tau=tau)
                    head = dict(ev="ext", prof={x: (v if x == "kind" else fl(v)) for x, v in f.items()}, tau=fl(tau))
                else:
                    o = dict(mu=rng.uniform(-50, 50), sigma=50.0, theta=3.0, tau=tau, lo=-20.0, hi=20.0)
                    load = ml.OrnsteinUhlenbeckLoad(mu=o["mu"], sigma=o["sigma"], theta=o["theta"], tau=tau, omega_range=(-20.0, 20.0))
                    head = dict(ev="ou", ou={x: fl(v) for x, v in o.items()})
                if rng.random() < 0.3:
                    envs.make(rng.choice(ids), load=load, tau=tau).reset()      # served another system before
                env = envs.make(eid, load=load, tau=tau, ode_solver=EulerSolver())
                ps = env.physical_system.unwrapped
                names = list(ps.state_names)
                wi, ti = names.index("omega"), names.index("torque")
                if kind == "poly":
                    head = poly_event(load, user, ps.electrical_motor.motor_parameter["j_rotor"], {})
                tr.append(head)
                env.action_space.seed(rng.randrange(10**6))
                for ep in range(2):
                    env.reset(seed=rng.randrange(10**6) if ep == 0 else None)
                    s = np.array(ps.reset(), dtype=float) * ps.limits
                    tr.append(dict(ev="sys", n=0, tau=fl(tau), w=fl(s[wi]), torque=fl(s[ti])))
                    for k in range(1, 12 if c.quick else 60):
                        s = np.array(env.physical_system.simulate(env.action_space.sample()), dtype=float)[:len(names)] * ps.limits
                        tr.append(dict(ev="sys", n=k, tau=fl(tau), w=fl(s[wi]), torque=fl(s[ti])))
            add("%s load=%s" % (eid, kind), run)


def run(c):
    c.model("MCLoads", "Coefs <- SmallCoefs\nInertias <- SmallInertias\nTorques <- SmallTorques\nSpeeds <- SmallSpeeds",
            ["Dissipative", "Standstill", "Odd", "Continuous", "Bounded", "Deriv", "Balance"])
    traces, names = [], []

    def add(nm, fn):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(fn))
        names.append(nm)
    direct(c, add)
    systems(c, add)
    c.validate("LoadTrace", traces, names)
    c.assumptions += ["In-system torque balance is checked for one explicit Euler step per sampling period; finer solvers are covered by C20",
                      "NUM: relative tolerance 1e-9 (1e-7 for whole systems)"]

"""Whole drives with known configuration: construction through gem.make and recording of full state vectors (C24, C05, C06, C21)."""
import math
import numpy as np
import vf, envs, motors, converters as cvh
from vf import fl, vec
from gym_electric_motor.core import Callback
from gym_electric_motor.physical_systems import converters as cv, voltage_supplies as vs, solvers as so, mechanical_loads as ml
import specdefaults

DC = ["PermExDc", "SeriesDc", "ShuntDc", "ExtExDc"]
IM = ["SCIM", "DFIM"]


class Recorder(Callback):
    """Keeps the full state vectors of the events."""
    def __init__(self):
        super().__init__()
        self.state, self.events = None, []

    def on_reset_end(self, state, reference):
        self.state = np.array(state, dtype=float)
        self.events.append("reset")

    def on_step_end(self, k, state, reference, reward, done):
        self.state, self.k = np.array(state, dtype=float), k
        self.events.append("step")


class EchoReference(envs.StubReference):
    """Answers with entry 2 (torque) of the state it is asked for."""
    def get_reference(self, state, *_, **__):
        r = np.zeros(self._n)
        r[0] = state[1]
        return r

    def get_reference_observation(self, state, *_, **__):
        return np.array([state[1]])


class EchoReward(envs.StubReward):
    def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
        return float(state[0] + 2 * reference[0])


def topology(rng, mtype, kind):
    f = kind == "Finite"
    one = ["F1QC", "F2QC", "F4QC"] if f else ["C1QC", "C2QC", "C4QC"]
    b6 = "FB6C" if f else "CB6C"
    if mtype == "ExtExDc":
        return [rng.choice(one), rng.choice(one)]
    if mtype in DC:
        return [rng.choice(one)]
    if mtype == "EESM":
        return [b6, rng.choice(one)]
    return [b6, b6] if mtype == "DFIM" else [b6]


def probed(cls):
    """A user-written converter: notes the currents it is asked with."""
    class Probe(cls):
        def convert(self, i_out, *args, **kwargs):
            self.asked = getattr(self, "asked", []) + [np.array(i_out, dtype=float).ravel()]
            return super().convert(i_out, *args, **kwargs)
    return Probe


def converter(types, til):
    classes = {**cvh.FIN, **cvh.CONT}
    kw = dict(interlocking_time=til) if til else {}
    if len(types) == 1:
        return probed(classes[types[0]])(**kw)
    multi = cv.FiniteMultiConverter if types[0] in cvh.FIN else cv.ContMultiConverter
    return probed(multi)(subconverters=[classes[t] for t in types], **kw)


STATES = dict(PermExDc=["i"], SeriesDc=["i"], ShuntDc=["i_a", "i_e"], ExtExDc=["i_a", "i_e"], PMSM=["i_sd", "i_sq", "epsilon"],
              SynRM=["i_sd", "i_sq", "epsilon"], EESM=["i_sd", "i_sq", "i_e", "epsilon"],
              SCIM=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"], DFIM=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"])


def initial(rng, mtype):
    """Configured initial motor states, in the order of the ODE state."""
    d = {}
    for n in STATES[mtype]:
        if n == "epsilon":
            d[n] = rng.uniform(-3.1, 3.1)
        elif n.startswith("psi"):
            d[n] = rng.choice([-1, 1]) * rng.uniform(0.01, 0.03)
        elif mtype in IM:
            d[n] = rng.choice([-1, 1]) * rng.uniform(0.6, 2)
        elif mtype == "SynRM":
            d[n] = rng.uniform(-6, 6)
        elif mtype in DC:
            d[n] = rng.uniform(1, 60)
        else:
            d[n] = rng.uniform(-80, 80) if n != "i_e" else rng.uniform(1, 80)
    return d


PROFILES = {"sin": lambda t, amp, freq, off: amp * np.sin(2 * np.pi * freq * t) + off, "ramp": lambda t, amp, freq, off: amp * t + off}


def configuration(rng, mtype, kind, **fix):
    """A random system configuration (plain data)."""
    tau = rng.choice([1e-5, 5e-5, 1e-4, 3e-4])
    units = topology(rng, mtype, kind)
    til = rng.choice([0.0, tau * rng.uniform(0.05, 0.4)])
    c = dict(type=mtype, kind=kind, tau=tau, types=units, til=til, n=rng.choice([1, 1, 2, 5]),
             cs=rng.choice(["abc", "dq"]) if kind == "Cont" and mtype in ("PMSM", "SynRM", "SCIM") else "abc")
    lk = rng.choice(["poly", "poly", "const", "ext"])
    if mtype in IM:
        lk = rng.choice(["poly", "poly", "ext", "const"])
    if lk == "poly":
        c["load"] = dict(kind="poly", a=rng.choice([0.0, rng.uniform(0, 0.5)]), b=rng.choice([0.0, rng.uniform(0, 0.05)]),
                         c=rng.choice([0.0, rng.uniform(0, 1e-3)]), j_load=rng.uniform(1e-3, 2e-2), w0=rng.choice([0.0, rng.uniform(-120, -1)]) if mtype in IM else rng.uniform(0, 60))
    elif lk == "const":
        c["load"] = dict(kind="const", fixed=rng.uniform(10, 100) * (-1 if mtype in IM else 1))      # the flux an induction machine may start with is 0 at positive speeds
    else:
        c["load"] = dict(kind="ext", prof=dict(kind=rng.choice(list(PROFILES)), amp=rng.uniform(1, 60), freq=rng.uniform(1, 30),
                                              off=0.0 if mtype in IM else rng.uniform(-20, 20)), tau=tau)
    sk = rng.choice(["ideal", "ideal", "rc", "ac1"])
    un = {"SCIM": 400.0, "DFIM": 500.0, "PMSM": 300.0, "EESM": 300.0, "SynRM": 80.0}.get(mtype, 60.0)
    c["sup"] = dict(kind=sk, u0=un * rng.uniform(0.6, 1.0))
    if sk == "rc":
        c["sup"].update(R=rng.uniform(0.05, 0.5), C=rng.uniform(5e-3, 2e-2))
    if sk == "ac1":
        c["sup"].update(f=rng.uniform(20, 100), phi=rng.uniform(0, 6))
    c["init"] = initial(rng, mtype)
    full = specdefaults.PARAMS[mtype]
    c["user"] = {n: (v if n == "p" else v * rng.uniform(0.9, 1.1)) for n, v in full.items() if rng.random() < 0.4 and n not in ("l_m", "l_e", "k")}
    c.update(fix)
    return c


def spec_config(c):
    """The configuration record of Scml.tla."""
    mp = dict(specdefaults.PARAMS[c["type"]], **c["user"])
    ld = dict(c["load"])
    if ld["kind"] == "poly":
        load = dict(kind="poly", a=fl(ld["a"]), b=fl(ld["b"]), c=fl(ld["c"]), j=fl(ld["j_load"] + mp["j_rotor"]))
    elif ld["kind"] == "const":
        load = dict(kind="const", fixed=fl(ld["fixed"]))
    else:
        load = dict(kind="ext", prof={k: (v if k == "kind" else fl(v)) for k, v in ld["prof"].items()}, tau=fl(ld["tau"]))
    return dict(type=c["type"], mp={k: fl(v) for k, v in mp.items()}, units=[dict(type=t, til=fl(c["til"])) for t in c["types"]],
                tau=fl(c["tau"]), load=load, sup={k: (v if k == "kind" else fl(v)) for k, v in c["sup"].items()}, n=c["n"], cs=c["cs"])


def y0(c):
    ld = c["load"]
    w = ld["w0"] if ld["kind"] == "poly" else ld["fixed"] if ld["kind"] == "const" else PROFILES[ld["prof"]["kind"]](0, **{k: v for k, v in ld["prof"].items() if k != "kind"})
    return [w] + [c["init"][n] for n in STATES[c["type"]]]


def make(c, solver=None, extra=None, **kw):
    """The environment of a configuration; returns env, recorder, solver."""
    ld, sp = c["load"], c["sup"]
    if ld["kind"] == "poly":
        load = ml.PolynomialStaticLoad(load_parameter={k: ld[k] for k in ("a", "b", "c", "j_load")}, load_initializer=c.get("load_init") or {"states": {"omega": ld["w0"]}},
                                       limits=c.get("load_limits"))
    elif ld["kind"] == "const":
        load = ml.ConstantSpeedLoad(load_initializer=c["load_init"]) if c.get("load_init") else ml.ConstantSpeedLoad(omega_fixed=ld["fixed"])
    else:
        load = ml.ExternalSpeedLoad(PROFILES[ld["prof"]["kind"]], tau=ld["tau"], speed_profile_kwargs={k: v for k, v in ld["prof"].items() if k != "kind"})
    sup = (vs.IdealVoltageSupply(u_nominal=sp["u0"]) if sp["kind"] == "ideal" else
           vs.RCVoltageSupply(u_nominal=sp["u0"], supply_parameter=dict(R=sp["R"], C=sp["C"])) if sp["kind"] == "rc" else
           vs.AC1PhaseSupply(u_nominal=sp["u0"], supply_parameter=dict(frequency=sp["f"], phase=sp["phi"])))
    mkw = dict(motor_parameter=dict(c["user"]), motor_initializer={"states": dict(c["init"])})
    if c.get("motor_kw"):
        mkw.update(c["motor_kw"])
    motor = mkw if c.get("as_dict") else motors.CLS[c["type"]](**mkw)
    solver = solver or so.EulerSolver(nsteps=c["n"])
    rec = Recorder()
    eid = "%s-CC-%s-v0" % (c["kind"], c["type"])
    if c["cs"] == "dq" or c.get("bare"):
        from gym_electric_motor import physical_systems as psy
        cls = (psy.DcMotorSystem if c["type"] in DC else psy.SquirrelCageInductionMotorSystem if c["type"] == "SCIM" else psy.DoublyFedInductionMotorSystem if c["type"] == "DFIM"
               else psy.ExternallyExcitedSynchronousMotorSystem if c["type"] == "EESM" else psy.SynchronousMotorSystem)
        args = dict(control_space="dq") if c["cs"] == "dq" else {}
        ps = cls(converter=converter(c["types"], c["til"]), motor=motor, load=load, supply=sup, ode_solver=solver, tau=c["tau"], **args)
        tick = envs.Ticker()
        env = envs.ElectricMotorEnvironment(physical_system=ps, reference_generator=envs.StubReference(tick), reward_function=envs.StubReward(tick),
                                            callbacks=(rec,), constraints=())
        return env, rec, solver
    if c.get("monitored"):
        tick = envs.Ticker()
        kw.update(reference_generator=EchoReference(tick), reward_function=EchoReward(tick))
    env = envs.make(eid, motor=motor, load=load, supply=sup, converter=converter(c["types"], c["til"]), ode_solver=solver,
                    tau=c["tau"], callbacks=(rec,), constraints=tuple(c.get("monitored", ())), **kw)
    return env, rec, solver


def rec_len(env):
    """The state of the system itself comes first in the state vector of a wrapped system."""
    return len(env.physical_system.unwrapped.state_names)


def head(env, c):
    ps = env.physical_system.unwrapped
    sp = ps.action_space
    kind = "discrete" if hasattr(sp, "n") else "multi" if hasattr(sp, "nvec") else "box"
    nact = [int(sp.n)] if kind == "discrete" else [int(k) for k in sp.nvec] if kind == "multi" else []
    low, high = (vec(sp.low), vec(sp.high)) if kind == "box" else ([], [])
    return dict(ev="system", c=spec_config(c), nact=nact, alow=low, ahigh=high, names=list(ps.state_names), limits=vec(ps.limits), nominal=vec(ps.nominal_state))


def action(rng, env, types, kind, cs):
    """A random action and its specification form."""
    a = env.action_space.sample()
    if kind == "Finite":
        return a, ([int(a)] if np.ndim(a) == 0 else [int(x) for x in a])
    if rng.random() < 0.2:
        a = np.clip(a * rng.uniform(0, 2), env.action_space.low, env.action_space.high)
    if cs == "dq":
        a = np.clip(a, -0.8, 0.8)
    return a, vec(a)


def reset(env, rec, solver, c, tr, seed=None, tries=60):
    """Reset; the initial fluxes of induction machines are bounded by a randomly drawn limit: drawn again until accepted."""
    for k in range(tries):
        try:
            env.reset(seed=None if seed is None else seed + k)
            break
        except Exception as ex:
            if "nominal boundaries" not in str(ex) or k == tries - 1:
                raise
    tr.append(dict(ev="reset", y0=vec(y0(c)), state=vec(rec.state[:rec_len(env)]), k=int(env.physical_system.k), t=fl(solver.t), phi="none"))


def step(env, rec, solver, c, tr, rng, hold=None):
    a, sa = hold if hold is not None else action(rng, env, c["types"], c["kind"], c["cs"])
    probe = getattr(env.physical_system.unwrapped, "converter", None)
    if type(probe).__name__ == "Probe":
        probe.asked = []
    (obs, ref), rew, term, trunc, info = env.step(a)
    ev = dict(ev="step", a=sa, state=vec(rec.state[:rec_len(env)]), k=int(env.physical_system.k), t=fl(solver.t))
    if getattr(probe, "asked", None):
        ev["asked"] = [vec(i) for i in probe.asked]
    if c.get("monitored"):
        ev.update(obs=vec(obs), full=vec(rec.state), term=bool(term), monitored=[list(env.physical_system.state_names).index(n) + 1 for n in c["monitored"]],
                  rew=fl(rew), ref=vec(ref))
    tr.append(ev)
    rec.term = bool(term)
    return a, sa


def safe(rec, bound=1e6):
    return bool(np.all(np.abs(rec.state) < bound))

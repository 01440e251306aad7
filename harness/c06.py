"""C06: clocks. Spec: Clock; MCClock (design), ClockTrace (conformance)."""
import math, warnings
import numpy as np
import vf, envs, scml
from vf import fl, vec
from gym_electric_motor.physical_systems import voltage_supplies as vs, solvers as so, mechanical_loads as ml
from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, CosSinProcessor
from c19 import Logged


class Watch:
    """Remembers the times a converter, a supply and a speed profile are called with."""
    def __init__(self):
        self.set, self.ends, self.asked, self.prof, self.sup = [], [], [], [], None

    def converter(self, conv):
        set_action, convert = conv.set_action, conv.convert

        def logged_set(action, t):
            r = set_action(action, t)
            self.set.append(float(t))
            self.ends = [float(x) for x in r]
            return r

        def logged_convert(i_out, t):
            self.asked.append(float(t))
            return convert(i_out, t)
        conv.set_action, conv.convert = logged_set, logged_convert
        return conv

    def profile(self, amp, f, phi, off):
        def prof(t):
            self.prof.append(float(t))
            return amp * math.sin(2 * math.pi * f * t + phi) + off
        return prof

    def take(self):
        d = dict(set=vec(self.set), ends=vec(self.ends), asked=vec(self.asked), prof=vec(self.prof), sup=vec([x[0] for x in self.sup.log]))
        self.set, self.ends, self.asked, self.prof = [], [], [], []
        self.sup.log.clear()
        return d


SOLVERS = [lambda: so.EulerSolver(), lambda: so.EulerSolver(nsteps=3), lambda: so.ScipyOdeSolver("dopri5"), lambda: so.ScipySolveIvpSolver()]


def drive(c, eid, rep, tr):
    rng, w = c.rng, Watch()
    kind, task, mtype = eid.split("-")[:3]
    default_tau = rep % 3 == 0
    tau = (1e-5 if kind == "Finite" else 1e-4) if default_tau else rng.choice([1e-5, 2e-5, 1e-4, 3.3e-5])
    til = rng.choice([0.0, tau * rng.uniform(0.05, 0.4)])
    u0 = {"SCIM": 400.0, "DFIM": 500.0, "SynRM": 100.0}.get(mtype, 60.0)
    supply = rng.choice(["ac", "rc", "ideal"])
    par = dict(frequency=rng.uniform(20, 100), phase=rng.uniform(0, 6))
    w.sup = Logged(dict(ac=lambda: vs.AC1PhaseSupply(u_nominal=u0, supply_parameter=par), rc=lambda: vs.RCVoltageSupply(u_nominal=u0, supply_parameter={"R": 0.2, "C": 1e-2}),
                        ideal=lambda: vs.IdealVoltageSupply(u_nominal=u0))[supply]())
    ext = rng.random() < 0.6
    k = rep % len(SOLVERS) if rng.random() < 0.5 else 0
    sol = SOLVERS[k]()
    kw = {}
    if not default_tau:
        kw["tau"] = tau
    head = dict(ev="system", tau=fl(tau))
    if ext:
        p = dict(amp=rng.uniform(1, 40), f=rng.uniform(5, 40), phi=0.0, off=0.0 if mtype in scml.IM else rng.uniform(0, 20))
        kw["load"] = ml.ExternalSpeedLoad(w.profile(**p), tau=tau)
        head["w"] = {n: fl(x) for n, x in p.items()}
    if supply == "ac":
        head["us"] = dict(amp=fl(u0 * math.sqrt(2)), f=fl(par["frequency"]), phi=fl(par["phase"]), off=fl(0.0))
    conv = w.converter(scml.converter(scml.topology(rng, mtype, kind), til))
    wr = rng.choice([(), (DeadTimeProcessor(),), (DeadTimeProcessor(steps=2),)] + ([(CosSinProcessor("epsilon"),)] if mtype not in scml.DC else []))
    rec = scml.Recorder()
    env = envs.make(eid, supply=w.sup, converter=conv, ode_solver=sol, constraints=(), callbacks=(rec,), physical_system_wrappers=wr, **kw)
    ps = env.physical_system
    head["taus"] = vec([ps.tau, ps.unwrapped.tau, conv.tau])
    tr.append(head)
    names = list(ps.state_names)
    iw, iu = names.index("omega"), names.index("u_sup")
    env.action_space.seed(rng.randrange(10**6))
    exact = ext and k == 0 and (kind == "Cont" or til == 0.0)

    def event(ev):
        d = dict(ev=ev, k=int(ps.k), t=fl(sol.t), **w.take())
        if supply == "ac":
            d["us"] = fl(rec.state[iu] * ps.limits[iu])
        if exact:
            d["w"] = fl(rec.state[iw] * ps.limits[iw])
        tr.append(d)
    w.take()
    for ep in range(3):
        env.reset(seed=rng.randrange(1000) if ep == 1 else None)
        event("reset")
        hold = env.action_space.sample()
        for n in range(rng.randrange(2, 14 if c.quick else 80)):
            if rng.random() < 0.6:
                hold = env.action_space.sample()
            env.step(hold)
            event("step")
            if not scml.safe(rec):
                break


def run(c):
    c.model("MCClock", 'Taus = {1, 10, 33}\nDepth = %d' % (5 if c.quick else 8), ["CounterCounts", "SolverAtNow", "SolverInside", "ComponentsInStep"], ["NeverBackwards"])
    traces, names = [], []
    for rep in range(2 if c.quick else 20):
        for eid in envs.IDS:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                traces.append(vf.scenario(lambda tr: drive(c, eid, rep + c.rng.randrange(5), tr)))
            names.append("%s #%d" % (eid, rep))
    c.validate("ClockTrace", traces, names, chunk=1000)
    c.assumptions += ["C06: ExternalSpeedLoad is given the system's sampling time explicitly (its own parameter)",
                      "C06: one-step methods (multistep methods interpolate beyond the step by design)", "C06: the speed profile may be evaluated up to one period ahead of the step (forward difference of the prescribed speed)"]

"""C19: voltage supplies. Spec: Supplies; MCSupplies (design), SupplyTrace (conformance)."""
import math, warnings
import numpy as np
import vf, envs
from vf import fl, vec
from gym_electric_motor.physical_systems import voltage_supplies as vs


class Logged(vs.VoltageSupply):
    """User supply delegating to another one and remembering every call."""
    def __init__(self, inner):
        super().__init__(inner.u_nominal)
        self.inner, self.supply_range, self.voltage_len, self.log = inner, inner.supply_range, inner.voltage_len, []

    def reset(self):
        u = self.inner.reset()
        self.log.append((0.0, 0.0, [float(x) for x in u]))
        return u

    def get_voltage(self, t, i_sup):
        u = self.inner.get_voltage(t, i_sup)
        self.log.append((float(t), float(i_sup), [float(x) for x in u]))
        return u


def head(kind, u0, sup, **kw):
    d = dict(ev="supply", kind=kind, u0=fl(u0), nominal=fl(sup.u_nominal), range=vec(sup.supply_range), n=int(sup.voltage_len))
    d.update({k: fl(v) for k, v in kw.items()})
    return d


def identify(kind, u0, f, samples):
    """Phase of a sinusoid from two samples a quarter of a period apart (times 0 and 1/(4f))."""
    amp = u0 * (math.sqrt(2) if kind == "ac1" else math.sqrt(2 / 3))
    return math.atan2(samples[0] / amp, samples[1] / amp) % (2 * math.pi)


def direct(c, add):
    rng = c.rng
    n = 12 if c.quick else 150

    def ideal(tr):
        u0 = rng.uniform(10, 800)
        s = vs.IdealVoltageSupply(u_nominal=u0)
        vs.IdealVoltageSupply(u_nominal=3.0).reset()
        tr.append(head("ideal", u0, s))
        for _ in range(3):
            tr.append(dict(ev="reset", u=vec(s.reset())))
            for k in range(5):
                tr.append(dict(ev="get", t=fl(k * 1e-4), i=fl(3.0), u=vec(s.get_voltage(k * 1e-4, rng.uniform(-90, 90)))))

    def rc(tr):
        u0, R, C = rng.uniform(10, 800), rng.choice([1, rng.uniform(0.1, 5)]), rng.choice([4e-3, 10 ** rng.uniform(-3, -1.5)])
        if rng.random() < 0.3:
            R, C, s = 1, 4e-3, vs.RCVoltageSupply(u_nominal=u0)
        else:
            s = vs.RCVoltageSupply(u_nominal=u0, supply_parameter={"R": R, "C": C})
        other = vs.RCVoltageSupply(u_nominal=13.0)
        other.reset()
        tr.append(head("rc", u0, s, R=R, C=C))
        for _ in range(3):
            tr.append(dict(ev="reset", u=vec(s.reset())))
            t, kept = 0.0, []
            for k in range(rng.randrange(1, 25)):
                t += rng.choice([0.0, R * C * rng.uniform(0.0005, 0.02), R * C * 0.01])
                i = rng.choice([0.0, rng.uniform(-1, 1) * u0 / R])
                other.get_voltage(t, 1.0)
                u = s.get_voltage(t, i)
                tr.append(dict(ev="get", t=fl(t), i=fl(i), u=vec(u)))

    def ac(tr, kind):
        cls = vs.AC1PhaseSupply if kind == "ac1" else vs.AC3PhaseSupply
        u0, f, phi = rng.uniform(10, 800), rng.uniform(1, 400), rng.uniform(0, 6.28)
        mode = rng.choice(["default", "freq", "phase"])
        par = dict(default=None, freq=dict(frequency=f), phase=dict(frequency=f, phase=phi))[mode]
        f = 50 if mode == "default" else f
        kw = dict(phi=phi) if mode == "phase" else {}
        given = dict(par) if par else None
        s = cls(u_nominal=u0, supply_parameter=given)
        tr.append(head(kind, u0, s, f=f, **kw))
        cls(u_nominal=5.0, supply_parameter=dict(frequency=3.0, phase=1.0)).reset()
        if rng.random() < 0.5:
            s.seed(np.random.SeedSequence(rng.randrange(10**6)))
        phis = []
        for _ in range(4):
            u_init = vec(s.reset(0) if False else s.reset())
            first = float(s.get_voltage(0.0, 0)[0])
            quarter = float(s.get_voltage(1 / (4 * f), 0)[0])
            p = identify(kind, u0, f, [first, quarter])
            if mode == "phase" and abs(p - phi) > 6:      # wrap-around of the identification
                p += math.copysign(2 * math.pi, phi - p)
            phis.append(round(p, 9))
            tr.append(dict(ev="reset", u=u_init, phi=fl(p)))
            for _ in range(8):
                t = rng.choice([0.0, rng.uniform(0, 3.0 / f), rng.randrange(100) * 1e-4, rng.uniform(0, 300.0 / f), rng.uniform(0, 30.0)])
                tr.append(dict(ev="get", t=fl(t), i=fl(0.0), u=vec(s.get_voltage(t, rng.uniform(-5, 5)))))
        if mode != "phase":
            tr.append(dict(ev="fresh", phis=[repr(p) for p in phis]))

    for i in range(n):
        add("ideal#%d" % i, ideal)
        add("rc#%d" % i, rc)
        add("ac1#%d" % i, lambda tr: ac(tr, "ac1"))
        add("ac3#%d" % i, lambda tr: ac(tr, "ac3"))


def systems(c, add):
    rng = c.rng
    for eid in envs.IDS if not c.quick else [i for i in envs.IDS if "-CC-" in i]:
        for kind in ("ideal", "rc", "ac1"):
            def run(tr):
                u0, tau = rng.uniform(40, 80), rng.choice([1e-5, 1e-4])
                par = dict(frequency=rng.uniform(20, 100), phase=rng.uniform(0, 6))
                inner = dict(ideal=lambda: vs.IdealVoltageSupply(u_nominal=u0), rc=lambda: vs.RCVoltageSupply(u_nominal=u0, supply_parameter={"R": 0.2, "C": 1e-2}),
                             ac1=lambda: vs.AC1PhaseSupply(u_nominal=u0, supply_parameter=par))[kind]()
                sup = Logged(inner)
                env = envs.make(eid, supply=sup, tau=tau)
                ps = env.physical_system.unwrapped
                idx = [i for i, nme in enumerate(ps.state_names) if nme == "u_sup" or nme.startswith("u_sup")]
                tr.append(head(kind, u0, inner, **(dict(R=0.2, C=1e-2) if kind == "rc" else dict(f=par["frequency"], phi=par["phase"]) if kind == "ac1" else {})))
                env.action_space.seed(rng.randrange(10**6))
                for ep in range(2):
                    sup.log.clear()
                    env.reset(seed=5 if ep == 0 else None)
                    sup.log.clear()
                    st = ps.reset() * ps.limits
                    log = list(sup.log)
                    tr.append(dict(ev="sys", n=0, tau=fl(tau), ts=vec([x[0] for x in log]), u=vec(log[-1][2]), state=vec(st[idx])))
                    tr.append(dict(ev="reset", u=vec(log[0][2]), **(dict(phi=fl(par["phase"])) if kind == "ac1" else {})))
                    for n in range(10 if c.quick else 60):
                        sup.log.clear()
                        st = np.array(env.physical_system.simulate(env.action_space.sample()))[:len(ps.state_names)] * ps.limits
                        log = list(sup.log)
                        tr.append(dict(ev="sys", n=n, tau=fl(tau), ts=vec([x[0] for x in log]), u=vec(log[-1][2] if log else []), state=vec(st[idx])))
                        for t, i, u in log:
                            tr.append(dict(ev="get", t=fl(t), i=fl(i), u=vec(u)))
            add("%s supply=%s" % (eid, kind), run)


def run(c):
    c.model("MCSupplies", "Currents <- SmallCurrents\nSteps = %d" % (7 if c.quick else 9), ["InRange", "FirstOrder", "Charges", "ThreePhase", "RmsSingle"])
    traces, names = [], []

    def add(nm, fn):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(fn))
        names.append(nm)
    direct(c, add)
    systems(c, add)
    c.validate("SupplyTrace", traces, names)
    c.assumptions += ["The RC supply is accepted between the explicit Euler step and the exact solution of its differential equation"]

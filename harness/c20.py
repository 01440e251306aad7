"""C20: ODE solvers. Spec: Solvers; MCSolvers (design), SolverTrace (conformance)."""
import math, warnings
import numpy as np
import vf, envs
from vf import fl, vec, mat
from gym_electric_motor.physical_systems import solvers as so


class Sys:
    """A system with a log of the times it was evaluated at."""
    def __init__(self, d):
        self.d, self.ts, self.jac_calls = d, [], 0
        self.A = np.array(d.get("A", [[0.0]]), dtype=float)
        self.b = np.array(d.get("b", [0.0]), dtype=float)

    def f(self, t, y, u):
        self.ts.append(float(t))
        d = self.d
        if d["kind"] == "vdp":
            return np.array([y[1], d["m"] * (1 - y[0] ** 2) * y[1] - y[0] + u])
        x = u + (math.sin(d["w"] * t) if d["kind"] == "forced" else 0.0)
        return self.A @ np.asarray(y) + self.b * x

    def jac(self, t, y, u):
        self.jac_calls += 1
        if self.d["kind"] == "vdp":
            m = self.d["m"]
            return np.array([[0.0, 1.0], [-2 * m * y[0] * y[1] - 1, m * (1 - y[0] ** 2)]])
        return self.A

    def event(self):
        return {k: (v if k == "kind" else mat(v) if k == "A" else vec(v) if k == "b" else fl(v)) for k, v in self.d.items()}


def random_system(rng, n):
    kind = rng.choice(["lin", "forced", "vdp"])
    if kind == "vdp":
        return dict(kind=kind, m=rng.uniform(0.1, 2))
    A = [[rng.uniform(-3, 3) - (4 if i == j else 0) for j in range(n)] for i in range(n)]
    return dict(kind=kind, A=A, b=[rng.uniform(-2, 2) for _ in range(n)], w=rng.uniform(1, 20))


FACTORIES = [
    # name, factory, sub-steps, tolerance, one-step method
    ("euler", lambda: so.EulerSolver(), 1, "1e-10", True),
    ("euler", lambda: so.EulerSolver(nsteps=2), 2, "1e-10", True),
    ("euler", lambda: so.EulerSolver(nsteps=7), 7, "1e-10", True),
    ("ode", lambda: so.ScipyOdeSolver(), 1, "1e-4", True),
    ("ode", lambda: so.ScipyOdeSolver("dopri5", rtol=1e-9, atol=1e-10), 1, "1e-6", True),
    ("ode", lambda: so.ScipyOdeSolver("dop853", rtol=1e-9, atol=1e-10), 1, "1e-6", True),
    ("ode", lambda: so.ScipyOdeSolver("vode", method="bdf", rtol=1e-8, atol=1e-10), 1, "1e-5", False),
    ("ode", lambda: so.ScipyOdeSolver("vode", method="adams", rtol=1e-8, atol=1e-10), 1, "1e-5", False),
    ("ode", lambda: so.ScipyOdeSolver("lsoda", rtol=1e-8, atol=1e-10), 1, "1e-5", False),
    ("ivp", lambda: so.ScipySolveIvpSolver(), 1, "5e-2", True),
    ("ivp", lambda: so.ScipySolveIvpSolver(rtol=1e-8, atol=1e-10), 1, "1e-6", True),
    ("ivp", lambda: so.ScipySolveIvpSolver(method="RK23", rtol=1e-7, atol=1e-9), 1, "1e-5", True),
    ("ivp", lambda: so.ScipySolveIvpSolver(method="DOP853", rtol=1e-8, atol=1e-10), 1, "1e-6", True),
    ("ivp", lambda: so.ScipySolveIvpSolver(method="Radau", rtol=1e-7, atol=1e-9), 1, "1e-5", False),
    ("ivp", lambda: so.ScipySolveIvpSolver(method="BDF", rtol=1e-7, atol=1e-9), 1, "1e-4", False),
    ("ivp", lambda: so.ScipySolveIvpSolver(method="LSODA", rtol=1e-8, atol=1e-10), 1, "1e-5", False),
    ("odeint", lambda: so.ScipyOdeIntSolver(), 1, "1e-5", False),
    ("odeint", lambda: so.ScipyOdeIntSolver(rtol=1e-10, atol=1e-10), 1, "1e-6", False),
]


def direct(c, add):
    rng = c.rng
    for i in range(3 if c.quick else 30):
        for k, (name, make, nsteps, tol, onestep) in enumerate(FACTORIES):
            def run(tr):
                n = rng.choice([1, 2, 3])
                sy = Sys(random_system(rng, n))
                n = 2 if sy.d["kind"] == "vdp" else n
                sol, other = make(), make()
                osy = Sys(random_system(rng, 2))
                while osy.d["kind"] == "vdp":
                    osy = Sys(random_system(rng, 2))
                other.set_system_equation(osy.f, osy.jac)
                other.set_initial_value(np.array([1.0, 2.0]), 0)
                other.set_f_params(0.5)
                jac = sy.jac if rng.random() < 0.6 or name != "euler" and not onestep else None
                sol.set_system_equation(sy.f, jac)
                tr.append(dict(ev="solver", solver="euler" if name == "euler" else "exact", nsteps=nsteps, tol=tol, onestep=onestep, sys=sy.event()))
                handed, t = [], 0.0
                ot = 0.0
                for episode in range(3):
                    y0 = np.array([rng.uniform(-2, 2) for _ in range(n)])
                    t = rng.choice([0.0, 0.0, rng.uniform(0, 3)])
                    sol.set_initial_value(y0, t)
                    handed.append((y0, y0.copy()))
                    tr.append(dict(ev="init", t=fl(t), y=vec(y0), got_t=fl(sol.t), got_y=vec(sol.y)))
                    u = rng.uniform(-2, 2)
                    sol.set_f_params(u)
                    for step in range(rng.randrange(1, 8)):
                        if rng.random() < 0.6:
                            u = rng.uniform(-3, 3)
                            sol.set_f_params(u)
                        if rng.random() < 0.3:
                            ot += 0.01
                            other.integrate(ot)
                        t += rng.choice([0.01, 0.05, rng.uniform(0.001, 0.2)])
                        sy.ts.clear()
                        y = sol.integrate(t)
                        ev = dict(ev="integrate", u=fl(u), t=fl(t), y=vec(y), got_t=fl(sol.t), got_y=vec(sol.y),
                                  tmin=fl(min(sy.ts, default=t)), tmax=fl(max(sy.ts, default=t)),     # a multistep integrator may have looked ahead
                                  intact=all((a == b).all() for a, b in handed))
                        handed.append((y, np.array(y)))
                        tr.append(ev)
            add("%s#%d.%d" % (name, k, i), run)


def near_zero(tr, scale):
    """A Dormand-Prince integrator started (not at time 0) from a state of rounding-error size."""
    sy = Sys(dict(kind="lin", A=[[-1.0]], b=[1000.0]))
    sol = so.ScipyOdeSolver()
    sol.set_system_equation(sy.f)
    tr.append(dict(ev="solver", solver="exact", nsteps=1, tol="1e-6", onestep=True, sys=sy.event()))
    y0 = np.array([scale])
    sol.set_initial_value(y0, 1e-3)
    tr.append(dict(ev="init", t=fl(1e-3), y=vec(y0), got_t=fl(sol.t), got_y=vec(sol.y)))
    sol.set_f_params(1.0)
    y = sol.integrate(1.1e-3)
    tr.append(dict(ev="integrate", u=fl(1.0), t=fl(1.1e-3), y=vec(y), got_t=fl(sol.t), got_y=vec(sol.y), tmin=fl(min(sy.ts)), tmax=fl(max(sy.ts)), intact=True))


SYS_SOLVERS = [lambda: so.EulerSolver(nsteps=400), lambda: so.ScipyOdeSolver(), lambda: so.ScipySolveIvpSolver(rtol=1e-6, atol=1e-8),
               lambda: so.ScipyOdeIntSolver(), lambda: so.ScipyOdeSolver("vode", method="bdf", rtol=1e-6, atol=1e-8),
               lambda: so.ScipySolveIvpSolver(method="Radau", rtol=1e-6, atol=1e-8)]


def systems(c, add):
    rng = c.rng
    ids = ["%s-CC-%s-v0" % (t, m) for m in envs.MOTORS for t in envs.CT]
    for eid in ids:
        def run(tr):
            es = []
            s0 = rng.randrange(10**6)
            for mk in SYS_SOLVERS:
                es.append(envs.make(eid, ode_solver=mk(), tau=1e-4, load=None if False else envs.gem.physical_systems.PolynomialStaticLoad(
                    load_parameter=dict(a=0.01, b=0.02, c=0.001, j_load=0.01))))
            for e in es:
                e.reset(seed=s0)
                e.physical_system.unwrapped.electrical_motor.seed(np.random.SeedSequence(s0))
            st = [e.physical_system.reset() for e in es]
            tr.append(dict(ev="agree", states=[vec(s) for s in st], tol="1e-9"))
            es[0].action_space.seed(rng.randrange(10**6))
            a = es[0].action_space.sample()
            for k in range(12):
                if rng.random() < 0.5:
                    a = es[0].action_space.sample()
                st = [e.physical_system.simulate(a) for e in es]
                ps = es[0].physical_system
                eps = [i for i, n in enumerate(ps.state_names) if n == "epsilon"]
                vs = []
                for s in st:
                    s = np.array(s)
                    for i in eps:          # compare angles modulo 2 pi
                        d = (s[i] - st[0][i])
                        s[i] = st[0][i] + (d + 1) % 2 - 1
                    vs.append(vec(s))
                tr.append(dict(ev="agree", states=vs, tol="2e-3"))
        add("%s under %d solvers" % (eid, len(SYS_SOLVERS)), run)


def run(c):
    c.model("MCSolvers", "Inputs <- SmallInputs\nDts <- SmallDts\nDepth = %d\nN = 4" % (6 if c.quick else 8), ["Accurate", "Restarted", "ClockIsSpan"])
    traces, names = [], []

    def add(nm, fn):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(fn))
        names.append(nm)
    direct(c, add)
    for scale in (0.0, 1e-12, 2e-17):
        add("dopri5 near-zero state %g" % scale, lambda tr: near_zero(tr, scale))
    systems(c, add)
    c.validate("SolverTrace", traces, names)
    c.assumptions += ["Euler is compared with the exact recurrence; adaptive methods with a Runge-Kutta-4 solution of 24 sub-steps, within the tolerance of the method",
                      "Multi-step methods may evaluate the system beyond the requested time (they interpolate), one-step methods may not"]

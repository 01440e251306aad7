"""Environments with answers reduced to digests, for C03, C04 and C05."""
import hashlib, random, warnings
import numpy as np
import gymnasium
import vf, envs, scml
from gym_electric_motor import RandomComponent
from gym_electric_motor.core import Callback
from gym_electric_motor import reference_generators as rg
from gym_electric_motor import physical_system_wrappers as pw
from gym_electric_motor.physical_systems import voltage_supplies as vs, solvers as so, mechanical_loads as ml, converters as cv
import motors


def flat(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        for k in sorted(x):
            yield str(k).encode()
            yield from flat(x[k])
    elif isinstance(x, gymnasium.spaces.Box):
        yield from flat((x.low, x.high))
    elif isinstance(x, gymnasium.Space):
        yield repr(x).encode()
    elif isinstance(x, str) or x is None:
        yield str(x).encode()
    else:
        yield (np.asarray(x, dtype=float) + 0.0).tobytes()


def digest(*x):
    h = hashlib.sha1()
    for b in flat(x):
        h.update(b)
    return h.hexdigest()[:16]


class Dice(Callback, RandomComponent):
    """A callback of a user with a random part; its draws belong to the answers."""
    def __init__(self):
        Callback.__init__(self)
        RandomComponent.__init__(self)
        self.v, self.state = 0.0, None

    def on_reset_begin(self):
        self.next_generator()

    def on_reset_end(self, state, reference):
        self.v, self.full = float(self.random_generator.uniform()), (np.array(state), np.array(reference))

    def on_step_end(self, k, state, reference, reward, done):
        self.v, self.full = float(self.random_generator.uniform()), (np.array(state), np.array(reference), k, reward, done)


class Instance:
    """One environment; every call returns the digest of everything it answered."""
    def __init__(self, build, nact=4):
        self.dice = Dice()
        self.env = build([self.dice])
        self.env.action_space.seed(17)
        self.acts = [self.env.action_space.sample() for _ in range(nact)]
        self.dead = False

    def attributes(self):
        e = self.env
        ps = e.physical_system
        return (list(e.state_names), list(ps.state_names), np.array(ps.limits), np.array(ps.nominal_state), np.array(e.limits), np.array(e.nominal_state), ps.tau,
                ps.state_space, e.observation_space[0], e.observation_space[1], e.action_space, list(e.reference_names), e.reward_range,
                sorted((k, float(v)) for k, v in ps.electrical_motor.motor_parameter.items()),
                sorted((k, float(v)) for k, v in ps.electrical_motor.limits.items()), sorted((k, float(v)) for k, v in ps.electrical_motor.nominal_values.items()),
                float(ps.supply.u_nominal), float(ps.converter.tau), float(e.sim.tau))

    def look(self):
        return digest(self.attributes(), int(self.env.physical_system.k))

    def reset(self, seed=None):
        (state, ref), info = self.env.reset(seed=seed)
        self.dead = False
        return digest(state, ref, self.dice.full, self.dice.v, self.attributes(), int(self.env.physical_system.k)), digest(self.dice.full[0], self.dice.v), digest(ref)

    def step(self, a):
        (state, ref), rew, term, trunc, info = self.env.step(self.acts[a])
        self.dead = bool(term)
        return digest(state, ref, rew, term, trunc, self.dice.full, self.dice.v, int(self.env.physical_system.k), self.env.physical_system.tau), digest(ref)


# ---------------------------------------------------------------- configurations
def plain(eid, **kw):
    return lambda cb: envs.make(eid, callbacks=cb, **{k: (v() if callable(v) else v) for k, v in kw.items()})


REFS = {
    "wiener": lambda s: rg.WienerProcessReferenceGenerator(reference_state=s, episode_lengths=(3, 8)),
    "wiener_initial": lambda s: rg.WienerProcessReferenceGenerator(reference_state=s, episode_lengths=(3, 8), initial_range=(0.1, 0.4)),
    "laplace": lambda s: rg.LaplaceProcessReferenceGenerator(reference_state=s, episode_lengths=(3, 8)),
    "sin": lambda s: rg.SinusoidalReferenceGenerator(reference_state=s, episode_lengths=(3, 8)),
    "tri": lambda s: rg.TriangularReferenceGenerator(reference_state=s, episode_lengths=(3, 8)),
    "saw": lambda s: rg.SawtoothReferenceGenerator(reference_state=s, episode_lengths=(3, 8)),
    "step": lambda s: rg.StepReferenceGenerator(reference_state=s, episode_lengths=(3, 8)),
}


def switched(s):
    return rg.SwitchedReferenceGenerator([REFS["wiener"](s), REFS["sin"](s), rg.ConstReferenceGenerator(s, 0.2)], p=[0.5, 0.3, 0.2], super_episode_length=(2, 5))


def rand_init(dist):
    return {"random_init": dist, "interval": None, "random_params": (0.1, 0.2), "states": None}


def initializer(mtype, dist):
    st = {n: 0.0 for n in scml.STATES[mtype]}
    return {"states": st, "interval": None, "random_init": dist, "random_params": (None, None)}


def random_configs():
    """Name -> (builder, reference independent of the episode lengths)."""
    d = {}
    for eid in envs.IDS:
        d[eid] = (plain(eid), True)
        d[eid + "/unconstrained"] = (plain(eid, constraints=()), True)
    for n, f in REFS.items():
        d["ref-" + n] = (lambda cb, f=f: envs.make("Cont-SC-PermExDc-v0", callbacks=cb, constraints=(), reference_generator=f("omega")), True)
    d["ref-switched"] = (lambda cb: envs.make("Cont-SC-SeriesDc-v0", callbacks=cb, constraints=(), reference_generator=switched("omega")), False)
    d["ref-switched-const"] = (lambda cb: envs.make("Cont-SC-SeriesDc-v0", callbacks=cb, constraints=(), reference_generator=rg.SwitchedReferenceGenerator(
        [rg.ConstReferenceGenerator("omega", v) for v in np.linspace(-0.4, 0.4, 9)], super_episode_length=(1, 3))), True)
    d["ref-multiple"] = (lambda cb: envs.make("Finite-CC-PMSM-v0", callbacks=cb, constraints=(), reference_generator=rg.MultipleReferenceGenerator(
        [switched("i_sd"), REFS["laplace"]("i_sq")])), False)
    d["ref-multiple-own"] = (lambda cb: envs.make("Cont-CC-ExtExDc-v0", callbacks=cb, constraints=(), reference_generator=rg.MultipleReferenceGenerator(
        [REFS["step"]("i_a"), REFS["wiener_initial"]("i_e")])), True)
    for m in ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc", "PMSM", "SynRM", "EESM", "SCIM", "DFIM"):
        for dist in ("uniform", "gaussian"):
            d["init-%s-%s" % (m, dist)] = (lambda cb, m=m, dist=dist: envs.make("Finite-CC-%s-v0" % m, callbacks=cb, constraints=(), motor=motors.CLS[m](
                motor_initializer=initializer(m, dist)), load=ml.PolynomialStaticLoad(load_initializer=rand_load(m, dist))), True)
    d["load-ou"] = (lambda cb: envs.make("Cont-CC-SeriesDc-v0", callbacks=cb, constraints=(), load=ml.OrnsteinUhlenbeckLoad(mu=60.0, sigma=40.0)), True)
    d["sup-ac1"] = (lambda cb: envs.make("Cont-CC-SeriesDc-v0", callbacks=cb, constraints=(), supply=vs.AC1PhaseSupply(u_nominal=60.0)), True)
    d["sup-ac1f"] = (lambda cb: envs.make("Finite-CC-PMSM-v0", callbacks=cb, constraints=(), supply=vs.AC1PhaseSupply(u_nominal=60.0, supply_parameter={"frequency": 33})), True)
    d["noise"] = (lambda cb: envs.make("Cont-SC-PermExDc-v0", callbacks=cb, constraints=(), physical_system_wrappers=(pw.StateNoiseProcessor(states="all", random_length=3),)), True)
    d["noise-uniform"] = (lambda cb: envs.make("Finite-TC-SCIM-v0", callbacks=cb, constraints=(), physical_system_wrappers=(
        pw.StateNoiseProcessor(states=["omega", "i_sd"], random_dist="uniform", random_kwargs=dict(low=-0.1, high=0.1)), pw.DeadTimeProcessor(),
        pw.StateNoiseProcessor(states=["torque"], random_dist="laplace", random_length=2))), True)
    return d


def rand_load(m, dist):
    return {"states": {"omega": 0.0}, "interval": None, "random_init": dist, "random_params": (None, None)}


CONST = {"PermExDc": "i", "SeriesDc": "i", "ShuntDc": "i", "ExtExDc": "i_a", "PMSM": "i_sq", "SynRM": "i_sq", "EESM": "i_sq", "SCIM": "i_sq", "DFIM": "i_sq"}
SOLVERS = {"euler": lambda: so.EulerSolver(), "euler4": lambda: so.EulerSolver(nsteps=4), "ode": lambda: so.ScipyOdeSolver("dopri5"), "adams": lambda: so.ScipyOdeSolver("vode", method="adams"),
           "bdf": lambda: so.ScipyOdeSolver("vode", method="bdf"), "ivp": lambda: so.ScipySolveIvpSolver(), "odeint": lambda: so.ScipyOdeIntSolver(), "lsoda": lambda: so.ScipyOdeSolver("lsoda")}


def deterministic_configs():
    """Environments without any random part, with memory in every component."""
    d = {}
    for i, m in enumerate(envs.MOTORS):
        for kind in envs.CT:
            for j, (sn, sf) in enumerate(SOLVERS.items()):
                def build(cb, m=m, kind=kind, sf=sf, j=j, i=i):
                    R = random.Random(1000 * i + 10 * j + (kind == "Cont"))
                    u0 = {"SCIM": 400.0, "DFIM": 500.0, "SynRM": 100.0}.get(m, 60.0)
                    wr = []
                    if m in scml.IM and j % 2 == 0:
                        wr.append(pw.FluxObserver())
                    if j % 3 == 0:
                        wr.append(pw.DeadTimeProcessor(steps=1 + j % 2))
                    if m not in scml.DC and j % 4 == 1:
                        wr.append(pw.CosSinProcessor("epsilon"))
                    ref = rg.ConstReferenceGenerator(CONST[m], 0.1) if m != "ShuntDc" else rg.ConstReferenceGenerator("i_a", 0.1)
                    tau = (1e-4 if kind == "Cont" else 1e-5) * R.choice([1.0, 1.0, 0.01])
                    load = [lambda: ml.PolynomialStaticLoad(), lambda: ml.ConstantSpeedLoad(30.0), lambda: ml.ExternalSpeedLoad(lambda t: 40 * np.sin(300 * t), tau=tau)][(i + j) % 3]
                    return envs.make("%s-CC-%s-v0" % (kind, m), callbacks=cb, ode_solver=sf(), tau=tau, reference_generator=ref, physical_system_wrappers=tuple(wr), load=load(),
                                     supply=[vs.RCVoltageSupply(u_nominal=u0, supply_parameter={"R": 0.2, "C": 1e-2}), vs.IdealVoltageSupply(u_nominal=u0),
                                             vs.AC1PhaseSupply(u_nominal=u0, supply_parameter={"frequency": 50, "phase": 0.7})][j % 3],
                                     converter=scml.converter(scml.topology(R, m, kind), tau * 0.2 if j % 2 == 0 else 0.0))
                d["%s-%s-%s" % (kind, m, sn)] = build
    return d

"""Construction helpers around the public API of gym_electric_motor."""
import numpy as np
import gymnasium
import gym_electric_motor as gem
from gym_electric_motor import ElectricMotorEnvironment
from gym_electric_motor.core import Callback, ElectricMotorVisualization, ReferenceGenerator, RewardFunction

CT = ["Cont", "Finite"]
TASK = ["TC", "SC", "CC"]
MOTORS = ["PermExDc", "ExtExDc", "SeriesDc", "ShuntDc", "PMSM", "SynRM", "EESM", "SCIM", "DFIM"]
IDS = ["%s-%s-%s-v0" % (c, t, m) for m in MOTORS for t in TASK for c in CT]


def make(env_id, **kw):
    return gem.make(env_id, **kw).unwrapped


def all_rgs(env):
    return env.reference_generator


class Ticker:
    """Shared counter of all calls the stub modules and callbacks receive."""
    def __init__(self):
        self.n = 0


class StubReference(ReferenceGenerator):
    """Deterministic reference; every call is counted and remembered."""
    def __init__(self, ticker, names=None, tag=0):
        super().__init__()
        self.t, self.tag, self.count, self.log = ticker, tag, 0, []
        self._want = names

    def set_modules(self, ps):
        super().set_modules(ps)
        n = len(ps.state_names)
        self._referenced_states = np.zeros(n, dtype=bool)
        self._referenced_states[0] = True
        self._reference_names = [ps.state_names[0]]
        self.reference_space = gymnasium.spaces.Box(-1, 1, shape=(1,), dtype=np.float64)
        self._n = n

    def get_reference(self, state, *_, **__):
        self.t.n += 1
        self.count += 1
        r = np.zeros(self._n)
        r[0] = 0.001 * (self.count % 900)
        self.log.append(r.copy())
        return r

    def get_reference_observation(self, state, *_, **__):
        self.t.n += 1
        return np.array([0.001 * ((self.count + 1) % 900)])

    def close(self):
        self.t.n += 1


class StubReward(RewardFunction):
    def __init__(self, ticker, tag=0):
        self.t, self.tag, self.count = ticker, tag, 0

    def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
        self.t.n += 1
        self.count += 1
        return 0.5 + 0.25 * self.count - violation_degree

    def reset(self, initial_state=None, initial_reference=None):
        self.t.n += 1

    def close(self):
        self.t.n += 1


class ScriptedConstraint:
    """User-function constraint whose degree is set by the driver."""
    def __init__(self, ticker=None):
        self.deg, self.t, self.seen = 0.0, ticker, []

    def __call__(self, state):
        if self.t:
            self.t.n += 1
        self.seen.append(np.array(state))
        return self.deg


class CountingCallback(Callback):
    def __init__(self, ticker):
        super().__init__()
        self.t = ticker

    def _tick(self, *a):
        self.t.n += 1

    on_reset_begin = on_reset_end = on_step_begin = on_step_end = on_close = _tick

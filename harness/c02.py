"""C02: callback protocol. Spec: Env / MCEnv (design, histories), CallbackTrace (conformance)."""
import numpy as np
import gym_electric_motor as gem
from gym_electric_motor.core import Callback, ElectricMotorVisualization
import vf, envs

CALLS = '{"reset", "resetseed", "safe", "partial", "viol", "swap_rg", "close"}'


class RecMixin:
    def _init(self, idx, sink):
        self.idx, self.sink, self.sets = idx, sink, []

    def set_env(self, env):
        super().set_env(env)
        self.sets.append(env)

    def on_reset_begin(self):
        self.sink.append(dict(cb=self.idx, ev="reset_begin"))

    def on_reset_end(self, state, reference):
        self.sink.append(dict(cb=self.idx, ev="reset_end", state=vf.vec(state), ref=vf.vec(reference)))

    def on_step_begin(self, k, action):
        self.sink.append(dict(cb=self.idx, ev="step_begin", k=int(k), action=vf.vec(action)))

    def on_step_end(self, k, state, reference, reward, terminated):
        self.sink.append(dict(cb=self.idx, ev="step_end", k=int(k), state=vf.vec(state), ref=vf.vec(reference),
                              reward=vf.fl(reward), term=bool(terminated)))

    def on_close(self):
        self.sink.append(dict(cb=self.idx, ev="close"))


class RecCallback(RecMixin, Callback):
    def __init__(self, idx, sink):
        Callback.__init__(self)
        self._init(idx, sink)


class RecVis(RecMixin, ElectricMotorVisualization):
    def __init__(self, idx, sink):
        super().__init__()
        self._init(idx, sink)

    def render(self):
        pass


class RefSpy:
    """Remembers what the environment's own reference generator returned last."""
    def __init__(self, rg):
        self.last = None
        g0, r0 = rg.get_reference, rg.reset

        def get_reference(state, *a, **k):
            r = g0(state, *a, **k)
            self.last = np.array(r)
            return r

        def reset(*a, **k):
            r = r0(*a, **k)
            self.last = np.array(r[0])
            return r
        rg.get_reference, rg.reset = get_reference, reset


def session(tr, env_id, calls, ncb, nvis, filt, scripted=True, stub=True, seed=1, **kw):
    sink, t = [], envs.Ticker()
    cbs = [RecCallback(i + 1, sink) for i in range(ncb)]
    vis = [RecVis(ncb + i + 1, sink) for i in range(nvis)]
    con = envs.ScriptedConstraint()
    if stub:
        kw.update(reference_generator=envs.StubReference(t), reward_function=envs.StubReward(t))
    if scripted:
        kw["constraints"] = (con,)
    if nvis == 1:
        e = gem.make(env_id, callbacks=cbs, visualization=vis[0], state_filter=filt, **kw).unwrapped
    else:
        # several (or no) visualizations: the environment class itself accepts an iterable
        wr = kw.pop("physical_system_wrappers", ())
        e0 = gem.make(env_id, visualization=RecVis(0, []), **kw).unwrapped
        e = gem.ElectricMotorEnvironment(e0.physical_system, e0.reference_generator, e0.reward_function, visualization=vis,
                                         state_filter=filt, callbacks=cbs, constraints=kw.get("constraints", e0.constraint_monitor),
                                         physical_system_wrappers=wr)
    if seed % 3 == 0:
        # a second environment made with the very same list of callbacks; nobody steps it
        gem.make(env_id, callbacks=cbs, visualization=RecVis(99, sink), **{k: v for k, v in kw.items() if k == "constraints"})
        del sink[:]
    e.action_space.seed(seed)
    spy = RefSpy(e.reference_generator)
    names = list(e.physical_system.state_names)
    fidx = [names.index(f) for f in (filt or names)]
    tr.append(dict(ev="env", n=ncb + nvis, filter=fidx, ns=len(names),
                   setenv=[sum(1 for x in c.sets if x is e) for c in cbs + vis]))
    n = 0
    for c in calls:
        del sink[:]
        n += 1
        ev = dict(raised=False, obs=[], ref=[], reward=0, term=False, deg=0, action=[])
        try:
            if c.startswith("reset"):
                ev["ev"] = "reset"
                obs, _ = e.reset(seed=3 if c == "resetseed" else None)
                ev.update(obs=vf.vec(obs[0]), ref=vf.vec(spy.last))
            elif c == "close":
                ev["ev"] = "close"
                e.close()
            elif c == "render":
                ev["ev"] = "render"
                e.render()
            elif c == "swap_rg":
                ev["ev"] = "swap"
                rg = envs.StubReference(t)
                rg.set_modules(e.physical_system)
                spy = RefSpy(rg)
                e.reference_generator = rg
            else:
                ev["ev"] = "step"
                con.deg = {"safe": 0.0, "partial": 0.7, "viol": 1.0}[c]
                a = e.action_space.sample()
                if n % 5 == 0 and isinstance(a, np.ndarray) and a.dtype.kind == "f":
                    a = a * 3.0   # out of range: still the action as given
                ev["action"] = vf.vec(a)
                ev["deg"] = vf.num(con.deg)
                obs, rew, term, trunc, _ = e.step(a)
                ev.update(obs=vf.vec(obs[0]), ref=vf.vec(spy.last), reward=vf.fl(rew), term=bool(term))
                if not scripted:
                    ev["deg"] = 1 if term else 0
        except Exception as ex:
            ev["raised"] = True
            ev["why"] = "%s %s" % (type(ex).__name__, str(ex)[:80])
        ev["recv"] = list(sink)
        tr.append(ev)


def run(c):
    from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor
    c.model("MCEnv", 'Depth = %d\nCalls = %s' % (6 if c.quick else 7, '{"reset", "safe", "partial", "viol", "swap_rg", "close"}'),
            ["RunningIff", "CountsSteps", "WellFormedLog", "NothingAfterTermination"], ["RefusedSilent"])
    hist = c.generate("MCEnv", 'Depth = 3\nCalls = %s' % CALLS, "INVARIANT Emit\n")
    if not c.quick:
        hist += c.generate("MCEnv", 'Depth = 4\nCalls = %s' % CALLS, "INVARIANT Emit\n")
    long_h = c.generate("MCEnv", 'Depth = 30\nCalls = %s' % CALLS, "INVARIANT Emit\n", workers=1,
                        simulate=("num=%d" % (8 if c.quick else 200), 35))
    traces, names = [], []
    base = [("Cont-CC-PermExDc-v0", ["i", "omega"]), ("Finite-SC-SeriesDc-v0", None), ("Cont-TC-PMSM-v0", ["i_sq", "epsilon", "torque"])]
    for i, h in enumerate(hist):
        eid, filt = base[i % 3]
        ncb, nvis = [(0, 1), (1, 0), (2, 0), (1, 1), (2, 2), (3, 1), (0, 0)][i % 7]
        if ncb + nvis == 0:
            ncb = 1
        traces.append(vf.scenario(lambda tr: session(tr, eid, h, ncb, nvis, filt, seed=i + 1)))
        names.append("%s:%s" % (eid, "/".join(h)))
    long_h = long_h[::1] if not c.quick else long_h[:54]
    for i, h in enumerate(long_h):
        eid = envs.IDS[i % len(envs.IDS)]
        names0 = list(envs.make(eid).physical_system.state_names)
        c.rng.shuffle(names0)
        filt = [None, names0[:3], names0[:1], names0][i % 4]
        wr = [(), (DeadTimeProcessor(steps=1 + i % 3),)][i % 2]
        h = [x if j % 3 else x for j, x in enumerate(h)] + ["reset", "render", "safe", "safe", "render", "partial", "close"]
        traces.append(vf.scenario(lambda tr: session(tr, eid, h, 1 + i % 3, i % 3, filt, seed=i, physical_system_wrappers=wr)))
        names.append("%s:long%d" % (eid, i))
        # the environment's own reference generator, reward function and constraints
        h2 = (["reset"] + ["safe"] * (4 + i % 9)) * 3 + ["close"]
        traces.append(vf.scenario(lambda tr: session(tr, eid, h2, 2, 1, filt, scripted=False, stub=False, seed=i)))
        names.append("%s:own%d" % (eid, i))
    c.validate("CallbackTrace", traces, names)

"""C01: episode protocol. Spec: Env / MCEnv (design, histories), EnvTrace (conformance)."""
import numpy as np
import vf, envs

CALLS = '{"reset", "resetseed", "safe", "partial", "viol", "swap_rg", "swap_rf", "close"}'
INV = ["RunningIff", "CountsSteps", "WellFormedLog", "NothingAfterTermination"]


class Session:
    """One real environment with scripted constraint, stub reference and reward."""
    def __init__(self, env_id, stubs=True, **kw):
        self.t = envs.Ticker()
        self.con = envs.ScriptedConstraint(self.t)
        if stubs:
            kw.setdefault("reference_generator", envs.StubReference(self.t))
            kw.setdefault("reward_function", envs.StubReward(self.t))
        self.env = envs.make(env_id, constraints=(self.con,), callbacks=[envs.CountingCallback(self.t)], **kw)
        self.n = 0
        self.env.action_space.seed(11)

    def action(self):
        self.n += 1
        return self.env.action_space.sample()

    def call(self, c):
        e, ev = self.env, {}
        try:
            if c in ("reset", "resetseed"):
                ev["ev"] = "reset"
                e.reset(seed=7 if c == "resetseed" else None)
            elif c == "close":
                ev["ev"] = "close"
                e.close()
            elif c == "swap_rg":
                ev["ev"] = "swap"
                rg = envs.StubReference(self.t) if self.n % 3 else e.reference_generator        # also set to the present one
                rg.set_modules(e.physical_system)
                e.reference_generator = rg
            elif c == "swap_rf":
                ev["ev"] = "swap"
                rf = envs.StubReward(self.t) if self.n % 2 else e.reward_function
                rf.set_modules(e.physical_system, e.reference_generator, e.constraint_monitor)
                e.reward_function = rf
            else:
                ev["ev"] = "step"
                d = {"safe": 0.0, "partial": [0.4, 0.999999, 0.5][self.n % 3], "viol": [1.0, 1, 1.5][self.n % 3]}[c]
                self.con.deg = d
                ev["deg"] = vf.num(d)
                ev["term"], ev["trunc"] = False, False
                ret = e.step(self.action())
                ev["term"], ev["trunc"] = bool(ret[2]), bool(ret[3])
            ev["raised"] = False
        except Exception as ex:
            ev["raised"] = True
            ev["why"] = "%s %s" % (type(ex).__name__, str(ex)[:60])
        ev["k"] = int(e.physical_system.k)
        ev["ticks"] = self.t.n
        return ev


def run_history(tr, ses, calls):
    tr.append(dict(ev="env", k=int(ses.env.physical_system.k), ticks=ses.t.n))
    for c in calls:
        tr.append(ses.call(c))


def real_limits(tr, env_id, rng, episodes, maxlen, **kw):
    """Default environment, real limit constraints: monitored states are all states."""
    env = envs.make(env_id, constraints=("all",), **kw)
    env.action_space.seed(rng.randrange(10**6))
    tr.append(dict(ev="env", k=int(env.physical_system.k), ticks=0))

    def step(a):
        ev = dict(ev="step", ticks=0, term=False, trunc=False, raised=False)
        try:
            ret = env.step(a)
            ev.update(term=bool(ret[2]), trunc=bool(ret[3]), mx=vf.fl(np.max(np.abs(ret[0][0]))))
        except Exception as ex:
            ev.update(raised=True, mx=0)
        ev["k"] = int(env.physical_system.k)
        tr.append(ev)
        return ev["raised"] or ev["term"]
    step(env.action_space.sample())
    for ep in range(episodes):
        env.reset(seed=rng.randrange(10**6) if ep % 2 == 0 else None)
        tr.append(dict(ev="reset", raised=False, k=int(env.physical_system.k), ticks=0))
        const = env.action_space.sample()
        for i in range(rng.randrange(3, maxlen)):
            if step(const if ep % 3 else env.action_space.sample()):
                step(const)  # a step after the end
                break


def run(c):
    depth = 4 if c.quick else 5
    c.model("MCEnv", 'Depth = %d\nCalls = %s' % (6 if c.quick else 7, '{"reset", "safe", "partial", "viol", "swap_rg", "close"}'),
            INV, ["RefusedSilent"])
    hist = c.generate("MCEnv", 'Depth = %d\nCalls = %s' % (depth, CALLS), "INVARIANT Emit\n")
    c.extra["histories_enumerated"] = len(hist)
    long_h = c.generate("MCEnv", 'Depth = 40\nCalls = %s' % CALLS, "INVARIANT Emit\n", workers=1,
                        simulate=("num=%d" % (7 if c.quick else 200), 45))
    traces, names = [], []
    base = [("Cont-CC-PermExDc-v0", {}), ("Finite-CC-PMSM-v0", {}), ("Cont-SC-SeriesDc-v0", {})]
    from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, CosSinProcessor
    rot = len(base)
    for i, h in enumerate(hist):
        # a fresh environment per history keeps histories independent
        if i % 40 == 0 or True:
            eid, kw = base[i % rot]
        tr = vf.scenario(lambda tr: run_history(tr, Session(eid), h))
        traces.append(tr)
        names.append("%s:%s" % (eid, "/".join(h)))
    for i, h in enumerate(long_h):
        eid = envs.IDS[(i * 7 + c.seed) % len(envs.IDS)]
        wr = [(DeadTimeProcessor(steps=1 + i % 3),), (), (DeadTimeProcessor(steps=2), DeadTimeProcessor())][i % 3]
        tr = vf.scenario(lambda tr: run_history(tr, Session(eid, physical_system_wrappers=wr), h))
        traces.append(tr)
        names.append("%s:long%d" % (eid, i))
    for eid in envs.IDS:
        h = "safe reset safe partial viol safe reset safe close resetseed safe swap_rf safe reset partial safe swap_rg safe resetseed safe viol reset reset safe".split()
        traces.append(vf.scenario(lambda tr: run_history(tr, Session(eid, stubs=False), h)))
        names.append(eid + ":all")
        traces.append(vf.scenario(lambda tr: real_limits(tr, eid, c.rng, 3 if c.quick else 12, 12 if c.quick else 400)))
        names.append(eid + ":limits")
    c.validate("EnvTrace", traces, names)
    c.assumptions += ["ENV: the physical system of an environment has no public exchange operation, so exchange refers to the reference generator and the reward function"]

"""C26: cascaded controllers. Spec: Control, EpisodeControl; CascadeTrace, EpisodeTrace (conformance)."""
import contextlib
import io
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
import gymnasium
import gem_controllers as gc
from gym_electric_motor.core import ElectricMotorVisualization
from gym_electric_motor.visualization import ConsolePrinter, MotorDashboard
from gym_electric_motor.visualization.motor_dashboard_plots import StatePlot
import vf, control as K
from c27 import DRAW as DRAWN, Figure          # pixels are only drawn on request
from vf import fl, vec

DRAW = DRAWN[0]


def wrapped(rng, env):
    """the environment as it is or as gymnasium hands it out"""
    return gymnasium.wrappers.OrderEnforcing(env) if rng.random() < 0.3 else env


def run_cascade(tr, c, env_id, opt=None, cycles=14, kw=None, closed=None):
    rng, np_rng = c.rng, c.np_rng
    task, t = env_id.split("-")[1:3]
    fin = env_id.startswith("Finite")
    opt = opt or K.options(rng, task)
    kw = K.settings(rng, t, fin=fin) if kw is None else kw
    env = K.make_env(env_id, rng, **kw)
    con = K.build(wrapped(rng, env), env_id, opt)
    tr.append(K.describe(env, env_id, opt))
    p = K.Probe(con)
    tr.append(p.gains())
    (s, r), _ = K.settle(env, rng.randrange(10 ** 6))
    if rng.random() < 0.8:
        con.reset()
        tr.append(dict(ev="reset"))
    closed = rng.random() < 0.6 if closed is None else closed
    for k in range(cycles):
        if not closed or (rng.random() < 0.1):
            s, r = K.random_obs(rng, np_rng, env)
        a = K.cycle(tr, p, s, r, fin)
        if closed:
            (s, r), _, term, trunc, _ = env.step(a)
        if (closed and term) or rng.random() < 0.08:
            if closed:
                (s, r), _ = K.settle(env, rng.randrange(10 ** 6))
            con.reset()
            tr.append(dict(ev="reset"))


VIS = ["dashboard", "dashboard", "dashboard", "printer", "custom"]


def shown(dash, env):
    """references of states without a reference of the environment and their maximum lines, as shown at the latest time"""
    refs, most = [], []
    for f in [plt.figure(n) for n in plt.get_fignums()]:
        for axis in f.axes:
            for name in env.state_names:
                if name in env.reference_names or StatePlot.state_labels.get(name, name) != axis.get_ylabel():
                    continue
                data, _ = Figure.split(axis)
                if len(data) > 1:
                    x, y = data[0]
                    at = np.nanargmax(np.where(np.isnan(y), -np.inf, x))
                    refs.append(dict(n=name, v=fl(data[1][1][at]) if data[1][0][at] == x[at] else fl(float("nan"))))
                h = [line.get_ydata()[0] for line in axis.get_lines() if matplotlib.colors.to_hex(line.get_color()) == matplotlib.colors.to_hex("g")
                     and line.get_transform() == axis.get_yaxis_transform(which="grid")]
                if h:
                    most.append(dict(n=name, lim=vec(h)))
    return dict(refs=sorted(refs, key=lambda d: d["n"]), most=sorted(most, key=lambda d: d["n"]))


def run_plots(tr, c, env_id, cycles=24):
    """references of the subordinate stages in the dashboard of the environment"""
    rng = c.rng
    task, t = env_id.split("-")[1:3]
    fin = env_id.startswith("Finite")
    opt, kw = K.options(rng, task), K.settings(rng, t, fin=fin)
    kind = rng.choice(VIS)
    upd = rng.choice([1, 3, 10])
    dash = MotorDashboard(state_plots="all", update_interval=upd, time_plot_width=rng.choice([cycles // 3, 1000])) if kind == "dashboard" else None
    vis = dict(printer=ConsolePrinter(), custom=ElectricMotorVisualization()).get(kind, dash)
    env = K.make_env(env_id, rng, visualization=vis, **kw)
    plot, want = rng.random() < 0.75, rng.random() < 0.75
    con = K.build(env, env_id, opt, should_plot=plot, **({} if want and rng.random() < 0.5 else dict(plot_references=want)))
    tr.append(dict(K.describe(env, env_id, opt), plots=plot and want))
    p = K.Probe(con)
    (s, r), _ = K.settle(env, rng.randrange(10 ** 6))
    con.reset()
    tr.append(dict(ev="reset"))
    start = rng.choice([0, 0, 3])
    with contextlib.redirect_stdout(io.StringIO()):
        for k in range(cycles):
            if k >= start and dash is not None:
                env.render()
            a = K.cycle(tr, p, s, r, fin)
            # written into the figures with the next update; a state is only shown from the second sample on
            if dash is not None and k > max(start, 1) and rng.random() < 0.3:
                dash.force_render()
                tr.append(dict(shown(dash, env), ev="shown"))
            (s, r), _, term, trunc, _ = env.step(a)
            if term or trunc:
                break
        if dash is not None and k >= start and rng.random() < 0.5:
            for f in [plt.figure(n) for n in plt.get_fignums()]:
                DRAW(f.canvas)
    plt.close("all")


def twin(tr, c, env_id, kw=None):
    """the same observations: a controller alone, one that was used and reset, one interleaved with another"""
    rng, np_rng = c.rng, c.np_rng
    task, t = env_id.split("-")[1:3]
    opt, kw = K.options(rng, task), K.settings(rng, t) if kw is None else kw
    env, env2 = K.make_env(env_id, rng, **kw), K.make_env(env_id, rng, **kw)
    obs = [K.random_obs(rng, np_rng, env) for _ in range(10)]
    other = [K.random_obs(rng, np_rng, env) for _ in range(10)]
    def answers(con, seq, peer=None):
        out = []
        for k, (s, r) in enumerate(seq):
            out.append(np.atleast_1d(np.asarray(con.control(s.copy(), r.copy()), dtype=float)).tobytes().hex())
            if peer is not None:
                peer.control(other[k][0].copy(), other[k][1].copy())
                if k == 5:
                    peer.reset()
        return out
    c1 = K.build(env, env_id, opt)
    c1.reset()
    alone = answers(c1, obs)
    answers(c1, other)
    c1.reset()
    again = answers(c1, obs)
    c2, c3 = K.build(env, env_id, opt), K.build(env2, env_id, K.options(rng, task))
    c2.reset(), c3.reset()
    mixed = answers(c2, obs, c3)
    tr.append(K.describe(env, env_id, opt))
    tr.append(dict(ev="twin", what="cycles before a reset", a=alone, b=again))
    tr.append(dict(ev="twin", what="another controller", a=alone, b=mixed))


class Scripted:
    """environment whose outcomes are scripted; observations are numbered"""
    def __init__(self, tr, script):
        self.tr, self.script, self.k, self.ids = tr, script, 0, [0]

    def obs(self):
        self.ids[0] += 1
        return (np.array([float(self.ids[0])]), np.array([-float(self.ids[0])]))

    def reset(self, *a, **k):
        o = self.obs()
        self.tr.append(dict(ev="reset", obs=self.ids[0]))
        return o, {}

    def render(self):
        self.tr.append(dict(ev="render"))

    def step(self, action):
        out = self.script[self.k]
        self.k += 1
        o = self.obs()
        self.tr.append(dict(ev="step", act=int(action[0]), obs=self.ids[0], end=out != "go"))
        return o, 0.0, out == "term", out == "trunc", {}


class Numbered(gc.GemController):
    block_diagram = None

    def __init__(self, tr, ids):
        super().__init__()
        self.tr, self.ids = tr, ids

    def control(self, state, reference):
        ob = int(state[0]) if state[0] == -reference[0] else -1
        self.ids[0] += 1
        self.tr.append(dict(ev="control", obs=ob, act=self.ids[0]))
        return np.array([self.ids[0]])

    def reset(self):
        self.tr.append(dict(ev="ctrlreset"))


def arguments(case, rng):
    a = [case["n"]]
    kw = {}
    if case["max"] < 10 ** 6:
        if rng.random() < 0.5:
            a.append(case["max"])
        else:
            kw["max_episode_length"] = case["max"]
    render = rng.random() < 0.3
    if render:
        kw["render_env"] = True
    return a, kw, render


def episode(tr, c, case, runs=1):
    env = Scripted(tr, case["script"])
    con = Numbered(tr, env.ids)
    for _ in range(runs):
        a, kw, render = arguments(case, c.rng)
        env.k = 0
        tr.append(dict(ev="run", n=case["n"], max=case["max"], render=render))
        con.control_environment(env, *a, **kw)
        tr.append(dict(ev="done"))


class NumberedStage(gc.stages.Stage):
    def __init__(self, tr, k, ids):
        super().__init__()
        self.tr, self.k, self.ids, self.resets = tr, k, ids, 0

    def __call__(self, state, reference):
        self.ids[0] += 1
        self.tr.append(dict(ev="stage", k=self.k, obs=int(state[0]), ref=int(reference[0]), out=self.ids[0]))
        return np.array([self.ids[0]])

    def reset(self):
        self.resets += 1


def chain(tr, c):
    """a controller composed of stages by the user"""
    rng, ids = c.rng, [100]
    con = gc.CascadedController()
    other = gc.CascadedController()
    n = rng.choice([1, 2, 3, 5])
    for k in range(n):
        con.stages.append(NumberedStage(tr, k + 1, ids))
    for _ in range(rng.choice([1, 4])):
        before = [s.resets for s in con.stages]
        if rng.random() < 0.5:
            other.reset()
            con.reset()
            tr.append(dict(ev="resets", n=n, resets=[s.resets - b for s, b in zip(con.stages, before)]))
        ids[0] += 2
        tr.append(dict(ev="through", n=n, obs=ids[0], ref=ids[0] - 1))
        out = con.control(np.array([ids[0]]), np.array([ids[0] - 1]))
        tr.append(dict(ev="out", out=int(out[0])))


class Watched:
    """a real environment seen from outside"""
    def __init__(self, tr, env):
        self.tr, self.env, self.n, self.keys = tr, env, 0, []

    def key(self, o):
        self.n += 1
        self.keys.append((np.array(o[0], copy=True), np.array(o[1], copy=True)))
        return self.n

    def reset(self, *a, **k):
        o, info = self.env.reset(*a, **k)
        self.tr.append(dict(ev="reset", obs=self.key(o)))
        return o, info

    def render(self):
        self.tr.append(dict(ev="render"))

    def step(self, action):
        x = self.env.step(action)
        act = self.acts if np.array_equal(np.asarray(action), self.last) else -1
        self.tr.append(dict(ev="step", act=act, obs=self.key(x[0]), end=bool(x[2] or x[3])))
        return x

    def __getattr__(self, name):
        return getattr(self.env, name)


def real_episode(tr, c, env_id):
    rng = c.rng
    env = K.make_env(env_id, rng)
    con = K.build(wrapped(rng, env), env_id, K.options(rng, env_id.split("-")[1]))
    w = Watched(tr, wrapped(rng, env))
    control, reset = con.control, con.reset

    def watched_control(state, reference):
        a = control(state, reference)
        ob = w.n if np.array_equal(state, w.keys[-1][0]) and np.array_equal(reference, w.keys[-1][1]) else -1
        w.acts, w.last = w.n + 10 ** 6, np.array(a, copy=True)
        tr.append(dict(ev="control", obs=ob, act=w.acts))
        return a

    def watched_reset():
        reset()
        tr.append(dict(ev="ctrlreset"))
    con.control, con.reset = watched_control, watched_reset
    for _ in range(rng.choice([1, 2])):
        n, mx = rng.choice([0, 1, 7, 40]), rng.choice([1, 5, 12, 10 ** 6])
        a, kw, render = arguments(dict(n=n, max=mx), rng)
        tr.append(dict(ev="run", n=n, max=mx, render=render))
        con.control_environment(w, *a, **kw)
        tr.append(dict(ev="done"))


IDS = ["%s-%s-%s-v0" % (ct, task, m) for m in K.DC for task in ("CC", "TC", "SC") for ct in ("Cont", "Finite")] + \
      ["Cont-%s-%s-v0" % (task, m) for m in ("PMSM", "SynRM", "SCIM") for task in ("CC", "TC", "SC")] + ["Cont-CC-EESM-v0"]


def run(c):
    c.model("MCControl", "Errs <- NegErrs\nDepth = %d\nKinds = {\"P\",\"I\",\"PI\",\"PID\"}\nClipKinds = {\"abs\",\"sq\"%s}" % ((2, "") if c.quick else (3, ',"comb"')),
            ["Within", "UnchangedInside", "Idempotent", "Direction", "FlagsAgree", "Fresh", "FirstCycle"], ["NoWindup", "Integrates"])
    c.model("MCEpisode", "N = %d\nMaxes <- AllMaxes" % (5 if c.quick else 8), ["Follows", "EpisodesBounded", "NeverBeyond"], ["AllSteps"])
    cases = c.generate("MCEpisode", "N = %d\nMaxes <- AllMaxes" % (4 if c.quick else 6), "INVARIANT Emit\n")
    traces = [vf.scenario(episode, c, k, 1 + (i % 7 == 0)) for i, k in enumerate(cases)]
    traces += [vf.scenario(chain, c) for _ in range(20)]
    cases += [dict(n=0, max=0, script="chain of stages")] * 20
    c.validate("EpisodeTrace", traces, ["script %d %s %s" % (k["n"], k["max"], k["script"]) for k in cases])
    traces, names = [], []
    for env_id in ["Cont-CC-PermExDc-v0", "Finite-SC-SeriesDc-v0", "Cont-TC-PMSM-v0", "Finite-CC-ExtExDc-v0", "Cont-SC-ShuntDc-v0", "Cont-CC-SCIM-v0"] * (1 if c.quick else 6):
        traces.append(vf.scenario(real_episode, c, env_id))
        names.append("episodes of %s" % env_id)
    c.validate("EpisodeTrace", traces, names)
    traces, names = [], []
    for rep in range(3 if c.quick else 20):
        for env_id in IDS:
            traces.append(vf.scenario(run_cascade, c, env_id))
            names.append("cascade %s #%d" % (env_id, rep))
    for env_id in IDS:
        traces.append(vf.scenario(twin, c, env_id))
        names.append("twin %s" % env_id)
    for rep in range(1 if c.quick else 8):
        for env_id in IDS:
            traces.append(vf.scenario(run_plots, c, env_id))
            names.append("plots %s #%d" % (env_id, rep))
    c.validate("CascadeTrace", traces, names)

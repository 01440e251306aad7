"""C27: dashboards. Spec: Dashboard; MCDashboard (design), MCDashHist (histories), DashTrace (conformance).

Console printer: Printer; MCPrinter (design), PrinterTrace (conformance)."""
import contextlib
import os
import tempfile
import io
import re
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
import gymnasium
from gym_electric_motor.core import Callback
from gym_electric_motor.visualization import ConsolePrinter, MotorDashboard
from gym_electric_motor.visualization.motor_dashboard import MotorDashboardLegacy
from gym_electric_motor.visualization.motor_dashboard_plots import CumulativeConstraintViolationPlot, EpisodeLengthPlot, MeanEpisodeRewardPlot, StatePlot
from gym_electric_motor.visualization.render_modes import RenderMode
import vf, envs, rewards
from vf import fl, vec

plt.pause = lambda *a, **k: None
# the data of the lines is read, not the pixels: drawing them costs most of the time and is done in some scenarios only
BACKEND = [plt.get_backend]
plt.get_backend = lambda *a, **k: BACKEND[1] if BACKEND[1:] else BACKEND[0](*a, **k)
DRAW = [FigureCanvasAgg.draw]
FigureCanvasAgg.draw = lambda self, *a, **k: DRAW[0](self, *a, **k) if DRAW[1:] else None
IDS = ["Cont-CC-PermExDc-v0", "Finite-CC-PermExDc-v0", "Finite-TC-ExtExDc-v0", "Cont-SC-SeriesDc-v0", "Cont-TC-PMSM-v0", "Finite-CC-PMSM-v0", "Cont-CC-SCIM-v0",
       "Finite-SC-ShuntDc-v0", "Cont-CC-DFIM-v0", "Finite-CC-DFIM-v0", "Cont-TC-EESM-v0", "Cont-CC-SynRM-v0", "Finite-SC-SCIM-v0"]


class Spy(Callback):
    """what every visualization is told"""
    def __init__(self):
        super().__init__()
        self.seen = None

    def on_reset_end(self, state, reference):
        self.begun = dict(state=vec(state), ref=vec(reference))

    def on_step_end(self, k, state, reference, reward, terminated):
        self.seen = dict(state=vec(state), ref=vec(reference), reward=fl(reward), term=bool(terminated))


class Figure:
    """the lines of the open figures"""
    def __init__(self, plots):
        self.plots, self.figs = plots, []

    def open(self):
        if not self.figs:
            self.figs = [plt.figure(n) for n in plt.get_fignums()]

    def forget(self):
        plt.close("all")
        self.figs = []

    @staticmethod
    def split(axis):
        data, vert = [], []
        for line in axis.get_lines():
            x, y = np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)
            if line.get_transform() == axis.get_xaxis_transform(which="grid"):
                vert.append((matplotlib.colors.to_hex(line.get_color()), float(x[0])))
            elif line.get_transform() == axis.get_yaxis_transform(which="grid"):
                continue
            else:
                data.append((x, y))
        return data, vert

    @staticmethod
    def points(x, y):
        if len(x) != len(y):
            return [[fl(-1), fl(-1)]] * 3
        keep = ~np.isnan(y)
        pts = sorted(zip(x[keep].tolist(), y[keep].tolist()))
        return [[fl(a), fl(b)] for a, b in pts]

    def read(self):
        out = dict(time=[], vmarks=[], rmarks=[], xlim=[], lens=[], means=[], cums=[])
        axes = {}
        for f in self.figs:
            for a in f.axes:
                axes.setdefault(a.get_ylabel(), []).append(a)
        first = None
        for kind, name, extra in self.plots:
            if kind in ("state", "action", "reward"):
                label = {"state": StatePlot.state_labels.get(name, name), "action": "Action %s" % name, "reward": "reward"}[kind]
                axis = axes[label][0]
                first = first or axis
                data, vert = self.split(axis)
                out["time"].append(self.points(*data[0]))
                if extra:
                    out["time"].append(self.points(*data[1]))
                red, blue = matplotlib.colors.to_hex("red"), matplotlib.colors.to_hex("blue")
                out["vmarks"].append([fl(x) for x in sorted(x for c, x in vert if c == red)])
                out["rmarks"].append([fl(x) for x in sorted(x for c, x in vert if c == blue)])
                out["xlim"].append([fl(v) for v in axis.get_xlim()])
            else:
                label, key = {"len": ("Episode Length", "lens"), "mean": ("Mean Reward Per Step", "means"), "cum": ("Cum. No. of Constraint Violations", "cums")}[kind]
                x, y = self.split(axes[label][0])[0][0]
                out[key].append([[fl(a), fl(b)] for a, b in zip(x, y)] if len(x) == len(y) else [[fl(-1), fl(-1)]] * 3)
        return out


def random_ops(rng, n):
    ops = ["reset"]
    for _ in range(n):
        last = [o for o in ops if o in ("step", "term", "reset")][-1]
        r = rng.random()
        ops.append("reset" if last == "term" or r < 0.06 else "term" if r < 0.1 else "render" if r < 0.3 else "clear" if r < 0.32 else "force" if r < 0.34 else "step")
    return ops + ["render", "force"]


def history(env, ops, seed, rng_seed, trip, on):
    """one history of an environment; `on' is told what happened"""
    env.action_space.seed(rng_seed)
    out = []
    first = True
    for op in ops:
        if op == "reset":
            trip[0] = 0.0
            s = env.reset(seed=seed) if first else env.reset()
            first = False
            out.append(np.concatenate(s[0]).tobytes().hex()[:64])
            on(op, None)
        elif op in ("step", "term"):
            trip[0] = 1.0 if op == "term" else 0.0
            a = env.action_space.sample()
            (s, r), rew, term, _, _ = env.step(a)
            trip[0] = 0.0
            out.append((np.concatenate([s, r]).tobytes() + np.float64(rew).tobytes()).hex()[-64:])
            on(op, a)
        else:
            on(op, None)
    return out


def scen(tr, c, ops, kind):
    rng = c.rng
    DRAW[1:] = ["pixels"] if rng.random() < 0.1 else []
    env_id = rng.choice(IDS)
    width, interval = rng.choice([2, 3, 5, 8, 30]), rng.choice([1, 1, 2, 3, 7])
    auto = kind == "auto"
    wrap = rewards.wrap(rng, env_id)
    probe = envs.make(env_id, physical_system_wrappers=wrap())
    names = list(probe.state_names)
    nact = 1 if isinstance(probe.action_space, gymnasium.spaces.Discrete) else probe.action_space.shape[0]
    states = rng.choice(["all", rng.sample(names, rng.randrange(0, 4)), rng.sample(names[:-1], 1) + names[-1:], rng.sample(names[:-2], 1) + names[-2:]]) if kind != "all" else "all"
    actions = rng.choice(["all", [], [rng.randrange(nact)]])
    reward = rng.random() < 0.6
    extra = [p for p in (EpisodeLengthPlot, MeanEpisodeRewardPlot, CumulativeConstraintViolationPlot) if rng.random() < 0.6]
    if not states and not actions and not reward and not extra:
        extra = [MeanEpisodeRewardPlot]
    spy, trip = Spy(), [0.0]
    legacy = rng.random() < 0.15 and not auto
    kw = dict(state_plots=states, action_plots=actions, reward_plot=reward, additional_plots=[p() for p in extra], update_interval=interval, time_plot_width=width)
    once = not auto and not legacy and rng.random() < 0.3
    dash = MotorDashboardLegacy(**kw) if legacy else MotorDashboard(render_mode=RenderMode.Figure if auto else RenderMode.FigureOnce if once else None, **kw)
    # in a notebook all plots are drawn into one figure
    BACKEND[1:] = [rng.choice(["nbAgg", "module://ipympl.backend_nbagg"])] if rng.random() < 0.2 else []
    saving = not legacy and (not extra or BACKEND[1:]) and rng.random() < 0.05
    scale = rng.random() < 0.3
    seed = rng.randrange(10 ** 6)
    trip_fn = lambda state: trip[0]
    tau = rng.choice([1e-4, 1e-3, 3e-5])
    mk = lambda **k: envs.make(env_id, constraints=(trip_fn,), tau=tau, physical_system_wrappers=wrap(), **k)
    plt.close("all")
    env = mk(visualization=dash, callbacks=[spy], scale_plots=scale)
    lim, rs = np.array(env.physical_system.limits), env.reference_generator.referenced_states
    sn = names if states == "all" else list(states)
    an = list(range(nact)) if actions == "all" else list(actions)
    figplots = [("state", n, bool(rs[names.index(n)])) for n in sn] + [("action", n, False) for n in an] + ([("reward", "", False)] if reward else [])
    plots = []
    for k, n, ref in figplots:
        idx = names.index(n) + 1 if k == "state" else (n + 1 if k == "action" else 1)
        plots.append(dict(kind=k, idx=idx, lim=fl(lim[idx - 1]) if k == "state" else "1"))
        if ref:
            plots.append(dict(kind="ref", idx=idx, lim=fl(lim[idx - 1])))
    key = {EpisodeLengthPlot: "len", MeanEpisodeRewardPlot: "mean", CumulativeConstraintViolationPlot: "cum"}
    fig = Figure(figplots + [(key[p], "", False) for p in extra])
    tr.append(dict(ev="dash", plots=plots, width=width, tau=fl(env.physical_system.tau), interval=interval, auto=auto))

    def look():
        fig.open()
        return fig.read() if fig.figs else []

    def on(op, a):
        if op == "reset":
            tr.append(dict(ev="reset"))
        elif op in ("step", "term"):
            act = [fl(float(x)) for x in np.atleast_1d(a)]
            assert spy.seen["term"] == (op == "term")
            tr.append(dict(ev="step", act=act, fig=look() if auto or rng.random() < 0.1 else [], **spy.seen))
        elif op == "render":
            env.render()
            tr.append(dict(ev="render", fig=look()))
        elif op == "force":
            if legacy:
                return
            dash.force_render()
            tr.append(dict(ev="force", fig=look()))
        elif op == "clear":
            dash.reset_figures()
            fig.forget()
            tr.append(dict(ev="clear"))
    shown = history(env, ops, seed, seed, trip, on)
    if once or rng.random() < 0.2:
        env.close()
        if once:
            tr.append(dict(ev="render", fig=look()))
    if saving:
        DRAW[1:] = ["pixels"]
        here = os.getcwd()
        with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
            os.chdir(d)
            try:
                for k in range(2):
                    dash.save_to_file("fig%d" % k)
                    tr.append(dict(ev="force", fig=look()))
                files = sorted((p, f) for p, _, fs in os.walk(".") for f in fs)
                png = all(open(os.path.join(p, f), "rb").read(4) == b"\x89PNG" for p, f in files)
            finally:
                os.chdir(here)
        tr.append(dict(ev="saved", ok=bool(png and [f for _, f in files] == ["fig0.png", "fig1.png"])))
    BACKEND[1:] = []
    plt.close("all")
    plain = history(mk(), ops, seed, seed, trip, lambda op, a: None)
    tr.append(dict(ev="twin", a=shown, b=plain))


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"
EPISODE = re.compile(r"Episode\s+(\d+)\s+(Constraint Violation|External Reset).*?Number of steps:\s*(\d+).*?Cumulative Reward:?\s*(%s)" % NUM, re.S)
STEPLINE = re.compile(r"Episode\s+(\d+)\s+Step\s+(\d+)\s+State\s+\[(.*?)\]\s+Reference\s+\[(.*?)\]\s+Reward\s+(%s)\s+Cumulative Reward:?\s*(%s)" % (NUM, NUM), re.S)


def printed(text):
    num = lambda t: fl(float(t)) if np.isfinite(float(t)) else fl(1e300)
    arr = lambda t: [num(x) for x in re.findall(NUM, t)]
    steps = [dict(no=int(a), k=int(b), state=arr(s), ref=arr(r), reward=num(w), cum=num(q)) for a, b, s, r, w, q in STEPLINE.findall(text)]
    eps = [dict(no=int(a), violated=b == "Constraint Violation", steps=int(s), cum=num(q)) for a, b, s, q in EPISODE.findall(STEPLINE.sub("", text))]
    return dict(episode=eps, step=steps)


def printer(tr, c, ops):
    rng = c.rng
    env_id = rng.choice(IDS)
    wrap, spy, trip, seed = rewards.wrap(rng, env_id), Spy(), [0.0], rng.randrange(10 ** 6)
    verbose, freq = rng.choice([0, 1, 2, 2, 2]), rng.choice([1, 1, 2, 3])
    mk = lambda **k: envs.make(env_id, constraints=(lambda state: trip[0],), physical_system_wrappers=wrap(), **k)
    env = mk(visualization=ConsolePrinter(verbose=verbose, update_freq=freq), callbacks=[spy])
    tr.append(dict(ev="printer", verbose=verbose, freq=freq, lim=vec(env.physical_system.limits)))

    def on(op, a):
        if op == "reset":
            tr.append(dict(ev="reset", **spy.begun))
        elif op in ("step", "term"):
            tr.append(dict(ev="step", **spy.seen))
        elif op == "render":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                env.render()
            tr.append(dict(ev="render", out=printed(out.getvalue())))
    shown = history(env, ops, seed, seed, trip, on)
    plain = history(mk(), ops, seed, seed, trip, lambda op, a: None)
    tr.append(dict(ev="twin", a=shown, b=plain))


def run(c):
    inv = ["Window", "Episodes", "Lengths", "Violations", "MarksInOrder", "Marks", "Rarely"]
    for d, w, i in ((6, 2, 2),) if c.quick else ((8, 2, 2), (8, 3, 1), (8, 3, 3)):
        c.model("MCDashboard", "Depth = %d\nWidth = %d\nInterval = %d" % (d, w, i), inv, ["RenderIsPure", "ShownOnlyByRender"])
    hist = c.generate("MCDashHist", "N = %d" % (5 if c.quick else 6), "INVARIANT Emit\n")
    c.rng.shuffle(hist)
    hist = hist[:60 if c.quick else 400]
    traces, names = [], []
    for h in hist:
        traces.append(vf.scenario(scen, c, h + ["force"], "short"))
        names.append("history " + " ".join(h))
    for k in range(40 if c.quick else 300):
        kind = ["mixed", "auto", "all"][k % 3]
        traces.append(vf.scenario(scen, c, random_ops(c.rng, c.rng.choice([5, 20, 60])), kind))
        names.append("%s #%d" % (kind, k))
    c.validate("DashTrace", traces, names)
    for v, f in ((2, 2),) if c.quick else ((0, 1), (1, 1), (2, 1), (2, 2), (2, 3)):
        c.model("MCPrinter", "Depth = %d\nVerbose = %d\nFreq = %d" % (5 if c.quick else 7, v, f), ["CountsEpisodes", "ThisEpisode", "Once", "OnlyEnded", "Silent"], ["RenderIsPure"])
    traces, names = [], []
    for k in range(60 if c.quick else 400):
        ops = [o for o in (hist[k % len(hist)] if k % 2 else random_ops(c.rng, c.rng.choice([5, 20, 60]))) if o not in ("clear", "force")]
        traces.append(vf.scenario(printer, c, ops))
        names.append("printer #%d %s" % (k, " ".join(ops[:12])))
    c.validate("PrinterTrace", traces, names)

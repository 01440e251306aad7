"""C25: stages of the controllers. Spec: Control; MCControl (design), StageTrace, CascadeTrace (conformance)."""
import numpy as np
import gem_controllers as gc
import vf, control as K
import c26
from vf import fl, vec

KINDS = ["P", "I", "PI", "PID", "ThreePoint"]
ENVS = ["Cont-TC-%s-v0" % m for m in K.DC + K.AC]
CACHE = {}


def env_of(env_id, c):
    key = (env_id, c.rng.randrange(3))
    if key not in CACHE:
        CACHE[key] = K.make_env(env_id, c.rng, **K.settings(c.rng, env_id.split("-")[2]))
    return CACHE[key]


def value(rng, scale=100.0):
    return rng.choice([0.0, 1.0, -1.0, rng.uniform(-scale, scale), rng.uniform(-1, 1), scale, rng.uniform(-1, 1) * 1e-9])


def stage(tr, c, kind):
    rng = c.rng
    n = rng.choice([1, 1, 2, 3])
    width = rng.randrange(n, 7)
    idx = rng.sample(range(width), n)
    tau = rng.choice([1e-5, 1e-4, 0.5, 1.0, rng.uniform(1e-5, 1e-2)])
    arr = lambda lo, hi: np.array([rng.uniform(lo, hi) for _ in range(n)])
    g = dict(p=arr(0, 50), i=arr(-20, 100) if rng.random() < 0.5 else arr(0, 100), d=arr(0, 1e-2), h=arr(0, 3), lo=arr(-60, -1), hi=arr(1, 60), idle=arr(-1, 1))
    if rng.random() < 0.3:
        g["h"] = np.array([float(rng.choice([0, 1, 2])) for _ in range(n)])
    con = gc.stages.base_controllers.get(kind)(rng.choice(["CC", "SC"]))
    if kind == "ThreePoint":
        con.hysteresis, con.low_action, con.high_action, con.idle_action, con.referenced_state_indices = g["h"], g["lo"], g["hi"], g["idle"], idx
    else:
        con.state_indices = idx
        if kind != "I":
            con.p_gain = g["p"].copy()
        if kind != "P":
            con.i_gain, con.tau = g["i"].copy(), tau
        if kind == "PID":
            con.d_gain = g["d"].copy()
    if kind not in ("P", "ThreePoint"):
        con.reset()
    has_i = hasattr(con, "i_gain")
    tr.append(dict(ev="ctrl", kind=kind, n=n, idx=[k + 1 for k in idx], tau=fl(tau), iset=vec(con.i_gain) if has_i else vec(np.clip(g["i"], 0, None)), **{k: vec(v) for k, v in g.items()}))
    for _ in range(14):
        x, r = np.array([value(rng) for _ in range(width)]), np.array([value(rng) for _ in range(n)])
        if kind == "ThreePoint" and rng.random() < 0.4:      # on the edge of the hysteresis, with values that are exact
            x = np.round(x)
            r = x[idx] + np.round(g["h"]) * rng.choice([-1, 0, 1])
        what = rng.random()
        if what < 0.6 or kind == "ThreePoint":
            x0, r0 = x.copy(), r.copy()
            y = con(x, r) if rng.random() < 0.7 or kind == "ThreePoint" else con.control(x, r)
            tr.append(dict(ev="call", x=vec(x0), r=vec(r0), y=vec(y), same=bool(np.array_equal(x, x0) and np.array_equal(r, r0))))
        elif what < 0.72 and has_i:
            con.integrate(x, r)
            tr.append(dict(ev="integrate", x=vec(x), r=vec(r), z=vec(con.integrator)))
        elif what < 0.85:
            con.reset()
            tr.append(dict(ev="reset"))
        if rng.random() < 0.15:
            con.reset()
            tr.append(dict(ev="reset"))


def windup(tr, c, env_id):
    """anti-windup stage tuned to an environment, feeding the integrator of a PI controller"""
    rng = c.rng
    env = env_of(env_id, c)
    task = rng.choice(["CC", "TC", "SC"])
    aw = gc.stages.AntiWindup(task)
    aw.tune(env, env_id)
    t = env_id.split("-")[2]
    names = {"CC": gc.parameter_reader.currents[t], "TC": ["torque"], "SC": ["omega"]}[task]
    idx = [list(env.state_names).index(k) for k in names]
    n = len(idx)
    con = gc.stages.base_controllers.get("PI")("CC")
    con.p_gain, con.i_gain, con.tau, con.state_indices = np.ones(n), np.ones(n), env.physical_system.tau, idx
    con.reset()
    tr.append(dict(ev="ctrl", kind="PI", n=n, idx=[k + 1 for k in idx], tau=fl(env.physical_system.tau), p=vec(np.ones(n)), i=vec(np.ones(n)), iset=vec(con.i_gain),
                   d=vec(np.zeros(n)), h=vec(np.zeros(n)), lo=vec(np.zeros(n)), hi=vec(np.zeros(n)), idle=vec(np.zeros(n))))
    for _ in range(10):
        x, r = np.array([value(rng) for _ in env.state_names]), np.array([value(rng) for _ in idx])
        diff = np.array([rng.choice([0.0, 0.0, -0.0, 1e-300, -3.0, 5.0]) for _ in idx])
        d = aw(x, r, diff)
        con.integrator += d
        tr.append(dict(ev="windup", x=vec(x), r=vec(r), diff=vec(diff), d=vec(d), z=vec(con.integrator)))
        y = con(x, r)
        tr.append(dict(ev="call", x=vec(x), r=vec(r), y=vec(y), same=True))
        if rng.random() < 0.2:
            con.reset()
            tr.append(dict(ev="reset"))


def clipper(tr, c, kind, env_id):
    rng, np_rng = c.rng, c.np_rng
    env = env_of(env_id, c)
    t = env_id.split("-")[2]
    task = "CC" if kind == "comb" or rng.random() < 0.5 else rng.choice(["TC", "SC"])
    if kind == "comb":
        task = rng.choice(["CC", "TC"])
    cls = dict(abs="AbsoluteClippingStage", sq="SquaredClippingStage", comb="CombinedClippingStage")[kind]
    st = getattr(gc.stages.clipping_stages, cls)(task)
    names = {"CC": gc.parameter_reader.voltages[t], "TC": gc.parameter_reader.currents[t], "SC": ["torque"]}[task]
    idx = [list(env.state_names).index(k) for k in names]
    sp = env.observation_space[0]
    for first in range(2):
        margin = rng.choice([0.0, 0.2, 0.5, 0.9, rng.random()])
        if margin == 0.0 and rng.random() < 0.5:
            st.tune(env, env_id)
        else:
            st.tune(env, env_id, margin=margin)
        tr.append(dict(ev="clipper", kind=kind, margin=fl(margin), lim=vec(env.limits[idx]), low=vec(sp.low[idx]), high=vec(sp.high[idx]),
                       rlo=vec(st.action_range[0]), rhi=vec(st.action_range[1]), diff=vec(st.clipping_difference) if first == 0 else []))
        for _ in range(8):
            x = env.limits[idx] * (1 - margin) * np_rng.uniform(-1, 1, len(idx)) * rng.choice([0.3, 1.0, 2.0, 1e4, 1.0, 1.0])
            if rng.random() < 0.3:
                x = x * np_rng.choice([0.0, 1.0, 3.0], size=len(idx))
            if rng.random() < 0.15:
                x = env.limits[idx] * (1 - margin) * np_rng.choice([-1.0, 1.0], size=len(idx))
            x0 = x.copy()
            y = st(np_rng.uniform(-1, 1, len(env.state_names)), x)
            tr.append(dict(ev="clip", x=vec(x0), y=vec(y), diff=vec(st.clipping_difference), flag=[bool(b) for b in st.clipped], same=bool(np.array_equal(x, x0))))
            if rng.random() < 0.2:
                st.reset()
                tr.append(dict(ev="cleared", diff=vec(st.clipping_difference), flag=[bool(b) for b in st.clipped]))


def output(tr, c, env_id):
    """voltage references of any size become commands of the converter"""
    rng, np_rng = c.rng, c.np_rng
    fin = env_id.startswith("Finite")
    t = env_id.split("-")[2]
    env = K.make_env(env_id, rng, **K.settings(rng, t, fin=fin))
    names = gc.parameter_reader.voltages[t] if t in K.DC else ["u_sa", "u_sb", "u_sc"] if t == "SCIM" else ["u_a", "u_b", "u_c"] + ["u_sup"] * (t == "EESM")  # the excitation converter delivers the supply voltage
    idx = [list(env.state_names).index(k) for k in names]
    sp = env.observation_space[0]
    asp = env.action_space
    nvec = ([int(asp.n)] if hasattr(asp, "n") else [int(n) for n in asp.nvec]) if fin else []
    st = gc.stages.DiscOutputStage() if fin else gc.stages.ContOutputStage()
    st.tune(env, env_id)
    tr.append(dict(ev="output", fin=fin, nvec=nvec, lim=vec(env.limits[idx]), low=vec(sp.low[idx]), high=vec(sp.high[idx])))
    for _ in range(12):
        u = env.limits[idx] * np_rng.uniform(-1, 1, len(idx)) * rng.choice([0.3, 1.0, 1.0, 2.0])
        if rng.random() < 0.3:
            u = u * np_rng.choice([0.0, 1.0], size=len(idx))
        u0 = u.copy()
        y = st(np_rng.uniform(-1, 1, len(env.state_names)), u)
        tr.append(dict(ev="command", u=vec(u0), y=K.act_list(env, y, fin), same=bool(np.array_equal(u, u0))))


def run(c):
    c.model("MCControl", "Errs <- NegErrs\nDepth = %d\nKinds = {\"P\",\"I\",\"PI\",\"PID\"}\nClipKinds = {\"abs\",\"sq\"%s}" % ((2, "") if c.quick else (3, ',"comb"')),
            ["Within", "UnchangedInside", "Idempotent", "Direction", "FlagsAgree", "Fresh", "FirstCycle"], ["NoWindup", "Integrates"])
    reps = 1 if c.quick else 8
    traces, names = [], []
    for kind in KINDS * (10 * reps):
        traces.append(vf.scenario(stage, c, kind))
        names.append("base controller " + kind)
    for env_id in ENVS * (2 * reps):
        traces.append(vf.scenario(windup, c, env_id))
        names.append("anti-windup " + env_id)
    for env_id in ENVS * (2 * reps):
        t = env_id.split("-")[2]
        for kind in ["abs"] + (["sq"] if t not in ("ExtExDc",) else []) + (["comb"] if t == "EESM" else []):
            traces.append(vf.scenario(clipper, c, kind, env_id))
            names.append("clipping %s %s" % (kind, env_id))
    for env_id in (["Cont-CC-%s-v0" % m for m in K.DC + K.AC] + ["Finite-CC-%s-v0" % m for m in K.DC] * 4) * reps:
        traces.append(vf.scenario(output, c, env_id))
        names.append("output " + env_id)
    c.validate("StageTrace", traces, names)
    traces, names = [], []
    for rep in range(2 * reps):
        for env_id in c26.IDS:
            traces.append(vf.scenario(c26.run_cascade, c, env_id))
            names.append("cascade %s #%d" % (env_id, rep))
    c.validate("CascadeTrace", traces, names)

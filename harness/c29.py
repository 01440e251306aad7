"""C29: operating points of DC machines. Spec: Control, Motors; DcOpsTrace, CascadeTrace (conformance)."""
import numpy as np
import gem_controllers as gc
import vf, control as K, motors
import c26
from vf import fl, vec


def scen(tr, c, t):
    rng, np_rng = c.rng, c.np_rng
    env_id = "%s-TC-%s-v0" % (rng.choice(["Cont", "Finite"]), t)
    kw = K.settings(rng, t)
    base = motors.CLS[t]().motor_parameter
    if rng.random() < 0.5:
        kw["motor"] = dict(motor_parameter={k: float(base[k]) * rng.uniform(0.3, 3) for k in motors.PARAMS[t] if k in base})
    if rng.random() < 0.4:
        kw.setdefault("motor", {})["limit_values"] = {k: rng.uniform(50, 400) for k in (["i"] if t in ("PermExDc", "SeriesDc") else ["i_a", "i_e"])}
    env = K.make_env(env_id, rng, **kw)
    ps = env.physical_system
    margin = rng.choice([0.0, 0.2, 0.5, rng.uniform(0, 0.9)])
    names, lim, sp = list(env.state_names), np.array(env.limits), env.observation_space[0]
    ops = gc.stages.torque_to_current_function[t]()
    default = rng.random() < 0.3
    if default:
        margin = 0.2
        ops.tune(env, env_id)
    else:
        ops.tune(env, env_id, margin)
    policy = t == "ExtExDc" and rng.random() < 0.3
    want = [0.0]
    if policy:
        ops.i_e_policy = lambda state, reference: want[0]
    via = rng.random() < 0.6                         # through a complete torque controller
    con = None
    if via:
        con = gc.TorqueController(env, env_id, torque_to_current_stage=ops) if rng.random() < 0.5 or policy else gc.TorqueController(env, env_id)
        if default:
            con.tune(env, env_id)
        else:
            con.tune(env, env_id, current_safety_margin=margin)
        con.reset()
    tr.append(dict(ev="ops", t=t, mp={k: fl(v) for k, v in ps.electrical_motor.motor_parameter.items()}, names=names, lim=vec(lim), low=vec(sp.low), high=vec(sp.high),
                   margin=fl(margin), policy=policy))
    ie = names.index("i_e") if "i_e" in names else None
    tmax = lim[names.index("torque")]
    for _ in range(20):
        x = np_rng.uniform(-1, 1, len(names)) * lim * rng.choice([1.0, 0.3, 1.2])
        if ie is not None:
            lie = lim[ie] * (1 - margin)
            x[ie] = rng.choice([x[ie], x[ie], x[ie], 0.0, 5e-5, -5e-5, lie * 1.0001, -lie * 1.0001, lie * 0.999, -lie * 0.999, 1e-3, abs(x[ie])])
        if rng.random() < 0.2:
            x[names.index("omega")] = rng.choice([0.0, 1e-9, lim[names.index("omega")]])
        T = rng.choice([1.0, 0.1, 2.0, 10.0]) * rng.uniform(-1, 1) * tmax
        T = rng.choice([T, T, T, T, 0.0, tmax, -tmax])
        if t == "SeriesDc":
            T = abs(T)
        want[0] = rng.uniform(0, lim[ie]) if ie is not None else 0.0
        r = np.array([T])
        x0 = x.copy()
        i = ops(x, r)
        j = []
        if via:
            con.control(x, r)
            j = vec(con.current_reference)
        tr.append(dict(ev="select", x=vec(x0), T=fl(T), i=vec(i), j=j, ie=fl(want[0]), same=bool(np.array_equal(x, x0) and r[0] == T)))
        if rng.random() < 0.1:
            ops.reset()


def run(c):
    c.model("MCDcOps", "Grid <- %s" % ("SmallGrid" if c.quick else "LargeGrid"), ["Realised", "DrivenBack", "CappedTorque", "LossOptimal"])
    traces, names = [], []
    for rep in range(14 if c.quick else 150):
        for t in K.DC:
            traces.append(vf.scenario(scen, c, t))
            names.append("operating points of %s #%d" % (t, rep))
    c.validate("DcOpsTrace", traces, names)
    traces, names = [], []
    for rep in range(3 if c.quick else 20):
        for env_id in c26.IDS:
            if env_id.split("-")[2] in K.DC and "-CC-" not in env_id:
                traces.append(vf.scenario(c26.run_cascade, c, env_id))
                names.append("cascade %s #%d" % (env_id, rep))
    c.validate("CascadeTrace", traces, names)

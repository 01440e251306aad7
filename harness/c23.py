"""C23: limits, nominal values and sign ranges. Spec: Limits; MCLimits (design), LimitTrace (conformance)."""
import warnings
import numpy as np
import vf, envs, motors, scml, specdefaults
from vf import fl, vec
from gym_electric_motor.physical_systems import mechanical_loads as ml, voltage_supplies as vs

INV = ["Positive", "NominalBelow", "UserKept", "SignRange"]
SPECIFIC = dict(PMSM=["i_a", "i_sd", "i_sq", "u_b", "u_sd", "u_sq"], SynRM=["i_c", "i_sd", "u_a", "u_sq"], EESM=["i_sd", "i_e", "u_e", "u_sd"],
                SCIM=["i_sa", "i_sd", "i_sq", "u_sc", "u_sq"], DFIM=["i_sa", "i_sq", "i_ra", "i_rd", "u_sa", "u_ra", "u_rq"])


def settings(rng, t):
    """Consistent user limits and nominal values (nominal not above the limit)."""
    dl, dn = specdefaults.LIMITS[t], specdefaults.NOMINAL[t]
    gen = [q for q in dl if q != "epsilon"]
    if t not in scml.DC:
        gen += SPECIFIC[t]
    ul, un = {}, {}
    for q in rng.sample(gen, rng.choice([0, 1, 1, 2, 3, len(gen)])):
        base = dl.get(q, 0) or (0.5 * dl["u"] if q.startswith("u") else 100.0 if q == "torque" else dl["i"])
        ul[q] = rng.choice([base * rng.uniform(0.1, 3), float(int(base * 0.7) + 1), int(base * 0.7) + 1])
    for q in rng.sample(gen, rng.choice([0, 0, 1, 2])):
        gl = ul.get(q, dl.get(q, 0)) or (min(0.5 * ul.get("u", dl["u"]), ul.get(q, 1e9)) if q.startswith("u") else 1e-2 if q == "torque" else ul.get("i", dl["i"]))
        un[q] = gl * rng.uniform(0.2, 1.0)
    if t in ("PermExDc", "SeriesDc") and rng.random() < 0.2:
        ul["i"] = 0.0                              # left open: stationary current at the voltage limit
        un.pop("i", None)
    if t in ("ExtExDc", "ShuntDc") and rng.random() < 0.35:
        for q in rng.sample(["i_a", "i_e"], rng.choice([1, 1, 2])):
            ul[q] = rng.choice([0, 0.0])               # left open: the general current limit, or the stationary current
            un.pop(q, None)
        if rng.random() < 0.5:
            ul["i"] = rng.choice([0.0, rng.uniform(5, 200)])
            un.pop("i", None)
    if rng.random() < 0.2:
        ul["torque"] = 0
        un.pop("torque", None)
    return ul, un


def params(rng, t):
    full = specdefaults.PARAMS[t]
    u = {n: (rng.randrange(1, 7) if n == "p" else v * rng.uniform(0.9, 1.1) if t == "EESM" and n != "l_q" else v * 10 ** rng.uniform(-0.5, 1.5) if t == "EESM" else v * 10 ** rng.uniform(-0.5, 0.5)) for n, v in full.items() if rng.random() < 0.5}
    if t == "PMSM" and rng.random() < 0.3:
        u["l_d"] = u["l_q"] = 10 ** rng.uniform(-4, -2.5)
    if t == "EESM" and rng.random() < 0.3:
        u["l_q"] = u.setdefault("l_d", full["l_d"])
    if t in scml.DC and t != "ExtExDc" and rng.random() < 0.1:
        u["r_a"] = 0.0
    return u


def drive(c, t, kind, tr):
    rng = c.rng
    ul, un = settings(rng, t)
    user = params(rng, t)
    cfg = scml.configuration(rng, t, kind, user=user, bare=rng.random() < 0.3)
    mkw = dict(motor_parameter=dict(user), limit_values=dict(ul), nominal_values=dict(un), motor_initializer={})
    cfg["motor_kw"] = mkw
    if not cfg["bare"] and cfg["cs"] == "abc":
        cfg["as_dict"] = rng.random() < 0.4
    cfg["load"] = dict(kind="poly", a=0.01, b=0.001, c=0.0, j_load=1e-2, w0=0.0)
    wl = "none"
    if rng.random() < 0.4:
        wl = rng.uniform(20, 500)
        cfg["load_limits"] = dict(omega=wl)
    env, rec, sol = scml.make(cfg)
    ps = env.physical_system
    mp = dict(specdefaults.PARAMS[t], **user)
    us = cfg["sup"]["u0"]
    amp = us * np.sqrt(2)
    lo, hi = dict(ideal=(us, us), rc=(0.0, us), ac1=(-amp, amp))[cfg["sup"]["kind"]]
    g = dict(type=t, mp={k: fl(v) for k, v in mp.items()}, units=[dict(type=x) for x in cfg["types"]], ul=[[n, fl(v)] for n, v in ul.items()],
             un=[[n, fl(v)] for n, v in un.items()], wl=wl if wl == "none" else fl(wl), us=fl(us), slo=fl(lo), shi=fl(hi))
    un_ = ps.unwrapped
    tr.append(dict(ev="limits", g=g, names=list(un_.state_names), limits=vec(un_.limits), nominal=vec(un_.nominal_state),
                   low=vec(un_.state_space.low), high=vec(un_.state_space.high)))
    env.action_space.seed(rng.randrange(10**6))
    phys = dict(scml_names(t))
    for ep in range(2):
        env.reset(seed=rng.randrange(10**6))
        for k in range(4):
            y = np.array(sol.y, dtype=float)
            tr.append(dict(ev="state", state=vec(rec.state[:scml.rec_len(env)]), phys=[[n, fl(y[j])] for n, j in phys.items()]))
            if k == 3 or getattr(rec, "done", False) or not scml.safe(rec):
                break
            out = env.step(env.action_space.sample())
            rec.done = bool(out[2])
        rec.done = False


def scml_names(t):
    """State entries that are entries of the ODE state."""
    ns = ["omega"] + [n for n in scml.STATES[t]]
    return [(n, j) for j, n in enumerate(ns) if not n.startswith("psi") and n not in ("i_salpha", "i_sbeta")]


def unknown(c, t, tr):
    q = c.rng.choice(["i_x", "voltage", "Omega", "i_alpha_r", "speed"])
    key = c.rng.choice(["limit_values", "nominal_values"])
    try:
        motors.CLS[t](**{key: {q: 10.0}})
    except KeyError:
        tr.append(dict(ev="refused", unknown=True))
        return
    tr.append(dict(ev="accepted", q=q))


def registered(c, eid, tr):
    """The registered environments: consistent without any setting."""
    env = envs.make(eid)
    ps = env.physical_system
    tr.append(dict(ev="plain", names=list(ps.state_names), limits=vec(ps.limits), nominal=vec(ps.nominal_state), low=vec(ps.state_space.low), high=vec(ps.state_space.high)))


def run(c):
    c.model("MCLimits", "MaxSet = %d" % (1 if c.quick else 2), INV)
    traces, names = [], []
    for rep in range(12 if c.quick else 150):
        for t in envs.MOTORS:
            for kind in envs.CT:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    traces.append(vf.scenario(lambda tr: drive(c, t, kind, tr)))
                names.append("%s %s #%d" % (kind, t, rep))
            traces.append(vf.scenario(lambda tr: unknown(c, t, tr)))
            names.append("unknown quantity %s #%d" % (t, rep))
    for eid in envs.IDS:
        traces.append(vf.scenario(lambda tr: registered(c, eid, tr)))
        names.append(eid)
    c.validate("LimitTrace", traces, names, chunk=800)
    c.assumptions += ["C23: user settings in which a given nominal value exceeds a given limit are outside the property",
                      "C23: supply voltage range as documented for the supply; a negative speed prescribed by an ExternalSpeedLoad is not part of the sign ranges"]

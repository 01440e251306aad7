"""C21: initial states. Spec: Initial; MCInitial (design), ScmlTrace (conformance: solver state, state vector, derived quantities after every reset)."""
import warnings
import numpy as np
import vf, envs, motors, scml
from vf import fl, vec

INV = ["Central", "Permitted", "OrderFree", "Unnamed"]
IPH = {"i_salpha": "i_sa", "i_sbeta": "i_sb"}


def published_order(mtype):
    """The order in which the motor's initializer lists its states (rows of an interval belong to it)."""
    return list(motors.CLS[mtype]().initializer["states"])


def bounds(mtype, ps, names):
    pos, nom, low = {n: k for k, n in enumerate(ps.state_names)}, ps.nominal_state, ps.state_space.low
    n_, l_ = [], []
    for n in names:
        if n.startswith("psi"):
            mp = ps.electrical_motor.motor_parameter
            n_.append(1.5 * mp["l_m"] * max(1, nom[pos["i_sa"]])), l_.append(-1.0)
        else:
            k = pos[IPH.get(n, n)]
            n_.append(float(nom[k])), l_.append(-1.0 if n in IPH else float(low[k]))
    return n_, l_


def setting(rng, mode, order, mtype, values):
    """An initializer dictionary of a user and its specification form."""
    d, sp = {}, dict(mode=mode, given=[], rows=[], mu="none", sigma="none")
    if mode == "const":
        ns = rng.sample(order, rng.randint(1, len(order)))
        d["states"] = {n: values[n] for n in ns}
        sp["given"] = [[n, fl(values[n])] for n in ns]
    elif mode != "default":
        d["random_init"] = mode
        if rng.random() < 0.5:                              # rows follow the order in which the user lists the states
            order = rng.sample(order, len(order))
            d["states"] = {n: 0.0 for n in order}
        if mode == "gaussian" and rng.random() < 0.5:
            d["random_init"] = "normal"
        if rng.random() < 0.6:
            rows = []
            for n in order:
                w = dict(omega=100, epsilon=3.0).get(n, 0.03 if n.startswith("psi") else 1.5 if mtype in scml.IM else 9 if mtype == "SynRM" else 40)
                a = rng.uniform(-w, 0.8 * w)
                if rng.random() < 0.5:
                    a = rng.uniform(0, 0.7 * w)
                if n.startswith("psi"):
                    a = -abs(a)
                rows.append([a, max(a, 0) + rng.uniform(0.1, 1.0) * w])        # always meets the state's space
            d["interval"] = rng.choice([rows, np.array(rows), [tuple(r) for r in rows]])
            sp["rows"] = [[n, fl(r[0]), fl(r[1])] for n, r in zip(order, rows)]
            rows = [r for r in rows]
        else:
            rows = []
        if mode == "gaussian":
            mus = [x for x in (0.0, 0.3, 1.0) if all(r[0] <= x <= r[1] for r in rows)] + [None]
            mu, sigma = rng.choice(mus), rng.choice([None, 0.02, 0.05])
            if mu is not None or sigma is not None:
                d["random_params"] = (mu, sigma)
                sp.update(mu="none" if mu is None else fl(mu), sigma="none" if sigma is None else fl(sigma))
    sp["mode"] = "const" if mode == "default" else mode
    return d, sp


def drive(c, mtype, kind, tr, mmode, lmode, episodes, steps, wild=False):
    rng = c.rng
    cfg = scml.configuration(rng, mtype, kind, as_dict=rng.random() < 0.3)
    if cfg["cs"] == "dq":
        cfg["as_dict"] = False
    values = {n: cfg["init"][n] for n in scml.STATES[mtype]}
    order = published_order(mtype)
    if wild:
        n = rng.choice([x for x in order if x != "epsilon" and not x.startswith("psi")])
        values[n] = rng.choice([-1, 1]) * values[n] * rng.uniform(1, 40)
    if mtype in scml.IM and mmode == "const":
        values.update(psi_ralpha=0.0, psi_rbeta=0.0)        # the bound of the fluxes is drawn at random
    md, ms = setting(rng, mmode, order, mtype, values)
    cfg["motor_kw"] = dict(motor_initializer=md)
    ext = cfg["load"]["kind"] == "ext"
    if ext:
        w = scml.y0(cfg)[0]
        ls = dict(mode="const", given=[["omega", fl(w)]], rows=[], mu="none", sigma="none")
    else:
        ld, ls = setting(rng, lmode, ["omega"], mtype, dict(omega=rng.choice([0.0, rng.uniform(0, 100)]) if mtype not in scml.IM else rng.uniform(0, 30)))
        cfg["load_init"] = ld or {"states": {"omega": 0.0}}
    env, rec, sol = scml.make(cfg)
    env.action_space.seed(rng.randrange(10**6))
    ps = env.physical_system.unwrapped
    names = ["omega"] + scml.STATES[mtype]
    nom, low = bounds(mtype, ps, names)
    h = scml.head(env, cfg)
    h["init"] = dict(order=names, motor=ms, load=ls, nominal=vec(nom), low=vec(low), degenerate=[n.startswith("psi") for n in names])
    tr.append(h)
    for ep in range(episodes):
        try:
            env.reset(seed=rng.randrange(10**6) if ep % 3 == 2 else None)
        except vf.Timeout:
            raise
        except Exception as ex:
            if "nominal boundaries" not in str(ex):
                raise
            tr.append(dict(ev="refused", msg=str(ex)[:60]))
            return
        tr.append(dict(ev="reset", sol=vec(sol.y), state=vec(rec.state[:scml.rec_len(env)]), k=int(env.physical_system.k), t=fl(sol.t), phi="none"))
        if mtype in scml.IM and np.hypot(sol.y[3], sol.y[4]) < 1e-6:
            continue                                                          # without flux there is no field angle to predict
        for k in range(rng.choice([0, 1, steps])):
            scml.step(env, rec, sol, cfg, tr, rng)
            if rec.term or not scml.safe(rec):
                break
    if episodes > 40:
        tr.append(dict(ev="spread"))


def run(c):
    c.model("MCInitial", 'Values = {0, 1, 2, 3}' if c.quick else 'Values = {0, 1, 2, 3, 4}', INV)
    traces, names = [], []
    modes = ["const", "const", "uniform", "gaussian", "default"]
    for rep in range(1 if c.quick else 12):
        for m in envs.MOTORS:
            for kind in envs.CT:
                for mm in modes:
                    lm = c.rng.choice(["const", "uniform", "gaussian", "default"])
                    wild = mm == "const" and c.rng.random() < 0.3
                    n = 60 if mm == "uniform" else 4
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        traces.append(vf.scenario(lambda tr: drive(c, m, kind, tr, mm, lm, n, 3, wild)))
                    names.append("%s %s motor: %s load: %s #%d" % (kind, m, mm, lm, rep))
    c.validate("ScmlTrace", traces, names, chunk=400)
    c.extra["refused_starts"] = sum(1 for t in traces if any(e["ev"] == "refused" for e in t))
    c.assumptions += ["C21: rows of an interval belong to the states in the order in which the initializer (the user's, if it names states) lists them",
                      "C21: the bound of random initial rotor fluxes is only checked loosely (1.5 L_m I_n); flux values are not required to spread"]

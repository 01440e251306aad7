"""C16: machine equations. Spec: Motors, Defaults; MCMotors (energy balance), MotorTrace (conformance)."""
import numpy as np
import vf, motors
from vf import vec, fl, mat


def evaluate(m, t, x, u, w):
    ua = motors.u_arg(t, u)
    x = np.array(x, dtype=float)
    f = m.electrical_ode(x, ua, w)
    tq = m.torque(x)
    iin = m.i_in(x)
    ev = dict(ev="eval", x=vec(x), u=vec(u), w=fl(w))
    jac = m.electrical_jacobian(x, ua, w) if m.HAS_JACOBIAN else None
    # evaluate at another point before reading the results: results must not be overwritten
    m.electrical_ode(x + 1.5, ua * 2 + 1, w - 3)
    if jac is not None:
        m.electrical_jacobian(x + 1.5, ua + 1, w - 3)
        ev.update(ja=mat(jac[0]), jw=vec(jac[1]), jt=vec(jac[2]))
    ev.update(f=vec(f), torque=fl(np.ravel(tq)[0]), iin=vec(iin))
    return ev


def run(c):
    c.model("MCMotors", "Vals <- %s\nSpeeds <- SmallSpeeds" % ("TinyVals" if c.quick else "SmallVals"), ["Energy", "Affine"])
    rng, traces, names = c.rng, [], []
    nconf, npts = (14, 20) if c.quick else (120, 60)
    for t in motors.CLS:
        ns = motors.PARAMS[t]
        for conf in range(nconf):
            sub = [] if conf == 0 else list(ns) if conf == 1 else rng.sample(ns, rng.randrange(1, len(ns) + 1))
            if t == "EESM" and any(n in sub for n in ("l_m", "l_e", "l_d")):
                sub = list(dict.fromkeys(sub + ["l_m", "l_e", "l_d"]))
            user = motors.random_params(rng, t, sub)
            if t in ("PMSM", "SynRM", "EESM") and conf == 2:
                user = dict(user, l_q=user.get("l_d", 3e-3), l_d=user.get("l_d", 3e-3)) if t in ("PMSM", "EESM") else user

            def build(tr):
                m = motors.CLS[t](motor_parameter=dict(user) if user else None)
                other = motors.CLS[t](motor_parameter=motors.random_params(rng, t, ns))   # a second instance must not interfere
                tr.append(dict(ev="motor", type=t, user={k: fl(v) for k, v in user.items()} or {"none": 0},
                               mp={k: fl(v) for k, v in m.motor_parameter.items()}))
                lim = np.array([200.0] * motors.NX[t])
                for k in range(npts):
                    x = [rng.choice([0.0, 1.0, -1.0, rng.uniform(-200, 200), rng.uniform(-2, 2)]) for _ in lim]
                    if t in ("SCIM", "DFIM"):
                        x[2], x[3] = rng.uniform(-2, 2), rng.uniform(-2, 2)
                    u = [rng.choice([0.0, rng.uniform(-400, 400)]) for _ in range(motors.NU[t])]
                    w = rng.choice([0.0, rng.uniform(-500, 500), rng.uniform(-5, 5)])
                    other.electrical_ode(np.array(x) * 2 + 1, motors.u_arg(t, u) + 3, w + 1)
                    tr.append(evaluate(m, t, x, u, w))
                raised = False
                try:
                    motors.CLS[t](motor_parameter={"no_such_parameter": 1.0})
                except Exception:
                    raised = True
                tr.append(dict(ev="unknown", raised=raised))
            traces.append(vf.scenario(build))
            names.append("%s conf%d %s" % (t, conf, sorted(user)))
    c.validate("MotorTrace", traces, names)
    c.assumptions += ["NUM: model and code are compared with relative tolerance 1e-7 (absolute 1e-6 on derivatives)",
                      "DEFAULTS: spec/Defaults.tla is the table of default parameters at the pinned commit"]

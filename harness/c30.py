"""C30: field-oriented operating points. Spec: FocOps; MCFocOps (design), FocOpsTrace (conformance)."""
import numpy as np
import gem_controllers as gc
import vf, control as K, motors
from vf import fl, vec


class Flux:
    """A flux controller written by the user: PI, notes what it sees."""
    def __init__(self, p, i):
        self.p, self.i, self.z = p, i, 0.0
        self.seen, self.integrated = [], False

    def tune(self, *_, **__):
        pass

    def __call__(self, state, reference):
        self.seen = [float(np.ravel(state)[0]), float(np.ravel(reference)[0])]
        self.out = self.p * (self.seen[1] - self.seen[0]) + self.i * self.z
        return np.array([self.out])

    def integrate(self, state, reference):
        self.integrated = True
        self.z += float(np.ravel(reference)[0]) - float(np.ravel(state)[0])

    def reset(self):
        self.z = 0.0


class Watch:
    """the flux controller that the selection made itself, seen from outside"""
    def __init__(self, con):
        self.seen, self.integrated, self.out = [], False, 0.0
        control, integrate = con.control, con.integrate

        def watched(state, reference):
            self.seen = [float(np.ravel(state)[0]), float(np.ravel(reference)[0])]
            out = control(state, reference)
            self.out = float(np.ravel(out)[0])
            return out

        def noted(state, reference):
            self.integrated = True
            return integrate(state, reference)
        con.control, con.integrate = watched, noted


def machine(rng, t, rounded, mode):
    base = dict(motors.CLS[t]().motor_parameter)
    kw = {}
    if t == "EESM":
        if rng.random() < 0.7:
            mp = {n: (rng.randrange(1, 6) if n == "p" else float(base[n]) * rng.uniform(0.7, 1.4))
                  for n in ("p", "l_d", "l_q", "l_m", "r_s", "r_e") if rng.random() < 0.6}
            top = np.sqrt(0.6 * mp.get("l_d", float(base["l_d"])) * float(base["l_e"]))     # coupled less than completely
            if mp.get("l_m", float(base["l_m"])) > top:
                mp["l_m"] = float(top)
            kw["motor"] = dict(motor_parameter=mp)
        return kw
    if rounded or rng.random() < 0.7:
        names = ["p", "l_d", "l_q", "r_s"] + (["psi_p"] if t == "PMSM" else []) if t != "SCIM" else ["p", "l_m", "l_sigs", "l_sigr", "r_s", "r_r"]
        mp = {n: (rng.randrange(1, 6) if n == "p" else float(base[n]) * (rng.uniform(0.6, 1.7) if t != "SCIM" else rng.uniform(0.85, 1.2)))
              for n in names if rng.random() < 0.6}
        if t == "PMSM" and mode != "online":
            mp["psi_p"] = float(base["psi_p"]) * rng.uniform(1.5, 4)       # flux cannot be weakened to zero
        if t == "PMSM" and rounded:
            mp["l_d"] = mp["l_q"] = rng.uniform(0.4e-3, 1.2e-3)
        if t == "SynRM" and rng.random() < 0.3:
            mp["l_d"], mp["l_q"] = float(base["l_q"]) * rng.uniform(0.8, 1.2), float(base["l_d"]) * rng.uniform(0.8, 1.2)
        kw["motor"] = dict(motor_parameter=mp)
    if rng.random() < 0.5:
        kw["tau"] = rng.choice([1e-5, 5e-5, 1e-4, 3e-4])
    return kw


def scen(tr, c, t, mode, rep, kw=None, request=None):
    rng, np_rng = c.rng, c.np_rng
    env_id = "%s-TC-%s-v0" % (rng.choice(["Cont", "Finite"]) if t not in ("SCIM", "EESM") else "Cont", t)
    env = K.make_env(env_id, rng, **(kw or machine(rng, t, rep % 5 == 4 or (mode in ("analytical", "interpolate") and rep % 2 == 1), mode)))
    ps = env.physical_system
    names, lim, nom = list(env.state_names), np.array(env.limits), np.array(ps.nominal_state)
    at = lambda n: lim[names.index(n)]
    margin = rng.choice([0.2, 0.2, 0.0, 0.5, rng.uniform(0, 0.7)])
    if request is not None:
        margin = 0.0
    damping = rng.choice([1.2, 1.2, rng.uniform(1.05, 3)])
    amax = rng.choice([2 / np.sqrt(3), 2 / np.sqrt(3), rng.uniform(0.5, 1.2)])
    args = {}
    if damping != 1.2:
        args["modulation_damping"] = damping
    if amax != 2 / np.sqrt(3):
        args["max_modulation_level"] = amax
    spy = None
    if t == "SCIM":
        if rep % 2:
            spy = Flux(rng.choice([10.0, 100.0, 1000.0]), rng.choice([0.0, 0.5]))
            args["psi_controller"] = spy
    elif mode != "online" or rng.random() < 0.5:
        args["torque_control"] = mode
    if t == "EESM":
        args.pop("torque_control", None)
    ops = gc.stages.torque_to_current_function[t](**args)
    if margin == 0.2 and rng.random() < 0.5:
        ops.tune(env, env_id)
    else:
        ops.tune(env, env_id, margin)
    if t == "SCIM" and spy is None:
        spy = Watch(ops.psi_controller)
    ops.reset()
    mp = {k: fl(v) for k, v in ps.electrical_motor.motor_parameter.items()}
    if t == "SynRM":
        mp["psi_p"] = fl(0.0)
    ua = "u_a" if "u_a" in names else "u_sa"
    w_max = at("omega")
    tr.append(dict(ev="ops", t=t, mode=mode, own=t == "SCIM" and isinstance(spy, Watch), mp=mp, margin=fl(margin), ie=fl(at("i_e") * (1 - margin) if t == "EESM" else 0.0), id=fl(at("i_sd") * (1 - margin)), iq=fl(at("i_sq") * (1 - margin)), idl=fl(at("i_sd")), iql=fl(at("i_sq")), tlim=fl(at("torque")),
                   ua=fl(at(ua)), tau=fl(ps.tau), amax=fl(amax), damping=fl(damping), unom=fl(nom[names.index("u_sd")]), wnom=fl(nom[names.index("omega")])))
    for j in range(6 if t != "EESM" else 14):
        w = rng.choice([0.0, rng.uniform(-1, 1) * 10, rng.uniform(-1, 1) * w_max, rng.choice([-1, 1]) * rng.uniform(0.5, 1) * w_max])
        if j == 2:
            w = rng.choice([-1, 1]) * rng.uniform(0.4, 1) * w_max       # high speed, requests in the flux-limited region
        u = rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0.9, 1.3)]) * amax * np.sqrt(3) * at(ua) / 2
        T = rng.uniform(-1, 1) * at("torque") * rng.choice([1, 0.3, 0.05])
        for k in range(3 if j == 2 else rng.choice([1, 3, 12])):
            if j == 2 and k < 3 and rep % 5 == 4:
                T = rng.choice([-1, 1]) * [0.05, 1, 1.4][k] * at("torque")
            elif rng.random() < 0.3:
                T = rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), 1, -1, 0, 1.4, -2]) * at("torque")
            if rng.random() < 0.2:
                u *= rng.uniform(0.5, 1.5)
            if request is not None:
                T = request * at("torque")
            x = np_rng.uniform(-1, 1, len(names)) * lim
            ph = rng.uniform(0, 6.28)
            x[names.index("omega")], x[names.index("u_sd")], x[names.index("u_sq")] = w, u * np.cos(ph), u * np.sin(ph)
            psi = 0.0
            if spy:
                psi = rng.choice([0.0, rng.uniform(0, 1) * at("psi_abs") if "psi_abs" in names else 0.0])
                x[names.index("psi_abs")] = psi
                spy.integrated = False
            r = np.array([T])
            x0 = x.copy()
            i = ops(x, r)
            tr.append(dict(ev="select", w=fl(w), ud=fl(x0[names.index("u_sd")]), uq=fl(x0[names.index("u_sq")]), T=fl(T), i=vec(np.ravel(i)), psi=fl(psi),
                           seen=vec(spy.seen) if spy else [], out=fl(spy.out) if spy else fl(0.0), integrated=bool(spy and spy.integrated),
                           same=bool(np.array_equal(x, x0) and r[0] == T)))
        if rng.random() < 0.4:
            ops.reset()
            tr.append(dict(ev="reset"))


def run(c):
    c.model("MCFocOps", 'Machines = {"pm", "round", "inverse", "rel", "im"}\nRequests = {0, 1, 3, 10, 40, 200}\nDepth = 0\nMeasured = {}\nSpeeds = {}', ["LeastCurrent", "LeastLoss"])
    c.model("MCFocOps", 'Machines = {"pm"}\nRequests = {0}\nDepth = %d\nMeasured = {0, 20, 54, 56, 60, 80}\nSpeeds <- SomeSpeeds' % (3 if c.quick else 5), ["Band", "Symmetric"], ["Direction"])
    traces, names = [], []
    for t, mode, n in (("PMSM", "online", 24), ("SynRM", "online", 20), ("SCIM", "-", 16), ("EESM", "-", 1), ("PMSM", "analytical", 2), ("SynRM", "analytical", 2), ("PMSM", "interpolate", 2), ("SynRM", "interpolate", 2)):
        for rep in range(n if c.quick else 8 * n):
            traces.append(vf.scenario(scen, c, t, mode, rep, seconds=400))
            names.append("operating points of %s %s #%d" % (t, mode, rep))
    for i in (7.8, 8.2, 9.0):
        kw = dict(motor=dict(limit_values=dict(i=i), nominal_values=dict(i=0.8 * i)))
        traces.append(vf.scenario(scen, c, "SCIM", "-", 0, kw, c.rng.choice([-1, 1])))
        names.append("operating points of SCIM, flux of the greatest torque beyond the voltage at nominal speed, %s A" % i)
    c.validate("FocOpsTrace", traces, names)

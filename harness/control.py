"""Controllers of gem_controllers: construction, recording of their control cycles."""
import numpy as np
import gem_controllers as gc
from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, FluxObserver
import envs, motors, scml
from vf import fl, vec

DC = ["PermExDc", "ExtExDc", "SeriesDc", "ShuntDc"]
AC = ["PMSM", "SynRM", "SCIM", "EESM"]
BASE = ["PI", "PI", "PID", "P", "ThreePoint"]


def make_env(env_id, rng=None, **kw):
    t = env_id.split("-")[2]
    if t == "SCIM":
        kw.setdefault("physical_system_wrappers", (FluxObserver(),))
    kw.setdefault("visualization", None)
    return envs.make(env_id, **kw)


def settings(rng, t, slow=False, fin=None):
    """environment arguments: machine parameters, sampling time, load inertia"""
    kw = {}
    if slow:
        return kw
    if rng.random() < 0.7 and t not in ("EESM", "SCIM"):
        base = motors.CLS[t]().motor_parameter
        names = rng.sample(motors.PARAMS[t], rng.randrange(1, len(motors.PARAMS[t]) + 1))
        names = [n for n in names if n in base]
        mp = {n: (rng.randrange(1, 6) if n == "p" else float(base[n]) * rng.uniform(0.6, 1.7)) for n in names}
        kw["motor"] = dict(motor_parameter=mp)
    if rng.random() < 0.35 and t != "SCIM":      # (larger currents of the SCIM: finding C30-scim-flux-table)
        cur = ["i_a", "i_e"] if t in ("ExtExDc", "ShuntDc") else ["i", "i_e"] if t == "EESM" else ["i"]
        base = motors.CLS[t]().limits
        lim = {n: float(base.get(n, base.get("i_sq", 0.0)) or 100.0) * rng.uniform(0.6, 1.5) for n in cur}
        kw.setdefault("motor", {}).update(limit_values=lim, nominal_values={n: v * rng.uniform(0.6, 1.0) for n, v in lim.items()})
    if rng.random() < 0.5:
        kw["tau"] = rng.choice([1e-5, 5e-5, 1e-4, 3e-4])
    if t in AC and rng.random() < 0.35:
        ws = [DeadTimeProcessor(steps=rng.randrange(1, 4))] + ([FluxObserver()] if t == "SCIM" else [])
        kw["physical_system_wrappers"] = tuple(rng.sample(ws, len(ws)))
    if t in DC and fin is not None and rng.random() < 0.4:
        q = "F" if fin else "C"
        kw["converter"] = scml.converter([q + rng.choice(["1QC", "2QC", "4QC"]) for _ in range(2 if t == "ExtExDc" else 1)], 0)
    return kw


def settle(env, seed):
    for k in range(50):
        try:
            return env.reset(seed=seed + k)
        except AssertionError:
            continue
    return env.reset(seed=seed + 50)


class Probe:
    """The public parts of a controller whose outputs are visible between the stages."""
    def __init__(self, c):
        self.c = c
        inner = c.controller
        self.speed = inner if isinstance(inner, gc.PISpeedController) else None
        tc = inner.torque_controller if self.speed else inner
        self.torque = tc if isinstance(tc, gc.TorqueController) else None
        self.current = self.torque.current_controller if self.torque else tc

    def after(self):
        d = dict(uref=vec(self.current.voltage_reference), cflag=[bool(b) for b in np.atleast_1d(self.current.clipping_stage.clipped)])
        b = self.current.current_base_controller
        if self.torque is None and len(d["uref"]) != len(d["cflag"]):
            d["uref"] = []               # already transformed to the phases of the machine
        d["z"] = vec(b.integrator) if hasattr(b, "integrator") else []
        d["tref"], d["sflag"], d["sz"], d["iref"] = [], [], [], []
        if self.torque:
            d["iref"] = vec(self.torque.current_reference)
        if self.speed:
            s = self.speed.speed_control_stage
            d["tref"], d["sflag"] = vec(self.speed.torque_reference), [bool(b) for b in np.atleast_1d(self.speed.clipping_stage.clipped)]
            d["sz"] = vec(s.integrator) if hasattr(s, "integrator") else []
        d["refs"] = [dict(n=str(n), v=fl(v)) for n, v in sorted(self.c.controller.references.items())]
        return d

    @staticmethod
    def _gains(b):
        return {k: vec(getattr(b, n)) if hasattr(b, n) else [] for k, n in (("p", "p_gain"), ("i", "i_gain"), ("d", "d_gain"))}

    def gains(self):
        return dict(ev="gains", cc=self._gains(self.current.current_base_controller),
                    sc=self._gains(self.speed.speed_control_stage) if self.speed else dict(p=[], i=[], d=[]))


def describe(env, env_id, opt):
    t = env_id.split("-")[2]
    ps = env.physical_system
    sp = env.observation_space[0]
    fin = env_id.startswith("Finite")
    asp = env.action_space
    nvec = ([int(asp.n)] if hasattr(asp, "n") else [int(n) for n in asp.nvec]) if fin else []
    mp = {k: (int(v) if k == "p" else fl(v)) for k, v in ps.electrical_motor.motor_parameter.items()}
    dead = int(ps.dead_time) if hasattr(ps, "dead_time") else 0
    return dict(ev="make", t=t, dead=dead, task=env_id.split("-")[1], fin=fin, cc=opt["cc"], sc=opt["sc"], dec=opt["dec"], a=opt["a"], margin=fl(opt["margin"]),
                tau=fl(ps.tau), mp=mp, j=fl(ps.mechanical_load.j_total), names=list(env.state_names), refs=list(env.reference_names),
                lim=vec(env.limits), low=vec(sp.low), high=vec(sp.high), nvec=nvec,
                alow=vec(asp.low) if not fin else [], ahigh=vec(asp.high) if not fin else [])


def options(rng, task):
    return dict(cc=rng.choice(BASE), sc=rng.choice(BASE) if task == "SC" else "PI", dec=rng.random() < 0.7, a=rng.choice([2, 4, 4, 8, 10]),
                margin=rng.choice([0.0, 0.2, 0.2, 0.25, 0.5]))


def build(env, env_id, opt, **kw):
    return gc.GemController.make(env, env_id, decoupling=opt["dec"], current_safety_margin=opt["margin"], base_current_controller=opt["cc"],
                                 base_speed_controller=opt["sc"], a=opt["a"], block_diagram=False, **kw)


def act_list(env, a, fin):
    a = np.atleast_1d(a)
    return [int(x) for x in a] if fin else vec(a)


def cycle(tr, p, state, ref, fin):
    s0, r0 = np.array(state, copy=True), np.array(ref, copy=True)
    a = p.c.control(state, ref)
    same = s0.tobytes() == np.asarray(state).tobytes() and r0.tobytes() == np.asarray(ref).tobytes()
    lay = act_list(None, a, fin)
    if fin and not all(float(x) == int(x) for x in np.atleast_1d(a)):
        same = False
    tr.append(dict(ev="control", obs=vec(s0), ref=vec(r0), act=lay, same=bool(same), **p.after()))
    return a


def random_obs(rng, np_rng, env):
    sp = env.observation_space[0]
    x = np_rng.uniform(sp.low, sp.high)
    m = rng.random()
    if m < 0.3:
        x = x * np_rng.choice([0.0, 1.0, 0.01], size=len(x))
    elif m < 0.4:
        x = np.where(np_rng.random(len(x)) < 0.5, np_rng.choice([-1.0, 1.0, 0.0], size=len(x)), x)
        x = np.clip(x, sp.low, sp.high)
    elif m < 0.5:
        x = x * 1.2                      # observations beyond the limits are possible in the step of a violation
    rs = env.observation_space[1]
    r = np_rng.uniform(rs.low, rs.high)
    if rng.random() < 0.3:
        r = r * rng.choice([0.0, 0.05, 1.0])
    return x, r

"""C17: three-phase transformations. Spec: Transforms; MCTransforms (design), TransformTrace (conformance)."""
import math, warnings
import numpy as np
import vf, envs, scml, converters as cvh
from vf import fl, vec
from gym_electric_motor import physical_systems as psy
from gym_electric_motor.physical_systems import electric_motors as em, solvers as so, converters as cv, mechanical_loads as ml
from gym_electric_motor import physical_system_wrappers as pw

AC = ["PMSM", "SynRM", "EESM", "SCIM", "DFIM"]
SYS = dict(PMSM="sync", SynRM="sync", EESM="sync", SCIM="scim", DFIM="dfim")


def functions(c, tr):
    """Results of all public transformation functions, on the motor class, motor objects and systems."""
    rng = c.rng
    ps = envs.make("Cont-CC-PMSM-v0").physical_system.unwrapped
    M = em.ThreePhaseMotor
    p = float(ps.electrical_motor.motor_parameter["p"])
    for k in range(60 if c.quick else 2000):
        scale = 10 ** rng.uniform(-2, 3)
        v = [rng.uniform(-1, 1) * scale for _ in range(3)]
        if rng.random() < 0.5:
            v[2] = -v[0] - v[1]
        w = [rng.uniform(-1, 1) * scale for _ in range(2)]
        e = rng.choice([0.0, math.pi, -math.pi, math.pi / 2, rng.uniform(-math.pi, math.pi), rng.uniform(-30, 30)])
        src = rng.choice(["class", "system", "normed", "mechanical"])
        kw = dict(normed_epsilon=True) if src == "normed" else {}
        ea = e / math.pi if src == "normed" else e
        if src in ("system", "normed"):
            f = [ps.abc_to_alphabeta_space(v), ps.alphabeta_to_abc_space(w), ps.dq_to_alphabeta_space(w, ea, **kw), ps.alphabeta_to_dq_space(w, ea, **kw)]
            a2d, d2a = (lambda x: ps.abc_to_dq_space(x, ea, **kw)), (lambda x: ps.dq_to_abc_space(x, ea, **kw))
            r1, r2 = ps.abc_to_alphabeta_space(f[1]), ps.alphabeta_to_dq_space(f[2], ea, **kw)
        else:
            q, qi = (M.q, M.q_inv) if src == "class" else (lambda x, a: ps.electrical_motor.q_me(x, a / p), lambda x, a: ps.electrical_motor.q_inv_me(x, a / p))
            f = [M.t_23(v), M.t_32(w), q(w, e), qi(w, e)]
            a2d, d2a = (lambda x: qi(M.t_23(x), e)), (lambda x: M.t_32(q(x, e)))
            r1, r2 = M.t_23(f[1]), qi(f[2], e)
        dabc = d2a(w)
        tr.append(dict(ev="fn", v=vec(v), w=vec(w), e=fl(e), t23=vec(f[0]), t32=vec(f[1]), q=vec(f[2]), qi=vec(f[3]), adq=vec(a2d(v)), dabc=vec(dabc),
                       r1=vec(r1), r2=vec(r2), r3=vec(a2d(dabc))))


class Reader:
    """Physical quantities of a state vector by name."""
    def __init__(self, env, mtype):
        self.ps, self.mtype = env.physical_system, mtype
        self.names, self.lim = list(self.ps.state_names), np.array(self.ps.limits)

    def __call__(self, norm, reset):
        s = dict(zip(self.names, np.asarray(norm, dtype=float) * self.lim))
        im = self.mtype in ("SCIM", "DFIM")
        x = "s" if im else ""
        g = lambda *n: vec([s[k] for k in n])
        d = dict(ev="state", reset=reset, e=fl(s["epsilon"]), w=fl(s["omega"]), usup=fl(s["u_sup"]),
                 iabc=g(*["i_%s%s" % (x, k) for k in "abc"]), idq=g("i_sd", "i_sq"), uabc=g(*["u_%s%s" % (x, k) for k in "abc"]), udq=g("u_sd", "u_sq"))
        if self.mtype == "DFIM":
            d.update(irabc=g("i_ra", "i_rb", "i_rc"), irdq=g("i_rd", "i_rq"), urabc=g("u_ra", "u_rb", "u_rc"), urdq=g("u_rd", "u_rq"))
        if self.mtype == "EESM":
            d["ue"] = fl(s["u_e"])
        if "psi_angle" in s:
            d["psi"] = fl(s["psi_angle"])
            if self.mtype == "SCIM":
                d["ang"] = d["psi"]
            if self.mtype == "DFIM":
                d["ang"] = d["e"]
        return d


def drive(c, tr, env, mtype, steps, dead=0, command=None, plain=True, episodes=2, til=None):
    """command: None (own actions of the system), ("dq", angle advance in steps)."""
    rng = c.rng
    rec = scml.Recorder()
    rec.set_env(env)
    env._callbacks = list(env._callbacks) + [rec] if hasattr(env, "_callbacks") else [rec]
    read = Reader(env, mtype)
    ps = env.physical_system
    tr.append(dict(ev="drive", sys=SYS[mtype], p=fl(ps.unwrapped.electrical_motor.motor_parameter["p"]), tau=fl(ps.tau), plain=plain, dead=dead, **({} if til is None else dict(til=fl(til)))))
    env.action_space.seed(rng.randrange(10**6))
    for ep in range(episodes):
        tries = 0
        while True:
            try:
                env.reset(seed=rng.randrange(10**6))
                break
            except Exception as ex:        # random flux bound of the induction machines
                tries += 1
                if "nominal boundaries" not in str(ex):
                    raise
                if tries > 50:                 # these initial fluxes are refused at this speed
                    return
        tr.append(read(rec.state, True))
        a = last = env.action_space.sample()
        for n in range(steps):
            if n % 3 == 0 or rng.random() < 0.3:
                a = env.action_space.sample()
                if command and rng.random() < 0.7:
                    a = a * rng.choice([0.3, 0.9])
            (_, _), _, term, _, _ = env.step(a)
            e = read(rec.state, False)
            if til is not None:     # every changed command opens a switch of the bridge first, except from the state after a reset
                e["sections"] = 2 if n > 0 and np.any(np.asarray(a) != np.asarray(last)) else 1
            last = a
            if command:
                x = np.asarray(a, dtype=float)
                e.update(act=vec(x[:2]), adv=fl(command[1]), late=bool(len(command) > 2))
                if mtype == "DFIM":
                    e.update(actr=vec(x[2:4]))
                if mtype == "EESM":
                    e.update(acte=fl(x[2]))
            tr.append(e)
            if term or not np.all(np.isfinite(rec.state)) or np.max(np.abs(rec.state)) > 1e3:
                break


def load_for(rng, mtype):
    k = rng.choice(["ext", "poly", "const"])
    if k == "ext":
        f = rng.choice([lambda t: 150 * math.sin(40 * t), lambda t: -120.0 + 0 * t, lambda t: 90.0 + 300 * t])
        return ml.ExternalSpeedLoad(f, tau=1e-4)
    if k == "const" and mtype not in ("SCIM", "DFIM"):
        return ml.ConstantSpeedLoad(omega_fixed=rng.uniform(-140, 140))
    return ml.PolynomialStaticLoad(load_parameter=dict(a=0.01, b=0.01, c=0.0, j_load=rng.choice([1e-4, 1e-2])))


def multi(mtype):
    b = cv.ContB6BridgeConverter
    if mtype == "EESM":
        return cv.ContMultiConverter(subconverters=(b(), cv.ContFourQuadrantConverter()))
    if mtype == "DFIM":
        return cv.ContMultiConverter(subconverters=(b(), b()))
    return b()


def scenarios(c, add):
    rng = c.rng
    add("functions", lambda tr: functions(c, tr))
    steps = 30 if c.quick else 250
    for eid in envs.IDS:
        mtype = eid.split("-")[2]
        if mtype not in AC:
            continue
        add(eid, lambda tr, e=eid, m=mtype: drive(c, tr, envs.make(e, constraints=()), m, steps))
    for mtype in AC:
        for kind in ("Cont", "Finite"):
            for r in range(1 if c.quick else 6):
                def one(tr):
                    tau = rng.choice([1e-5, 1e-4, 2e-4])
                    solver = rng.choice([so.EulerSolver(), so.EulerSolver(nsteps=3), so.ScipyOdeSolver("dopri5"), so.ScipySolveIvpSolver(method="RK45")])
                    init = scml.initial(rng, mtype)
                    drive(c, tr, envs.make("%s-CC-%s-v0" % (kind, mtype), constraints=(), tau=tau, ode_solver=solver, load=load_for(rng, mtype),
                                           motor=dict(motor_initializer=dict(states=init))), mtype, steps)
                add("%s-%s custom %d" % (kind, mtype, r), one)
    # several revolutions in both directions
    for mtype in AC:
        for sign in (-1, 1):
            def turns(tr):
                w, tau = sign * rng.uniform(120, 250), rng.choice([3e-4, 1e-3])
                load = ml.ConstantSpeedLoad(omega_fixed=w) if mtype not in ("SCIM", "DFIM") else ml.ExternalSpeedLoad(lambda t: w + 0 * t, tau=tau)
                init = dict(scml.initial(rng, mtype))
                if mtype not in ("SCIM", "DFIM"):
                    init["epsilon"] = rng.choice([3.1, -3.1, 0.0, math.pi, -math.pi])
                drive(c, tr, envs.make("%s-TC-%s-v0" % (rng.choice(["Cont", "Finite"]), mtype), constraints=(), tau=tau, load=load, ode_solver=so.ScipySolveIvpSolver(method="RK45"),
                                       motor=dict(motor_initializer=dict(states=init))), mtype, steps + 20)
            add("turns %s %s" % (mtype, "backwards" if sign < 0 else "forwards"), turns)
    # interlocking: several sections per step, the current relations still hold
    for mtype in AC:
        fb = cv.FiniteB6BridgeConverter
        conv = dict(EESM=lambda til: cv.FiniteMultiConverter(subconverters=(fb, cv.FiniteFourQuadrantConverter), interlocking_time=til),
                    DFIM=lambda til: cv.FiniteMultiConverter(subconverters=(fb, fb), interlocking_time=til)).get(mtype, lambda til: fb(interlocking_time=til))
        add("interlocking %s" % mtype, lambda tr: drive(c, tr, envs.make("Finite-CC-%s-v0" % mtype, constraints=(), tau=1e-4, converter=conv(2e-5), load=load_for(rng, mtype)),
                                                        mtype, steps, plain=False))

        def fast(tr):
            tau = rng.choice([1e-4, 3e-4, 1e-3])
            til = tau * rng.uniform(0.1, 0.6)
            drive(c, tr, envs.make("Finite-TC-%s-v0" % mtype, constraints=(), tau=tau, converter=conv(til), load=ml.ConstantSpeedLoad(omega_fixed=rng.choice([-1, 1]) * rng.uniform(50, 200))),
                  mtype, steps, plain=False, til=til)
        if mtype not in ("SCIM", "DFIM"):
            add("interlocking at speed %s" % mtype, fast)
    # dq commands through the action processor, with and without dead time
    for mtype in AC:
        for d in ((0, 1, 2) if c.quick else (0, 1, 2, 3, 5)):
            for order in ("inner", "outer", "split"):
                if d == 0 and order != "inner":
                    continue

                def one(tr):
                    stack = []
                    obs = [pw.FluxObserver()] if mtype in ("SCIM", "DFIM") else []
                    dq = [pw.DqToAbcActionProcessor.make("PMSM" if mtype == "SynRM" else mtype)]
                    dead = [pw.DeadTimeProcessor(steps=d)] if d else []
                    other = [pw.CosSinProcessor(angle="epsilon")]
                    stack = dict(inner=dead + obs + dq, outer=obs + dq + dead, split=dead + other + obs + dq)[order]
                    env = envs.make("Cont-CC-%s-v0" % mtype, constraints=(), tau=rng.choice([5e-5, 1e-4, 3e-4]), converter=multi(mtype), load=load_for(rng, mtype),
                                    physical_system_wrappers=tuple(stack))
                    drive(c, tr, env, mtype, steps, dead=d, command=("dq", 0.5, "late") if order == "outer" else ("dq", 0.5 + d))
                add("dq commands %s dead time %d %s" % (mtype, d, order), one)
    # systems whose own control space is dq: applied at the present angle
    for mtype in ("PMSM", "SynRM", "SCIM"):
        def one(tr):
            cls = psy.SquirrelCageInductionMotorSystem if mtype == "SCIM" else psy.SynchronousMotorSystem
            motor = {"PMSM": em.PermanentMagnetSynchronousMotor, "SynRM": em.SynchronousReluctanceMotor, "SCIM": em.SquirrelCageInductionMotor}[mtype]
            tau = rng.choice([1e-5, 1e-4])
            ps = cls(control_space="dq", converter=cv.ContB6BridgeConverter(tau=tau), motor=motor(motor_initializer=dict(states=scml.initial(rng, mtype))),
                     load=load_for(rng, mtype), supply=psy.IdealVoltageSupply(u_nominal=300.0), ode_solver=so.EulerSolver(), tau=tau)
            tick = envs.Ticker()
            env = envs.ElectricMotorEnvironment(physical_system=ps, reference_generator=envs.StubReference(tick), reward_function=envs.StubReward(tick))
            drive(c, tr, env, mtype, steps, command=("dq", 0.0))
        add("control space dq %s" % mtype, one)


def run(c):
    c.model("MCTransforms", "Angles <- SmallAngles\nSpeeds <- SmallSpeeds\nCmds <- SmallCmds\nDead = %d\nSteps = %d" % ((2, 4) if c.quick else (3, 6)),
            ["Hits", "ZeroSum", "Inverse", "Amplitude", "WrapOK"])
    traces, names = [], []

    def add(nm, fn):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(fn))
        names.append(nm)
    scenarios(c, add)
    c.validate("TransformTrace", traces, names)
    c.assumptions += ["The field angle of induction machines is derived from the returned phase and dq currents and not judged in states without current",
                      "dq commands of the doubly fed machine: stator at the rotor position, rotor at flux angle minus rotor position (as implemented; not documented)"]

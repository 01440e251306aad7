"""C10: wrapped physical systems. Spec: Wrappers; MCWrappers (design, stacks), WrapperTrace (conformance)."""
import warnings
import numpy as np
import vf, envs, specdefaults
from vf import fl, vec
from c09 import Probe
from c17 import multi, load_for
from gym_electric_motor import physical_system_wrappers as pw


def layout(ps):
    return dict(names=[str(n) for n in ps.state_names], limits=vec(ps.limits), nominal=vec(ps.nominal_state),
                low=vec(ps.state_space.low), high=vec(ps.state_space.high), npos=len(ps.state_positions), pos=[int(ps.state_positions[n]) + 1 if n in ps.state_positions else 0 for n in ps.state_names])


def concrete(rng, w, mtype, mp, names):
    """A wrapper record of the model becomes an object and the record of the trace specification."""
    w = dict(w)
    k = w["kind"]
    ren = lambda n: n if mtype in ("SCIM", "DFIM") else n.replace("i_sa", "i_a").replace("i_sb", "i_b").replace("i_sc", "i_c")
    if k == "cossin":
        cls, kw = pw.CosSinProcessor, dict(angle=w["angle"], remove_angle=w["remove"]) if w["remove"] or w["angle"] != "epsilon" or rng.random() < 0.5 else {}
    elif k == "sum":
        w["currents"] = [ren(n) for n in w["currents"]] if mtype in envs.MOTORS[4:] else ["i_a", "i_e"]
        cls, kw = pw.CurrentSumProcessor, dict(currents=list(w["currents"]), limit=w["limit"]) if w["limit"] != "max" or rng.random() < 0.5 else dict(currents=tuple(w["currents"]))
    elif k == "flux":
        cur = ["i_ra", "i_rb", "i_rc"] if mtype == "DFIM" and rng.random() < 0.4 else ["i_sa", "i_sb", "i_sc"]
        w.update(currents=cur, lm=fl(mp["l_m"]), lr=fl(mp["l_m"] + mp["l_sigr"]), rr=fl(mp["r_r"]), p=int(mp["p"]))
        cls, kw = pw.FluxObserver, dict(current_names=tuple(cur)) if cur[0] == "i_ra" or rng.random() < 0.5 else {}
    elif k == "noise":
        lo = rng.uniform(-0.05, 0.02)
        hi = lo + rng.uniform(0.001, 0.1)
        sel = rng.choice(["all", "some", "one"])
        states = list(names) if sel == "all" else rng.sample(list(names), min(len(names), 3 if sel == "some" else 1))
        w.update(states=states, lo=fl(lo), hi=fl(hi))
        cls, kw = pw.StateNoiseProcessor, dict(states="all" if sel == "all" else states, random_dist="uniform", random_kwargs=dict(low=lo, high=hi), random_length=rng.choice([1, 3, 1000]))
    elif k == "dead":
        cls, kw = pw.DeadTimeProcessor, dict(steps=rng.randrange(1, 4))
    else:
        cls, kw = pw.DqToAbcActionProcessor.make, dict(motor_type="PMSM" if mtype == "SynRM" else mtype)
    return (lambda **more: cls(**kw, **more)), w


def replay(c, tr, stack, mtype, kind, through):
    """Build the stack (through gem.make or by hand), record layouts and states of every level."""
    rng = c.rng
    dq = any(w["kind"] == "dq" for w in stack)
    kind = "Cont" if dq else kind
    full = specdefaults.PARAMS[mtype]
    user = {n: v * rng.uniform(0.8, 1.2) for n, v in full.items() if rng.random() < 0.4 and n != "p"} if mtype in ("SCIM", "DFIM") else {}
    mp = dict(full, **user)
    kw = dict(constraints=(), tau=rng.choice([1e-5, 1e-4, 3e-4]), motor=dict(motor_parameter=user))
    if mtype in envs.MOTORS[4:]:
        kw["load"] = load_for(rng, mtype)
    if dq:
        kw["converter"] = multi(mtype)
    eid = "%s-CC-%s-v0" % (kind, mtype)
    base = Probe()
    probes, objs, recs, order, ctor = [base], [], [], [base], []
    names = list(envs.make(eid, **{k: v for k, v in kw.items() if k != "load" and k != "converter"}).physical_system.unwrapped.state_names)
    for i, w in enumerate(stack):
        noisy = w["kind"] == "noise" or (i + 1 < len(stack) and stack[i + 1]["kind"] == "noise")
        o, r = concrete(rng, w, mtype, mp, names)
        if w["kind"] == "cossin":
            names = [n for n in names if not (w["remove"] and n == w["angle"])] + ["cos(%s)" % w["angle"], "sin(%s)" % w["angle"]]
        elif w["kind"] == "sum":
            names = names + ["i_sum"]
        elif w["kind"] == "flux":
            names = names + ["psi_abs", "psi_angle"]
        ctor.append(o)
        o = o() if through != "constructor" else o
        objs.append(o), recs.append(r), order.append(o)
        p = Probe() if noisy or i == len(stack) - 1 or rng.random() < 0.4 else None
        probes.append(p)
        if p is not None:
            order.append(p)
    if through == "make":
        env = envs.make(eid, physical_system_wrappers=tuple(order), **kw)
        ps, do_reset, do_step, space = env.physical_system, (lambda: env.reset(seed=rng.choice([None, rng.randrange(10**6)]))), env.step, env.action_space
    else:
        inner = envs.make(eid, **kw).physical_system.unwrapped
        ps = inner
        for o in order:
            if callable(o):                    # the wrapper gets its inner system when it is constructed
                objs[objs.index(o)] = ps = o(physical_system=ps)
            else:
                ps = o.set_physical_system(ps)
        do_reset, do_step, space = ps.reset, ps.simulate, ps.action_space
    tr.append(dict(ev="stack", base=layout(base), ws=recs, seen=[layout(o) for o in objs], tau=fl(ps.tau)))
    want = {"EESM": 3, "DFIM": 4}.get(mtype, 2)
    tr.append(dict(ev="actions", want=str(tuple([want])) if dq else repr(base.action_space), got=str(ps.action_space.shape) if dq else repr(ps.action_space)))
    space.seed(rng.randrange(10**6))

    def record(ev):
        tr.append(dict(ev=ev, levels=[[] if p is None else vec(p.states[-1]) for p in probes]))
        for p in probes:
            if p is not None:
                p.states.clear()
    diffs = []
    for ep in range(2):
        tries = 0
        while True:
            try:
                do_reset()
                break
            except Exception as ex:
                tries += 1
                if "nominal boundaries" not in str(ex) or tries > 50:
                    raise
        record("reset")
        for n in range(rng.randrange(3, 9)):
            do_step(space.sample())
            for i, r in enumerate(recs):
                if r["kind"] == "noise":
                    j = [str(x) for x in objs[i].state_names].index(r["states"][0])
                    diffs.append(repr(round(float(probes[i + 1].states[-1][j] - probes[i].states[-1][j]), 12)))
            record("step")
    if diffs:
        tr.append(dict(ev="fresh", d=diffs))


def run(c):
    q = c.quick
    c.model("MCWrappers", "Depth = 3\nSteps = %d" % (3 if q else 30), ["OneLength", "Distinct", "Kept", "Widths", "UnitCircle", "Bounded", "Forgets"])
    stacks = c.generate("MCWrappers", "Depth = %d\nSteps = 0" % (3 if q else 4), "INVARIANT Emit\nCONSTRAINT BuildOnly\n")
    c.extra["enumerated_stacks"] = len(stacks)
    traces, names = [], []

    def add(stack, mtype, kind, through):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            traces.append(vf.scenario(lambda tr: replay(c, tr, stack, mtype, kind, through)))
        names.append("%s %s [%s] %s" % (mtype, kind, "+".join(w["kind"] for w in stack), through))
    pick = lambda k: (c.rng.choice(["Cont", "Finite"]), c.rng.choice(["make", "make", "hand", "constructor"]))
    for k, st in enumerate(stacks):
        add(st, c.rng.choice(["SCIM", "SCIM", "DFIM"]), *pick(k))
    noflux = [s for s in stacks if not any(w["kind"] == "flux" or w.get("angle") == "psi_angle" for w in s)]
    sync = [s for s in noflux] + [[w] + s for s in noflux[:20] for w in [dict(kind="dq")] if not any(x["kind"] == "dq" for x in s)]
    for mtype in ("PMSM", "SynRM", "EESM"):
        for st in c.rng.sample(sync, 20 if q else len(sync)):
            add(st, mtype, *pick(0))
    dc = [s for s in noflux if not any(w["kind"] == "cossin" for w in s)]
    for mtype in ("ExtExDc", "ShuntDc"):
        for st in c.rng.sample(dc, min(len(dc), 8 if q else len(dc))):
            add(st, mtype, *pick(0))
    c.validate("WrapperTrace", traces, names)
    c.assumptions += ["Additive noise is judged by its configured (uniform) range and by being drawn anew, not by its distribution"]

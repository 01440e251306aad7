"""C24: one simulation step is the composition of its components. Spec: Scml; MCScml (design), ScmlTrace (conformance)."""
import warnings
import vf, envs, scml

INV = ["Clock", "Lengths", "SumZero", "AngleOk", "ConverterLossless", "DqConsistent", "FieldTorque", "VoltageBound", "SectionShape"]


def drive(c, mtype, kind, nsteps, tr, **fix):
    rng = c.rng
    cfg = scml.configuration(rng, mtype, kind, **fix)
    if cfg["cs"] == "abc" and rng.random() < 0.7:
        cfg["monitored"] = rng.sample(["omega", "torque", "u_sup"] + (["epsilon"] if mtype not in scml.DC else []), 2)
        if mtype in ("PermExDc", "SeriesDc"):
            cfg["monitored"].append("i")
    env, rec, sol = scml.make(cfg)
    env.action_space.seed(rng.randrange(10**6))
    tr.append(scml.head(env, cfg))
    for ep in range(3):
        scml.reset(env, rec, sol, cfg, tr, seed=rng.randrange(10**6))
        hold = None
        for k in range(nsteps):
            hold = scml.step(env, rec, sol, cfg, tr, rng, hold if hold is not None and rng.random() < 0.5 else None)
            if rec.term or not scml.safe(rec):
                break


def run(c):
    c.model("MCScml", 'Depth = %d\nKinds = {"dc2", "dc4", "pmsm", "scim"}\nActs = {0, 1, 2, 3, 5}' % (3 if c.quick else 5), INV)
    c.model("MCScml", 'Depth = %d\nKinds = {"ext", "eesm", "dfim"}\nActs = {0, 1, 2, 6}' % (2 if c.quick else 3), INV)
    traces, names = [], []
    for rep in range(4 if c.quick else 60):
        for m in envs.MOTORS:
            for kind in envs.CT:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    traces.append(vf.scenario(lambda tr: drive(c, m, kind, 10 if c.quick else 40, tr)))
                h = traces[-1][0] if traces[-1] else {}
                names.append("%s %s #%d %s" % (kind, m, rep, [(u["type"], u["til"]) for u in h.get("c", {}).get("units", [])]))
    c.validate("ScmlTrace", traces, names, chunk=400)
    c.assumptions += ["C24: a trace is no longer judged (except its instant clauses) once a converter output depended on the sign of a current below 1e-8",
                      "C24: an RC supply may see the unit's current of before or after the switching at the begin of the step"]

"""C28: ramping limit margin. Spec: References (Ramp); MCReferences (design), RampTrace (conformance)."""
import numpy as np
import gym_electric_motor.reference_generators as rgs
from gym_electric_motor.callbacks import RampingLimitMargin
import vf, envs
from vf import fl

IDS = [("Cont-CC-PermExDc-v0", "i"), ("Finite-CC-PermExDc-v0", "i"), ("Cont-SC-PMSM-v0", "i_sq"), ("Finite-TC-SynRM-v0", "torque"), ("Cont-CC-ExtExDc-v0", "i_a")]


def reader(side, state, last):
    """generator whose reference is the upper (lower) margin in force when it is asked"""
    class Reader(rgs.SinusoidalReferenceGenerator):
        def get_reference_observation(self, *a, **k):
            o = super().get_reference_observation(*a, **k)
            last[0] = side
            return o
    v = 1.0 if side == "hi" else -1.0
    return Reader(reference_state=state, episode_lengths=(1, 1), limit_margin=1.0, amplitude_range=(0, 0), offset_range=(v, v))


def scen(tr, c, kind):
    rng = c.rng
    env_id, state = rng.choice(IDS)
    mx = rng.choice([(-1, 1), (-1.0, 1.0), (-0.8, 0.6), (-0.5, 1)])
    ini = rng.choice([(-0.1, 0.1), (mx[0] * 0.3, mx[1] * 0.2), (0.0, 0.3), tuple(mx), (-0.3, -0.1)])
    step = rng.choice([0.1, 0.05, 0.37, 2.0, rng.uniform(0.001, 0.2)])
    unit, freq = rng.choice(["step", "episode"]), rng.choice([1, 1, 2, 3, 7, 10])
    if rng.random() < 0.15:
        ini, mx, step, unit, freq = (-0.1, 0.1), (-1, 1), 0.1, "episode", 10
        cb = RampingLimitMargin()
    else:
        conv = rng.choice([tuple, tuple, list]) if kind != "x" else tuple
        cb = RampingLimitMargin(initial_limit_margin=conv(ini), maximum_limit_margin=conv(mx), step_size=step, update_time=unit, update_freq=freq)
    last = ["in"]
    if kind == "hi" or kind == "lo":
        gen = reader(kind, state, last)
    elif kind == "switched":
        gen = rgs.SwitchedReferenceGenerator([reader(rng.choice(["hi", "lo"]), state, last) for _ in range(rng.randrange(1, 4))] + [reader("lo", state, last), reader("hi", state, last)],
                                             super_episode_length=rng.choice([1, (1, 4)]))
    else:
        cls = rng.choice([rgs.SinusoidalReferenceGenerator, rgs.SawtoothReferenceGenerator, rgs.TriangularReferenceGenerator, rgs.StepReferenceGenerator,
                          rgs.WienerProcessReferenceGenerator, rgs.LaplaceProcessReferenceGenerator])
        gens = [cls(reference_state=state, episode_lengths=rng.choice([(1, 9), (5, 30)])) for _ in range(2)]
        gen = gens[0] if rng.random() < 0.5 else rgs.SwitchedReferenceGenerator(gens, super_episode_length=(2, 9))
    other = RampingLimitMargin(step_size=0.5, update_time="step", update_freq=1)      # a second instance of the callback, elsewhere
    envs.make("Cont-CC-PermExDc-v0", reference_generator=reader("hi", "i", ["in"]), callbacks=[other]).reset()
    env = envs.make(env_id, reference_generator=gen, callbacks=[cb])
    tr.append(dict(ev="setup", initial=dict(lo=fl(ini[0]), hi=fl(ini[1])), max=dict(lo=fl(mx[0]), hi=fl(mx[1])), step=fl(step), unit="step" if unit == "step" else "reset", freq=freq))
    k = 0
    for _ in range(rng.choice([3, 12, 45])):
        _, r = env.reset(seed=rng.randrange(10 ** 6) if rng.random() < 0.5 else None)[0]
        tr.append(dict(ev="reset", x=fl(r[0]), side=last[0]))
        for _ in range(rng.choice([0, 1, 5, 30])):
            (_, r), _, term, _, _ = env.step(env.action_space.sample())
            tr.append(dict(ev="step", x=fl(r[0]), side=last[0]))
            if term:
                break


def refuse(tr, c):
    for gen in (rgs.MultipleReferenceGenerator([rgs.WienerProcessReferenceGenerator(reference_state="i")]), rgs.ConstReferenceGenerator(reference_state="i"),
                rgs.SwitchedReferenceGenerator([rgs.ConstReferenceGenerator(reference_state="i"), rgs.WienerProcessReferenceGenerator(reference_state="i")])):
        try:
            envs.make("Cont-CC-PermExDc-v0", reference_generator=gen, callbacks=[RampingLimitMargin()])
            ok = False
        except AssertionError:
            ok = True
        tr.append(dict(ev="refuse", refused=ok))


def run(c):
    c.model("MCReferences", "Lens = {1}\nSuperLens = {1, 2}\nIncs <- SmallIncs\nMaxT = %d\nFreq = 2\nRampStep = 1" % (6 if c.quick else 8),
            ["InLimits", "InMargin", "CompleteSubEpisodes", "SuperEpisodes", "MarginInMax"], ["NoGap", "MarginGrows"])
    traces, names = [], []
    for r in range(12 if c.quick else 120):
        for kind in ("hi", "lo", "switched", "in"):
            traces.append(vf.scenario(scen, c, kind))
            names.append("%s/%d" % (kind, r))
    traces.append(vf.scenario(refuse, c))
    names.append("refuse")
    c.validate("RampTrace", traces, names, chunk=100)

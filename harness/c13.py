"""C13: reference generators of one state. Spec: References; MCReferences (design), ReferenceTrace (conformance)."""
import math
import numpy as np
import gym_electric_motor.reference_generators as rgs
import vf, envs
from vf import fl, vec

GENS = dict(sin=rgs.SinusoidalReferenceGenerator, saw=rgs.SawtoothReferenceGenerator, tri=rgs.TriangularReferenceGenerator,
            step=rgs.StepReferenceGenerator, wiener=rgs.WienerProcessReferenceGenerator, laplace=rgs.LaplaceProcessReferenceGenerator)
INF = float("inf")


def rg_range(r):
    return dict(lo=fl(r[0]), hi=fl(r[1]))


# ------------------------------------------------------- witnesses of waveforms
def tri_wave(y, w):
    return np.where(y < w, 2 * y / max(w, 1e-300) - 1, (1 + w - 2 * y) / max(1 - w, 1e-300))


def fit_sin(x, tau, known):
    n = len(x)
    t = np.arange(n) * tau

    def solve(f):
        cols = [np.sin(2 * np.pi * f * t), np.cos(2 * np.pi * f * t)]
        y = x.copy()
        if known["off"] is None:
            cols.append(np.ones(n))
        else:
            y = y - known["off"]
        M = np.array(cols).T
        p, *_ = np.linalg.lstsq(M, y, rcond=None)
        return float(np.sum((M @ p - y) ** 2)), p
    f = known["f"]
    if f is None:
        lo, hi = known["frange"]
        step = 0.05 / (n * tau)
        grid = np.arange(lo, hi + step, step)
        best = min(grid, key=lambda g: solve(g)[0])
        a, b = max(lo * (1 - 1e-9), best - step), min(hi * (1 + 1e-9), best + step)
        g = (math.sqrt(5) - 1) / 2
        for _ in range(80):
            p1, p2 = b - g * (b - a), a + g * (b - a)
            if solve(p1)[0] < solve(p2)[0]:
                b = p2
            else:
                a = p1
        f = (a + b) / 2
    _, p = solve(f)
    amp = math.hypot(p[0], p[1])
    return dict(amp=amp, off=known["off"] if known["off"] is not None else float(p[2]), f=f, phase=math.atan2(p[1], p[0]) / (2 * np.pi) % 1, w=0.5)


def fit_ramp(x, tau, known, kind):
    """Sawtooth and triangle with known offset and one of amplitude / frequency known."""
    off = known["off"]
    d = np.diff(x)
    scale = max(1e-12, np.max(np.abs(x - off)))

    def common(v):
        """value of the most frequent slope (interior of a segment)"""
        if len(v) == 0:
            return None, 0
        best, cnt = None, 0
        for c in v[:400]:
            k = int(np.sum(np.abs(v - c) < 1e-9 * max(1.0, scale)))
            if k > cnt:
                best, cnt = c, k
        return (best, cnt) if cnt > 1 or len(v) < 3 else (None, 0)
    up, cu = common(d[d > 0])
    dn, cd = common(d[d < 0])
    if kind == "tri" and known["f"] is None:
        # the times at which the lines of the longer segment cross the offset repeat with the period
        slope = up if cu >= cd else dn
        k = np.array([j for j in range(1, len(x) - 1) if abs(d[j] - slope) < 1e-9 and abs(d[j - 1] - slope) < 1e-9])
        cross = np.sort(k * tau - (x[k] - off) / slope * tau)
        jumps = np.diff(cross)
        known = dict(known, f=1.0 / float(jumps[jumps > 3 * tau][0]))
    if kind == "saw":
        af = up / (2 * tau)
        w = 1.0
    else:
        if known["amp"] is not None and known["f"] is not None:
            af = known["amp"] * known["f"]
            w = 2 * af * tau / up if cu >= cd else 1 + 2 * af * tau / dn
        elif min(cu, cd) > 5:
            w = 1 / up / (1 / up - 1 / dn)
            af = up * w / (2 * tau)
        else:
            return dict(skip=True, amp=0.0, off=0.0, f=1.0, phase=0.0, w=0.5)      # the shorter segment holds hardly a sample
    amp, f = known["amp"], known["f"]
    if amp is None:
        amp = af / f
    if f is None:
        f = af / amp
    # phase from a sample in the interior of the more frequent segment
    rising = kind == "saw" or cu >= cd
    slope = up if rising else dn
    ok = [k for k in range(1, len(x) - 1) if abs(d[k] - slope) < 1e-9 * max(1.0, scale) and abs(d[k - 1] - slope) < 1e-9 * max(1.0, scale)] or \
         [k for k in range(len(d)) if abs(d[k] - slope) < 1e-9 * max(1.0, scale)]
    k = ok[len(ok) // 2]
    v = (x[k] - off) / amp
    y = (v + 1) * w / 2 if rising else (1 + w - v * (1 - w)) / 2
    return dict(amp=amp, off=off, f=f, phase=(y - f * k * tau) % 1, w=w)


def fit_step(x, tau, known):
    f = known["f"]
    lo, hi = float(np.min(x)), float(np.max(x))
    amp, off = known["amp"], known["off"]
    if hi - lo > 1e-9:
        amp, off = (hi - lo) / 2, (hi + lo) / 2
    else:
        # one level only: any admitted pair of amplitude and offset explains it
        for a in ([amp] if amp is not None else np.linspace(known["arange"][0], known["arange"][1], 400)):
            cand = [o for o in (lo - a, lo + a) if known["orange"](a)[0] - 1e-9 <= o <= known["orange"](a)[1] + 1e-9]
            if cand:
                amp, off = a, cand[0]
                break
        else:
            amp, off = 0.0, lo
    high = x > off
    n, T = len(x), 1 / f / tau
    k = np.arange(n)
    best = None
    for s in range(int(T) + 1):
        y = (f * (k - s) * tau) % 1
        mid = (y > 2e-6) & (y < 1 - 2e-6)
        a = y[~high & mid].max() if (~high & mid).any() else 0.0
        b = y[high & mid].min() if (high & mid).any() else 1.0
        if best is None or b - a > best[0]:
            best = (b - a, s, min(max((a + b) / 2, 0.0), 1.0))
    return dict(amp=amp, off=off, f=f, phase=(-f * best[1] * tau) % 1, w=best[2])


def fit(kind, x, tau, known):
    x = np.asarray(x)
    try:
        if kind == "sin":
            w = fit_sin(x, tau, known)
        elif kind == "step":
            w = fit_step(x, tau, known)
        else:
            w = fit_ramp(x, tau, known, kind)
        if not all(math.isfinite(v) for v in w.values()):
            raise ValueError
    except (TypeError, ValueError, ZeroDivisionError, IndexError):
        w = dict(amp=0.0, off=0.0, f=1.0, phase=0.0, w=0.5)
    return dict({a: fl(b) for a, b in w.items()}, skip=bool(w.get('skip', False)))


# ------------------------------------------------------------------- scenarios
def margin_of(c, ps, i):
    lo, hi = float(ps.state_space.low[i]), float(ps.state_space.high[i])
    kind = c.rng.choice(["none", "factor", "pair"])
    if kind == "none":
        return None, dict(kind="none", x=0, y=0)
    if kind == "factor":
        x = c.rng.choice([1, 1.0, c.rng.uniform(0.2, 1.0)])
        return x, dict(kind="factor", x=fl(x), y=0)
    a, b = c.rng.uniform(0.1, 1), c.rng.uniform(0.3, 1)
    return (a, b), dict(kind="pair", x=fl(a), y=fl(b))


def head(c, kind, mode, ps, i, lm, gen, lens, tol, **kw):
    d = dict(ev="setup", kind=kind, mode=mode, names=list(ps.state_names), state=ps.state_names[i], nominal=fl(ps.nominal_state[i]),
             limit=fl(ps.limits[i]), low=fl(ps.state_space.low[i]), high=fl(ps.state_space.high[i]), lm=lm, tau=fl(ps.tau),
             lens=[int(lens[0]), int(lens[1])], refnames=[str(n) for n in gen.reference_names], mask=[bool(b) for b in gen.referenced_states],
             space=[fl(gen.reference_space.low[0]), fl(gen.reference_space.high[0])], tol=fl(tol))
    d.update(kw)
    return d


def drive(tr, c, gen, ps, i, n, given=None, fitter=None):
    """One episode: reset, then n steps in the order in which the environment asks."""
    state = np.zeros(len(ps.state_names))
    init = None
    if given is not None:
        init = np.zeros(len(ps.state_names))
        init[i] = given
        init[(i + 1) % len(init)] = 0.123
    ref, obs, _ = gen.reset(initial_state=state, initial_reference=init)
    o0 = float(np.asarray(obs).ravel()[0])
    tr.append(dict(ev="reset", given="none" if given is None else fl(given), ref=vec(ref), obs=fl(o0)))
    assert np.asarray(obs).shape == (1,)
    xs, refs, others = [], [], 0.0
    for _ in range(n):
        r = np.array(gen.get_reference(state), dtype=float)
        refs.append(float(r[i]))
        r[i] = 0
        others = max(others, float(np.max(np.abs(r))))
        xs.append(float(gen.get_reference_observation(state)[0]))
    tr.append(dict(ev="run", obs=vec(xs), refs=vec(refs), others=fl(others), wit=fitter([o0] + xs) if fitter else []))


def system(c, pool):
    while True:
        ps = c.rng.choice(pool)
        cand = [i for i in range(len(ps.state_names)) if ps.state_space.high[i] - ps.state_space.low[i] > 0.5 and ps.nominal_state[i] > 0]
        if cand:
            return ps, c.rng.choice(cand)


def mount(c, gen, ps, i, pool):
    """The generator is attached to the system, sometimes after it served another one."""
    first = [p for p in pool if p is not ps and ps.state_names[i] in p.state_names]
    if first and c.rng.random() < 0.3:
        gen.set_modules(c.rng.choice(first))
    gen.set_modules(ps)


def bounds(ps, i, lm):
    """the margin, only used to choose interesting parameters"""
    lo, hi = float(ps.state_space.low[i]), float(ps.state_space.high[i])
    if lm["kind"] == "none":
        k = float(ps.nominal_state[i] / ps.limits[i])
        return k * lo, k * hi
    return float(lm["x"]) * lo, float(lm["x"] if lm["kind"] == "factor" else lm["y"]) * hi


def waves(tr, c, pool, kind, free):
    """free: which of amplitude, offset, frequency are random ('' = none)"""
    rng = c.rng
    ps, i = system(c, pool)
    lmv, lm = margin_of(c, ps, i)
    lo, hi = bounds(ps, i, lm)
    half = (hi - lo) / 2
    L = rng.randrange(60, 150) if kind != "step" else rng.randrange(60, 220)
    per = rng.uniform(0.6, 3.0) if "f" not in free else rng.uniform(2.6, 3.5)       # periods in a sub-episode
    f0 = per / (L * ps.tau)
    fr = (f0, f0) if "f" not in free else (0.8 * f0, 1.6 * f0)
    far = rng.random() < 0.25                # beyond what the margin admits
    A = rng.uniform(0.2, 0.9) * half if not far else rng.uniform(1.0, 2.5) * half
    a = (A, A) if "a" not in free else (0.1 * half, rng.choice([0.7 * half, 3.0 * half]))
    O = rng.uniform(lo, hi) if not far else rng.uniform(-1.5, 1.5)
    if kind in ("saw", "tri") and "f" in free and "a" in free:
        raise AssertionError
    o = (O, O) if "o" not in free else (lo + 0.3 * half, lo + 1.5 * half) if rng.random() < 0.6 else None
    if far and "o" not in free and rng.random() < 0.5:
        pass
    amp_eff = min(max(A, 0), half)
    off_eff = None
    if "o" not in free and "a" not in free:
        off_eff = min(max(min(max(O, lo), hi), lo + amp_eff), hi - amp_eff)
    elif "o" not in free:
        # keep the offset where every admitted amplitude leaves it alone
        a = (0.05 * half, 0.5 * half)
        O = lo + half * rng.uniform(0.6, 1.4)
        o, off_eff = (O, O), O
    lens = rng.choice([L, (L, L)]) 
    kw = dict(reference_state=rng.choice([ps.state_names[i], ps.state_names[i].upper()]), episode_lengths=lens, limit_margin=lmv,
              amplitude_range=a, frequency_range=fr)
    if o is not None:
        kw["offset_range"] = o
    gen = GENS[kind](**kw)
    mount(c, gen, ps, i, pool)
    gen.seed(np.random.SeedSequence(rng.randrange(10 ** 6)))
    tr.append(head(c, kind, "wave", ps, i, lm, gen, (L, L), 2e-6, a=rg_range(a), f=rg_range(fr), o=rg_range(o or (-INF, INF))))
    known = dict(amp=None if "a" in free else amp_eff, off=off_eff, f=None if "f" in free else f0, frange=fr,
                 arange=(min(a[0], half), min(a[1], half)), orange=lambda A: np.clip(np.clip(o or (-INF, INF), lo, hi), lo + A, hi - A))
    fitter = lambda xs: [fit(kind, xs[b * L:(b + 1) * L], ps.tau, known) for b in range((len(xs) + L - 1) // L)]
    for _ in range(2 if c.quick else 4):
        n = rng.choice([L - 1, 2 * L - 1, 4 * L - 1, 3 * L + L // 2 if kind in ("saw", "tri") and not free else 3 * L - 1])
        drive(tr, c, gen, ps, i, n, rng.choice([None, None, rng.uniform(lo, hi)]), fitter)


def lengths(tr, c, pool, kind):
    """amplitude 0: the reference is the offset, the borders of the sub-episodes become visible"""
    rng = c.rng
    ps, i = system(c, pool)
    lmv, lm = margin_of(c, ps, i)
    lo, hi = bounds(ps, i, lm)
    L = rng.choice([(1, 12), (3, 9), (5, 5), (10, 40), (2, 3)])
    o = rng.choice([None, (-INF, INF), (lo + 0.2 * (hi - lo), hi), (-2.0, lo + 0.7 * (hi - lo))])
    gen = GENS[kind](reference_state=ps.state_names[i], episode_lengths=L, limit_margin=lmv, amplitude_range=(0, 0), frequency_range=(1 / ps.tau / 50, 1 / ps.tau / 20),
                     offset_range=o)
    mount(c, gen, ps, i, pool)
    gen.seed(np.random.SeedSequence(rng.randrange(10 ** 6)))
    tr.append(head(c, kind, "lens", ps, i, lm, gen, L, 1e-9, a=rg_range((0, 0)), f=rg_range((1, 1)), o=rg_range(o or (-INF, INF))))
    drive(tr, c, gen, ps, i, 60 * L[1], None)
    for _ in range(6):
        drive(tr, c, gen, ps, i, rng.randrange(1, 4) * L[1] + L[1], None)


def loose(tr, c, pool, kind):
    """default parameters: only what holds for every parameter"""
    rng = c.rng
    ps, i = system(c, pool)
    lmv, lm = margin_of(c, ps, i)
    kw = {}
    if kind not in ("wiener", "laplace"):
        kw["frequency_range"] = (0.2 / ps.tau / 100, 10 / ps.tau / 100)
    gen = GENS[kind](reference_state=ps.state_names[i], episode_lengths=(20, 60), limit_margin=lmv, **kw)
    mount(c, gen, ps, i, pool)
    gen.seed(np.random.SeedSequence(rng.randrange(10 ** 6)))
    lo, hi = bounds(ps, i, lm)
    tr.append(head(c, kind, "loose", ps, i, lm, gen, (20, 60), 1e-9, sigma=rg_range((1e-3, 1e-1)), init=rg_range((lo, hi))))
    for _ in range(4):
        drive(tr, c, gen, ps, i, rng.randrange(1, 300), None)


def walks(tr, c, pool, kind, fixed):
    rng = c.rng
    while True:
        ps, i = system(c, pool)
        lmv, lm = margin_of(c, ps, i)
        lo, hi = bounds(ps, i, lm)
        if hi - lo > 0.4:
            break
    s = 10 ** rng.uniform(-3.3, -1.9)
    sigma = (s, s) if fixed else (3e-4, 1.5e-2)
    L = rng.choice([300, 400])
    lens = (L, L) if not fixed or rng.random() < 0.5 else rng.choice([(5, 60), (1, 6)])
    kw = dict(reference_state=ps.state_names[i], episode_lengths=lens, limit_margin=lmv, sigma_range=sigma)
    init = (lo, hi)
    if kind == "wiener" and rng.random() < 0.6:
        a = rng.uniform(-0.5, 0.5)
        init = rng.choice([(a, a + 0.2), (0.3, 0.3)])
        kw["initial_range"] = init
    gen = GENS[kind](**kw)
    mount(c, gen, ps, i, pool)
    gen.seed(np.random.SeedSequence(rng.randrange(10 ** 6)))
    tr.append(head(c, kind, "walk", ps, i, lm, gen, lens, 1e-9, sigma=rg_range(sigma), init=rg_range(init)))
    for k in range(3):
        drive(tr, c, gen, ps, i, 3000 if k == 1 else 12, rng.choice([None, rng.uniform(lo, hi), lo, hi]))
    for k in range(5):
        drive(tr, c, gen, ps, i, 2, [None, lo, hi, None, None][k])


def constant(tr, c, pool):
    rng = c.rng
    ps, i = system(c, pool)
    v = rng.uniform(-1, 1)
    gen = rgs.ConstReferenceGenerator(reference_state=ps.state_names[i], reference_value=v)
    mount(c, gen, ps, i, pool)
    tr.append(head(c, "const", "const", ps, i, dict(kind="none", x=0, y=0), gen, (1, 1), 1e-9, value=fl(v)))
    for _ in range(3):
        drive(tr, c, gen, ps, i, rng.randrange(1, 20), rng.choice([None, 0.7]))


def run(c):
    c.model("MCReferences", "Lens = {1, 2}\nSuperLens = {1, 2}\nIncs <- SmallIncs\nMaxT = %d\nFreq = 2\nRampStep = 1" % (5 if c.quick else 7),
            ["InLimits", "InMargin", "CompleteSubEpisodes", "SuperEpisodes", "MarginInMax"], ["NoGap", "MarginGrows"])
    ids = ["Cont-SC-PermExDc-v0", "Finite-CC-PMSM-v0", "Cont-TC-SCIM-v0", "Finite-SC-SeriesDc-v0", "Cont-CC-EESM-v0", "Cont-SC-ShuntDc-v0", "Finite-TC-DFIM-v0",
           "Cont-CC-ExtExDc-v0", "Finite-SC-SynRM-v0"]
    pool = [envs.make(x).physical_system for x in ids]
    traces, names = [], []

    def add(nm, *a):
        traces.append(vf.scenario(*a))
        names.append(nm)
    reps = 2 if c.quick else 14
    for r in range(reps):
        for kind in ("sin", "saw", "tri", "step"):
            for free in dict(sin=["", "a", "o", "ao", "f", "aof"], saw=["", "a", "f"], tri=["", "a", "f"], step=["", "o", "ao"])[kind]:
                add("%s/%s/%d" % (kind, free or "fixed", r), waves, c, pool, kind, free)
            add("lengths/%s/%d" % (kind, r), lengths, c, pool, kind)
            add("loose/%s/%d" % (kind, r), loose, c, pool, kind)
        for kind in ("wiener", "laplace"):
            add("%s/fixed/%d" % (kind, r), walks, c, pool, kind, True)
            add("%s/range/%d" % (kind, r), walks, c, pool, kind, False)
            add("loose/%s/%d" % (kind, r), loose, c, pool, kind)
        add("const/%d" % r, constant, c, pool)
    c.validate("ReferenceTrace", traces, names, chunk=60)
    c.assumptions += ["distributions of the random processes are judged by moments of long samples", "parameters of a sub-episode are identified by the driver and verified sample by sample by the specification"]

"""mutants.py N WORKERS SEED [FILE-REGEX]: development aid, no check. Samples small faults in /repo's sources, keeps those that
pass the tests and lists which of them no check of the properties concerned reports. Every fault lives in a scratch copy that is
bind-mounted over /repo inside a private mount namespace, so neither /repo nor /verif is touched. Log: /tmp/mw/log.jsonl."""
import ast, json, os, random, re, shutil, subprocess, sys, threading
import warnings
warnings.simplefilter("ignore")
SRC = "/repo/src/"
MAP = [
    (r"gym_electric_motor/core", "C01 C02 C15 C06 C03 C04 C27"),
    (r"callbacks", "C28 C02"),
    (r"physical_systems/physical_systems|physical_systems/__init__", "C24 C17 C05 C23 C21 C06 C04 C10"),
    (r"converters", "C07 C08 C24 C05 C23"),
    (r"electric_motors", "C16 C21 C23 C24 C17 C04"),
    (r"mechanical_loads", "C18 C21 C24 C05 C03 C06"),
    (r"voltage_supplies", "C19 C05 C06"),
    (r"solvers", "C20 C05 C24 C06"),
    (r"reference_generators/(switched|multiple)", "C14 C13 C03"),
    (r"reference_generators", "C13 C14 C03 C05"),
    (r"reward_functions", "C12 C15 C04"),
    (r"constraint", "C11 C01 C12 C04"),
    (r"wrappers/dead", "C09 C10"),
    (r"wrappers/dq", "C17 C10 C09"),
    (r"wrappers", "C10 C17 C09 C03 C05"),
    (r"observers", "C15"),
    (r"visualization", "C27 C02 C26"),
    (r"envs/gym_|gym_electric_motor/__init__|gym_electric_motor/envs", "C22 C23 C03 C04"),
    (r"random_component", "C03 C13 C04"),
    (r"gym_electric_motor/utils", "C22 C04 C16 C13"),
    (r"gem_controllers/block_diagrams", ""),
    (r"operation_point|dc_ops", "C29 C30 C26"),
    (r"gem_controllers", "C25 C26 C29 C30"),
]


def props(f):
    for r, p in MAP:
        if re.search(r, f):
            return p.split()
    return []


def edits(src):
    """All (start, end, new text, description) of one module."""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assert, ast.Raise)) or (isinstance(n, ast.FunctionDef) and n.name in ("__str__", "__repr__")):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0])); skip.add(id(n.body[0].value))
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*"}
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or id(fn) in skip:
            continue
        names = sorted({m.id for m in ast.walk(fn) if isinstance(m, ast.Name)} - {"self", "np", "super", "len", "range"})
        attrs = sorted({m.attr for m in ast.walk(fn) if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and m.value.id == "self" and isinstance(m.ctx, ast.Load)})
        for n in ast.walk(fn):
            if id(n) in skip or n is fn or not hasattr(n, "lineno"):
                continue
            s, e = pos(n)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    out.append((s, e, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp"))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                out.append((s, e, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin"))
                if random.random() < 0.5:
                    out.append((s, e, seg(n.left), "drop"))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                out.append((s, e, repr(n.value + 1), "const"))
                if n.value:
                    out.append((s, e, repr(n.value * random.choice([-1, 0, 2])), "const"))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((s, e, repr(not n.value), "bool"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                out.append((s, e, seg(n.operand), "unary"))
            elif isinstance(n, ast.BoolOp):
                j = " or " if isinstance(n.op, ast.And) else " and "
                out.append((s, e, "(" + j.join(seg(v) for v in n.values) + ")", "boolop"))
                out.append((s, e, seg(n.values[-1]), "boolop"))
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                t = n.test
                out.append((*pos(t), "True" if not isinstance(n, ast.While) else seg(t), "cond"))
                out.append((*pos(t), "False", "cond"))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n.lineno == n.end_lineno:
                if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call):
                    continue
                if isinstance(n, ast.Assign) and (seg(n.value) == "None" or fn.name == "__init__" and isinstance(n.value, (ast.List, ast.Constant))):
                    continue
                out.append((s, e, "pass", "del"))
                if isinstance(n, ast.AugAssign):
                    out.append((s, e, "%s = %s" % (seg(n.target), seg(n.value)), "aug"))
            elif isinstance(n, ast.Call):
                a = n.args
                if len(a) >= 2:
                    i = random.randrange(len(a) - 1)
                    if seg(a[i]) != seg(a[i + 1]):
                        x, y = pos(a[i]), pos(a[i + 1])
                        out.append((x[0], y[1], seg(a[i + 1]) + ", " + seg(a[i]), "swap"))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy") and not n.args:
                    out.append((s, e, seg(n.func.value), "alias"))
                if isinstance(n.func, ast.Name) and n.func.id in ("dict", "list", "tuple", "abs", "copy") and len(n.args) == 1:
                    out.append((s, e, seg(n.args[0]), "alias"))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("array", "abs", "copy", "sign", "sqrt", "deepcopy", "clip") and n.args:
                    out.append((s, e, seg(n.args[0]), "alias"))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("sin", "cos", "min", "max"):
                    o = dict(sin="cos", cos="sin", min="max", max="min")[n.func.attr]
                    out.append((s, e, seg(n.func.value) + "." + o + seg(n)[len(seg(n.func)):], "func"))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and random.random() < 0.3:
                out.append((s, e, random.choice(names), "name"))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in attrs and isinstance(n.value, ast.Name) and n.value.id == "self" and random.random() < 0.4:
                out.append((s, e, "self." + random.choice(attrs), "attr"))
    res = []
    for s, e, t, d in out:
        if b[s:e].decode() == t:
            continue
        try:
            ast.parse(b[:s].decode() + t + b[e:].decode())
        except SyntaxError:
            continue
        res.append((s, e, t, d))
    return res


def main():
    n, w, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else "."
    random.seed(seed)
    files = []
    for d, _, fs in os.walk(SRC):
        files += [os.path.join(d, f)[len(SRC):] for f in fs if f.endswith(".py")]
    files = sorted(f for f in files if props(f) and re.search(rx, f))
    pool = []
    for f in files:
        src = open(SRC + f, "rb").read().decode().replace("\r\n", "\n")
        k = edits(src)
        random.shuffle(k)
        cap = 6 if "/envs/gym_" in f else 400
        pool += [(f, x) for x in k[:cap]]
    random.shuffle(pool)
    jobs = pool[:n]
    print(len(pool), "candidates,", len(jobs), "sampled", flush=True)
    lock = threading.Lock()
    log = open("/tmp/mw/log.jsonl", "a")

    def work(k):
        base = "/tmp/mw/w%d_%d" % (seed, k)
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
        subprocess.run(["cp", "-a", "/verif", base + "/verif"], check=True)
        while True:
            with lock:
                if not jobs:
                    break
                f, (s, e, t, d) = jobs.pop()
            p = base + "/repo/src/" + f
            raw = open(p, "rb").read()
            crlf = b"\r\n" in raw
            b = raw.replace(b"\r\n", b"\n")
            m = b[:s] + t.encode() + b[e:]
            a = b[:s].count(b"\n")
            old = b.split(b"\n")[a].decode().strip()
            new = m.split(b"\n")[a].decode().strip()
            open(p, "wb").write(m.replace(b"\n", b"\r\n") if crlf else m)
            rec = dict(file=f, line=a + 1, kind=d, old=old, new=new)
            pre = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen VERIF_SEED=1 VERIF_TIER=quick && " % (base, base)
            def ns(cmd, to):
                try:
                    r = subprocess.run(["timeout", "-k", "5", str(to), "unshare", "-m", "bash", "-c", pre + cmd], capture_output=True, text=True)
                    return r.returncode, r.stdout
                except Exception as x:
                    return 99, str(x)
            rc, out = ns("cd /repo && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=100 tests >/dev/null 2>&1", 200)
            if rc:
                rec["result"] = "tests"
            else:
                rec["result"] = "MISSED"
                for c in props(f):
                    rc, out = ns("cd /verif && /opt/venv/bin/python harness/check.py " + c, 900)
                    if rc == 1:
                        rec["result"] = "caught " + c
                        break
                    if rc:
                        rec["result"] = "NOANSWER %s %d" % (c, rc)
                        break
            open(p, "wb").write(raw)
            with lock:
                log.write(json.dumps(rec) + "\n"); log.flush()
        shutil.rmtree(base, ignore_errors=True)

    th = [threading.Thread(target=work, args=(k,)) for k in range(w)]
    [x.start() for x in th]
    [x.join() for x in th]


main()

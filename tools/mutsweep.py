#!/usr/bin/env python3
"""tools/mutsweep.py REPO OUT.jsonl [--n N] [--seed S] [--props C01,C02] [--jobs J]
Development aid: applies random small mutations to functions encoded by the checks (per evidence/*.json) in scratch copies of
REPO and records which quick checks notice. Never touches REPO itself."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time, threading, queue
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo, out = sys.argv[1:3]
def opt(k, d):
    return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
N, SEED, J = int(opt("--n", 30)), int(opt("--seed", 1)), int(opt("--jobs", 8))
props = {}
for l in open(D + "/properties.jsonl"):
    p = json.loads(l); props[p["id"]] = p
sel = opt("--props", None); sel = sel.split(",") if sel else sorted(props)
rng = random.Random(SEED)
QUIET = {"log", "debug", "debugv", "info", "infov", "warning", "error", "critical", "timing", "trace", "deprecated", "output", "format", "changeIndentLevel"}


def quiet(n):
    if isinstance(n, (ast.Raise, ast.Assert)):
        return True
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in QUIET: return True
        if isinstance(f, ast.Name) and f.id in ("time_string", "energy_string", "timer", "print", "dot_einsum_path"): return True
    return False


def sites(tree, src, quals):
    """(start, end, replacement) for the functions in quals"""
    lines = src.split("\n"); off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    res = []
    def add(n, new, kind): s, e = pos(n); res.append((s, e, new, kind, n.lineno))
    def visit(n, fn):
        if quiet(n): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if fn:
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                if "einsum" in nm and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                    s = n.args[0].value; q = txt(n.args[0])
                    idx = [i for i, c in enumerate(q) if c.isalpha()]
                    for _ in range(3):
                        i, j = rng.sample(idx, 2) if len(idx) > 1 else (0, 0)
                        if q[i] != q[j]:
                            t = list(q); t[i], t[j] = t[j], t[i]; add(n.args[0], "".join(t), "einsum")
                for k in n.keywords:
                    if k.arg and not isinstance(k.value, ast.Constant):
                        pass
                for k in n.keywords:
                    if k.arg is None: continue
                    s, e = pos(k); rest = b[e:e + 2].decode(errors="replace")
                    e2 = e + (len(rest) - len(rest.lstrip(", ")) if rest.startswith(",") else 0)
                    res.append((s, e2, "", "dropkw", k.value.lineno))
                if isinstance(n.func, ast.Attribute) and nm in ("transpose", "conj", "copy", "swapaxes"):
                    add(n, txt(n.func.value), nm)
            if isinstance(n, ast.Attribute) and n.attr == "T": add(n, txt(n.value), ".T")
            if isinstance(n, ast.BinOp):
                for o, r in ((ast.Add, "-"), (ast.Sub, "+"), (ast.Mult, "/"), (ast.Div, "*")):
                    if isinstance(n.op, o): add(n, "(%s %s %s)" % (txt(n.left), r, txt(n.right)), "binop")
            if isinstance(n, ast.AugAssign):
                r = {ast.Add: "-=", ast.Sub: "+="}.get(type(n.op))
                if r: add(n, "%s %s %s" % (txt(n.target), r, txt(n.value)), "augop")
                add(n, "pass", "delaug")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): add(n, "(%s)" % txt(n.operand), "unary")
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                r = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}[type(n.ops[0])]
                add(n, "(%s %s %s)" % (txt(n.left), r, txt(n.comparators[0])), "cmp")
            if isinstance(n, ast.BoolOp):
                r = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + r.join("(%s)" % txt(v) for v in n.values) + ")", "boolop")
            if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
                v = n.value
                if v is True: add(n, "False", "const")
                elif v is False: add(n, "True", "const")
                elif v is None: pass
                elif isinstance(v, int): add(n, str(1 - v) if v in (0, 1) else str(v - 1), "const")
                elif isinstance(v, float): add(n, repr(v * 2), "const")
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, "pass", "delcall")
            if isinstance(n, ast.IfExp): add(n, "(%s)" % txt(n.body), "ifexp"); add(n, "(%s)" % txt(n.orelse), "ifexp")
            if isinstance(n, ast.If):
                add(n.test, "False", "iffalse"); add(n.test, "True", "iftrue")
            if isinstance(n, ast.Slice) and False: pass
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for a, c in (("occ", "vir"), ("alpha", "beta"), ("_a", "_b"), ("aa", "bb")):
                    for x, y in ((a, c), (c, a)):
                        m = n.id.replace(x, y)
                        if m != n.id and m in names: add(n, m, "name")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef,)) and (c in n.decorator_list or c is n.args and False): continue
            visit(c, fn)
    names = set()
    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                qq = q + [c.name]; name = ".".join(qq)
                if isinstance(c, ast.FunctionDef) and name in quals:
                    names.clear(); names.update(x.id for x in ast.walk(c) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)); names.update(a.arg for a in c.args.args)
                    k0 = len(res)
                    for s in c.body: visit(s, True)
                    for i in range(k0, len(res)): res[i] = res[i] + (name,)
                else:
                    walk(c, qq)
            else:
                walk(c, q)
    walk(tree, [])
    return res


todo = []
for pid in sel:
    ev = json.load(open("%s/evidence/%s.json" % (D, pid)))
    fs = {}
    for f in ev["coverage"]["functions_encoded"]:
        a, q = f.split(":", 1); fs.setdefault("vayesta/" + a, set()).add(q.split(".<locals>")[0])
    cand = []
    for f in props[pid]["anchors"]["files"]:
        fl = [f] if f.endswith(".py") else [os.path.join(f, x) for x in os.listdir(os.path.join(repo, f)) if x.endswith(".py")] if os.path.isdir(os.path.join(repo, f)) else []
        for g in fl:
            g = os.path.normpath(g)
            if g not in fs: continue
            src = open(os.path.join(repo, g)).read()
            c = sites(ast.parse(src), src, fs[g])
            for x in c:
                new = (src.encode()[:x[0]] + x[2].encode() + src.encode()[x[1]:]).decode()
                try: ast.parse(new)
                except SyntaxError: continue
                if new != src: cand.append((g, x, new))
    rng.shuffle(cand)
    print(pid, "candidates", len(cand), flush=True)
    for c in cand[:N]: todo.append((pid,) + c)
rng.shuffle(todo)
q = queue.Queue(); [q.put(t) for t in todo]
lock = threading.Lock(); fo = open(out, "a")


def work(i):
    w = tempfile.mkdtemp(prefix="mw", dir="/tmp/ms")
    subprocess.check_call(["cp", "-a", repo, w + "/repo"])
    subprocess.check_call(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
    subprocess.check_call(["cp", "-a", D, w + "/verif"])
    while True:
        try: pid, g, x, new = q.get_nowait()
        except queue.Empty: break
        p = w + "/repo/" + g; old = open(p).read()
        open(p, "w").write(new)
        t = time.time()
        env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_JOBS="2", VERIF_FAILFAST="1")
        try:
            r = subprocess.run(["bash", w + "/verif/run.sh", pid, "--quick"], env=env, capture_output=True, text=True, timeout=400)
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, o = 99, ""
        open(p, "w").write(old)
        inc = [l for l in o.split("\n") if l.startswith("INCONCLUSIVE")]
        rec = dict(prop=pid, file=g, func=x[5], line=x[4], kind=x[3], old=old.encode()[x[0]:x[1]].decode()[:200], new=x[2][:200], ctx=old.split("\n")[x[4] - 1].strip()[:160], rc=rc, inc=[l[:200] for l in inc[:3]], t=round(time.time() - t, 1))
        with lock:
            fo.write(json.dumps(rec) + "\n"); fo.flush()
    shutil.rmtree(w)


ts = [threading.Thread(target=work, args=(i,)) for i in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]

#!/usr/bin/env python3
"""Mutation campaign: which small changes does neither the repository's test suite nor the checks notice?

    mutate.py gen FILE N SEED            list N random mutants of /repo/FILE as /tmp/mut/<stem>.json
    mutate.py tests STEM                 keep those that pass the module's tests
    mutate.py checks STEM P1,P2,..       run the checks on the survivors, print those nobody notices

Works in scratch copies below /tmp/mut.  No registered check uses this file.
"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
SCR = "/tmp/mut"
TESTS = {"circuit": "circuit", "harmonic_balance": "harmonic_balance", "qtcurrent": "qtcurrent harmonic_balance", "respfn": "respfn harmonic_balance exp_data",
         "clean_data": "clean_data exp_data", "exp_data": "exp_data", "if_data": "exp_data", "if_response": "if_reponse exp_data", "iv_data": "exp_data",
         "parameters": "exp_data", "filters": "mathfn exp_data", "ivcurve_models": "ivcurve-models respfn", "kktrans": "kktrans respfn", "misc": "mathfn exp_data"}
SKIPF = ("plot", "show_current", "print_info", "__str__", "__repr__", "initialize_dir")


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, kind):
        a, z = span(n)
        out.append((a, z, new, kind, n.lineno))

    def txt(n):
        a, z = span(n)
        return b[a:z].decode()
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
           ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"],
           ast.BitAnd: ["|"], ast.BitOr: ["&"]}

    def walk(n, doc):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if any(s in n.name for s in SKIPF):
                return
        body = getattr(n, "body", None)
        if isinstance(body, list):
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    s._doc = True
        if getattr(n, "_doc", False):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "cprint", "title", "header", "pvalf", "progress_bar"):
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, "%s %s %s" % (txt(n.left), o, txt(n.comparators[0])), "cmp")
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            for o in BIN.get(type(n.op), []):
                add(n, "(%s %s %s)" % (txt(n.left), o, txt(n.right)), "bin")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % txt(v) for v in n.values) + ")", "bool")
            for k, v in enumerate(n.values):
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % txt(w) for j, w in enumerate(n.values) if j != k) + ")", "drop")
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(n, txt(n.operand), "neg")
            if isinstance(n.op, (ast.Not, ast.Invert)):
                add(n, "(%s)" % txt(n.operand), "not")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const")
            elif v is None:
                pass
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v > 0:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 1.05 if v else 0.01), "const")
            elif isinstance(v, complex):
                add(n, "(-%s)" % txt(n), "const")
        if isinstance(n, ast.Call):
            f = txt(n.func)
            if n.args and f in ("np.abs", "abs", "np.real", "np.imag", "np.conj", "np.array", "np.asarray", "np.sort", "float", "int", "complex", "deepcopy", "copy.deepcopy", "np.unique", "np.copy", "str", "np.round", "round"):
                add(n, "(%s)" % txt(n.args[0]), "unwrap")
            if isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ("copy", "lower", "conj", "upper", "strip", "flatten"):
                add(n, txt(n.func.value), "uncopy")
            for a, c in (("np.max", "np.min"), ("np.min", "np.max"), ("max", "min"), ("min", "max"), ("np.ceil", "np.floor"), ("np.floor", "np.ceil"),
                         ("np.argmax", "np.argmin"), ("np.argmin", "np.argmax"), ("np.real", "np.imag"), ("np.cos", "np.sin"), ("np.abs", "np.real"), ("np.any", "np.all"), ("np.all", "np.any"),
                         ("np.ones", "np.zeros"), ("np.zeros", "np.ones"), ("np.conj", "np.array"), ("np.mean", "np.median")):
                if f == a:
                    add(n.func, c, "fn")
            for k in n.keywords:
                if k.arg is not None and len(n.keywords) + len(n.args) > 1:
                    # drop the keyword
                    a0, z0 = span(k)
                    a1, z1 = span(n)
                    rest = b[a0 - 1:a0]
                    i = b.rfind(b",", a1, a0)
                    if i > 0:
                        out.append((i, z0, "", "dropkw", k.value.lineno))
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
        if isinstance(n, (ast.AugAssign, ast.Assign)) and not isinstance(n, ast.Assign):
            add(n, "pass", "del")
            ops = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}
            if type(n.op) in ops:
                add(n, "%s %s %s" % (txt(n.target), ops[type(n.op)], txt(n.value)), "aug")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute, ast.Name)):
            add(n, "pass", "del")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "del")
        if isinstance(n, (ast.Raise,)):
            add(n, "pass", "del")
        if isinstance(n, ast.Assert):
            add(n, "pass", "del")
        for c in ast.iter_child_nodes(n):
            walk(c, doc)
    walk(tree, False)
    return out


def gen(path, n, seed):
    src = open("/repo/" + path).read()
    ms = sorted(set(mutants(src)))
    ok = []
    b = src.encode()
    for a, z, new, kind, line in ms:
        t = (b[:a] + new.encode() + b[z:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        if t != src:
            ok.append(dict(a=a, z=z, new=new, old=b[a:z].decode(), kind=kind, line=line))
    random.Random(seed).shuffle(ok)
    total = len(ok)
    ok = ok[:n]
    stem = os.path.basename(path)[:-3]
    json.dump(dict(path=path, total=total, m=ok), open("%s/%s.json" % (SCR, stem), "w"))
    print(stem, "total", total, "taken", len(ok))


VER = os.environ.get("MUT_VERIF", "/verif")


def copy(k):
    d = "%s/w%d" % (SCR, k)
    if not os.path.isdir(d):
        subprocess.run("cp -a /repo %s" % d, shell=True, check=True)
    return d


def apply(d, path, m):
    subprocess.run("git checkout -q -- . && git checkout -q --detach $(git -C /repo rev-parse HEAD)", shell=True, cwd=d)
    b = open("/repo/" + path, "rb").read()
    open(d + "/" + path, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["z"]:])


def show(m):
    return "%4d %-6s %s  ->  %s" % (m["line"], m["kind"], " ".join(m["old"].split())[:80], " ".join(m["new"].split())[:80])


def tests(stem):
    D = json.load(open("%s/%s.json" % (SCR, stem)))
    import queue
    q = queue.Queue()
    for k in range(7):
        q.put(copy(k))

    def one(m):
        d = q.get()
        try:
            apply(d, D["path"], m)
            t = " ".join("tests/test_%s.py" % x for x in TESTS[stem].split())
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", NUMBA_DISABLE_JIT="1", OMP_NUM_THREADS="1")
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"] + t.split(), cwd=d, env=env,
                                   capture_output=True, text=True, timeout=120)
                return r.returncode == 0
            except subprocess.TimeoutExpired:
                return False
        finally:
            q.put(d)
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(one, D["m"]))
    D["m"] = [m for m, r in zip(D["m"], res) if r]
    json.dump(D, open("%s/%s.surv.json" % (SCR, stem), "w"))
    print(stem, len(res), "mutants,", len(D["m"]), "pass the tests")


def checks(stem, props, par=3):
    D = json.load(open("%s/%s.surv.json" % (SCR, stem)))
    import queue
    q = queue.Queue()
    for k in range(par):
        q.put(copy(k))
    log = open("%s/%s.log" % (SCR, stem), "w")

    def one(m):
        d = q.get()
        try:
            apply(d, D["path"], m)
            broke = []
            for p in props.split(","):
                ev = d + "-ev"
                env = dict(os.environ, QMIX_REPO=d, VERIF_EVIDENCE=ev, VERIF_TIER="quick", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1")
                try:
                    r = subprocess.run([PY, VER + "/harness/driver.py", p], env=env, cwd=VER, capture_output=True, text=True, timeout=900)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 124, ""
                if rc == 1:
                    w = [l for l in o.splitlines() if l.startswith("  line")]
                    s = "caught %s %s | %s" % (p, show(m), w[0][:120] if w else "")
                    break
                if rc != 0:
                    broke.append("%s:%d %s" % (p, rc, o[-200:].replace("\n", " ")))
            else:
                s = "MISSED %s %s" % (show(m), broke)
            print(s, file=log, flush=True)
            return s
        finally:
            q.put(d)
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(one, D["m"]))
    print(stem, len(res), "survivors,", sum(r.startswith("caught") for r in res), "caught")
    for r in res:
        if r.startswith("MISSED"):
            print(r[:300])


if __name__ == "__main__":
    os.makedirs(SCR, exist_ok=True)
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    elif sys.argv[1] == "tests":
        for s in sys.argv[2].split(","):
            tests(s)
    else:
        checks(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 3)

"""mutate.py list|run ...   development aid: small syntactic changes of /repo's code, each tried against the checks of its file.

  mutate.py run OUT.jsonl [-j N] [-n MAX] [--seed S] FILE...
A mutant that no check notices is a survivor: either equivalent code, behaviour outside of every property, or a gap."""
import ast, json, os, random, subprocess, sys, tempfile, shutil, threading, queue, time

REPO = "/repo"
MAP = [
    ("nidn/trcwa/compute_target", "c18"), ("nidn/trcwa/get_freq", "c18 c06"), ("nidn/utils/convert", "c18 c22"), ("nidn/trcwa/load_mat", "c16"),
    ("nidn/trcwa/", "c01 c02 c26 c27 c04 c05 c03"),
    ("nidn/fdtd_integration/calc", "c08 c06 c07"), ("nidn/fdtd_integration/", "c06 c07 c05 c08"), ("nidn/fdtd/visual", "c28"), ("nidn/fdtd/", "c09 c06 c28"),
    ("nidn/training/losses", "c10 c25 c11"), ("nidn/training/run_tr", "c11 c12 c25 c13"), ("nidn/training/model/model", "c14 c15 c23 c21"), ("nidn/training/model/init", "c23 c13"),
    ("nidn/training/utils", "c23 c13 c14"), ("nidn/training/save", "c20"), ("nidn/training/load", "c20"), ("nidn/materials/find", "c16 c22"), ("nidn/materials/layer", "c17"), ("nidn/materials/", "c16"),
    ("nidn/plots", "c22"), ("nidn/utils/valid", "c19"), ("nidn/scripts", "c24"), ("nidn/utils/", "c21 c13 c19"), ("nidn/__init__", "c21"),
]
SKIPFUN = {"_FFT_based_coefficient_computation", "generate_video", "__repr__", "__str__", "_add_plot_unused"}


def checks(f):
    for p, c in MAP:
        if f.startswith(p):
            return c.split()
    return []


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def put(node, new, what):
        s, e = pos(node)
        out.append(dict(file=path, line=node.lineno, what=what, s=s, e=e, new=new, old=b[s:e].decode()))

    txt = lambda n: b[slice(*pos(n))].decode()
    CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])

    def walk(n):
        if isinstance(n, ast.FunctionDef) and n.name in SKIPFUN:
            return
        if n in docs or isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, ast.Call):
            f = txt(n.func)
            if f.startswith(("logger.", "print", "warn")) or f in ("plt.show",):
                return
        if isinstance(n, ast.If) and txt(n.test) in ("plot", "self.verbose > 0"):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                put(n, f"{txt(n.left)} {o} {txt(n.comparators[0])}", "compare")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, f"({txt(n.left)} {BIN[type(n.op)]} {txt(n.right)})", "operator")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join(f"({txt(v)})" for v in n.values) + ")", "boolean")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({txt(v)})" for v in rest) + ")", "drop condition")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            put(n, f"({txt(n.operand)})", "unary")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), "flag")
            elif isinstance(v, int):
                put(n, str(v + 1), "constant")
                if v > 0:
                    put(n, str(v - 1), "constant")
            elif isinstance(v, float) and v != 0:
                put(n, repr(v * 1.1), "constant")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            put(n, f"{txt(n.operand)}", "sign")
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and txt(n.args[0]) != txt(n.args[1]):
            a0, a1 = n.args[0], n.args[1]
            s, e = pos(a0)[0], pos(a1)[1]
            mid = b[pos(a0)[1] : pos(a1)[0]].decode()
            out.append(dict(file=path, line=n.lineno, what="swap arguments", s=s, e=e, new=txt(a1) + mid + txt(a0), old=b[s:e].decode()))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clone", "detach", "abs", "sort", "squeeze", "unsqueeze") and not n.args:
            put(n, txt(n.func.value), "drop ." + n.func.attr)
        if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not txt(n.value.func).startswith(("logger.", "print", "super"))):
            put(n, "pass", "delete statement")
        if isinstance(n, ast.AugAssign):
            s, e = pos(n)
            o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
            if o:
                put(n, f"{txt(n.target)} {o} {txt(n.value)}", "operator")
        if isinstance(n, ast.If) and not n.orelse and not any(isinstance(x, ast.Raise) for x in n.body) or isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for x in n.body):
            put(n.test, f"(False and ({txt(n.test)}))", "never")
        if isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "delete " + type(n).__name__.lower())
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef,)) and c is n.returns:
                continue
            walk(c)

    walk(tree)
    good = []
    for m in out:
        new = (b[: m["s"]] + m["new"].encode() + b[m["e"] :]).decode()
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        m["source"] = new
        good.append(m)
    return good


def main():
    a = sys.argv[1:]
    cmd = a.pop(0)
    outf = a.pop(0) if cmd == "run" else None
    opt = {"-j": 3, "-n": 10**9, "--seed": 0}
    files = []
    while a:
        x = a.pop(0)
        if x in opt:
            opt[x] = int(a.pop(0))
        else:
            files.append(x)
    ms = [m for f in files for m in mutants(f)]
    if cmd == "list":
        for f in files:
            print(f, sum(m["file"] == f for m in ms))
        print(len(ms))
        return
    rng = random.Random(opt["--seed"])
    rng.shuffle(ms)
    ms = ms[: opt["-n"]]
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["old"], d["new"]))
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["line"], m["old"], m["new"]) not in done:
            q.put(m)
    lock = threading.Lock()

    def worker():
        w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", REPO, w + "/repo"], check=True)
            os.makedirs(w + "/verif")
            subprocess.run(["cp", "-a", "/verif/check.sh", "/verif/mon", "/verif/known_findings.jsonl", "/verif/properties.jsonl", w + "/verif/"], check=True)
            subprocess.run(["sed", "-i", f"s#/repo#{w}/repo#g", w + "/verif/check.sh", w + "/verif/mon/core.py", w + "/verif/mon/nocache.py"], check=True)
            while True:
                try:
                    m = q.get_nowait()
                except queue.Empty:
                    return
                p = os.path.join(w, "repo", m["file"])
                orig = open(p).read()
                open(p, "w").write(m["source"])
                res, by = "survived", None
                t0 = time.time()
                for c in checks(m["file"]):
                    mod = [f[:-3] for f in os.listdir("/verif/mon/checks") if f.startswith(c)][0]
                    try:
                        r = subprocess.run(["bash", w + "/verif/check.sh", mod, "quick"], env=dict(os.environ, VERIF_SEED="1"), capture_output=True, text=True, timeout=240)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = "timeout"
                        subprocess.run(["pkill", "-f", w + "/verif"])
                    if rc == 1:
                        res, by = "caught", c
                        break
                    if rc != 0:
                        res, by = f"rc={rc}", c
                        break
                open(p, "w").write(orig)
                m2 = {k: v for k, v in m.items() if k != "source"}
                m2.update(result=res, by=by, s=round(time.time() - t0))
                with lock:
                    open(outf, "a").write(json.dumps(m2) + "\n")
        finally:
            shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=worker) for _ in range(opt["-j"])]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()

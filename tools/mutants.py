#!/usr/bin/env python3
"""Development tool (no check uses it): systematic small changes of the sources, to find what the checks miss.

    mutants.py generate DIR            every mutant as DIR/<n>.json {"file", "line", "what", "old", "new"} (whole new source in DIR/<n>.src)
    mutants.py suite DIR [JOBS]        run the stable tests on each: DIR/<n>.suite is "killed" or "survived"
    mutants.py check DIR [PROPERTY..]  run the quick checks (default: those of FIRST; all: every one) on each survivor until one catches it: DIR/<n>.check
"""
import ast, concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
SKIP = {"debug.py", "__version__.py", "__init__.py"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not", "=="], ast.IsNot: ["is", "!="], ast.In: ["not in"], ast.NotIn: ["in"]}


def mutations(tree, src):
    """(node to replace, new text, label)"""
    seg = lambda n: ast.get_source_segment(src, n)
    annotations = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                annotations.update(map(id, ast.walk(a)))
        if isinstance(n, ast.FunctionDef) and any("overload" in (seg(d) or "") for d in n.decorator_list):
            annotations.update(map(id, ast.walk(n)))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in (seg(n.test) or ""):
            annotations.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("TypeVar", "log", "cast") and n.args:
            if n.func.id == "cast":
                annotations.update(map(id, ast.walk(n.args[0])))
            else:
                annotations.update(map(id, ast.walk(n)))
    for n in ast.walk(tree):
        if id(n) in annotations:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            for op in CMP.get(type(n.ops[0]), []):
                yield n, f"({l} {op} {r})", "compare"
        elif isinstance(n, ast.Compare):
            items = [n.left, *n.comparators]
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "=="}
                    text = seg(items[0])
                    for j, o in enumerate(n.ops):
                        text += f" {new if j == k else ops.get(type(o), '==')} {seg(items[j + 1])}"
                    yield n, f"({text})", "compare"
        elif isinstance(n, ast.BoolOp):
            other = " or " if isinstance(n.op, ast.And) else " and "
            yield n, "(" + other.join(f"({seg(v)})" for v in n.values) + ")", "boolop"
            same = " and " if isinstance(n.op, ast.And) else " or "
            for i in range(len(n.values)):
                yield n, "(" + same.join(f"({seg(v)})" for j, v in enumerate(n.values) if j != i) + ")", "drop operand"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, f"bool({seg(n.operand)})", "drop not"
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                yield n.test, f"(not ({seg(n.test)}))", "negate"
                yield n.test, "True", "always"
            yield n.test, "False", "never"
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                yield c, "True", "filter dropped"
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield n, repr(not n.value), "constant"
            elif isinstance(n.value, int):
                yield n, repr(n.value + 1), "constant"
                yield n, f"({n.value - 1})", "constant"
            elif n.value is None:
                pass
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield n, f"({seg(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {seg(n.right)})", "arithmetic"
            yield n, f"({seg(n.left)})", "operand"
            yield n, f"({seg(n.right)})", "operand"
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if name in ("list", "sorted", "reversed", "tuple", "copy", "deepcopy", "set", "bool", "frozenset", "dict", "min", "max", "iter", "islice") and n.args and not n.keywords:
                yield n, f"({seg(n.args[0])})", "unwrap"
            if name == "deepcopy":
                yield n.func, "copy.copy" if isinstance(n.func, ast.Attribute) else "__import__('copy').copy", "shallow"
            if name in ("min", "max", "any", "all", "startswith", "endswith", "append", "lower", "upper", "strip"):
                swap = {"min": "max", "max": "min", "any": "all", "all": "any"}.get(name)
                if swap:
                    yield n.func, swap, "swap"
            if name == "sorted" and n.keywords:
                yield n, f"sorted({', '.join(seg(a) for a in n.args)})", "sort key dropped"
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 0:
                    rest = [seg(a) for a in n.args] + [(f"{o.arg}=" if o.arg else "**") + seg(o.value) for o in n.keywords if o is not k]
                    yield n, f"{seg(n.func)}({', '.join(rest)})", "keyword dropped"
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and name not in ("isinstance", "cast", "getattr", "hasattr"):
                rest = [seg(n.args[1]), seg(n.args[0])] + [(f"{o.arg}=" if o.arg else "**") + seg(o.value) for o in n.keywords]
                yield n, f"{seg(n.func)}({', '.join(rest)})", "arguments swapped"
        elif isinstance(n, ast.Return) and n.value is not None:
            yield n, "return None", "return"
            if not isinstance(n.value, ast.Constant):
                yield n.value, f"(not ({seg(n.value)}))" if isinstance(n.value, (ast.Compare, ast.BoolOp)) else "NotImplemented", "return"
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom)):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") in ("log",):
                continue
            yield n, "pass", "statement dropped"
            if isinstance(n, ast.Continue):
                yield n, "break", "break"
            if isinstance(n, ast.Break):
                yield n, "continue", "continue"
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield n, seg(n.value), "slice dropped"
        elif isinstance(n, (ast.For,)):
            yield n.iter, f"reversed(list({seg(n.iter)}))", "reversed"
            yield n.iter, f"list({seg(n.iter)})[:1]", "first only"
            yield n.iter, f"list({seg(n.iter)})[1:]", "first skipped"
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            swap = {"start": "end", "end": "start", "children": "parent", "_name_dict": "_tag_dict", "first": "last", "raw_start": "start", "raw_end": "end", "string": "raw"}.get(n.attr)
            if swap:
                yield n, f"{seg(n.value)}.{swap}", "attribute"


def generate(out):
    os.makedirs(out, exist_ok=True)
    count, seen = 0, set()
    for path in sorted(glob.glob(f"{REPO}/rebulk/*.py")):
        if os.path.basename(path) in SKIP:
            continue
        src = open(path).read()
        raw = src.encode()
        starts = [0]
        for line in raw.splitlines(True):
            starts.append(starts[-1] + len(line))
        tree = ast.parse(src)
        original = ast.dump(tree)
        for node, new, label in mutations(tree, src):
            a = starts[node.lineno - 1] + node.col_offset
            b = starts[node.end_lineno - 1] + node.end_col_offset
            text = (raw[:a] + new.encode() + raw[b:]).decode()
            if (path, text) in seen:
                continue
            seen.add((path, text))
            try:
                if ast.dump(ast.parse(text)) == original:
                    continue
                compile(text, path, "exec")
            except SyntaxError:
                continue
            json.dump({"file": os.path.relpath(path, REPO), "line": node.lineno, "what": label, "old": raw[a:b].decode()[:200], "new": new[:200]}, open(f"{out}/{count:05}.json", "w"))
            open(f"{out}/{count:05}.src", "w").write(text)
            count += 1
    print(count, "mutants")


def apply(n, out):
    import seed
    root = seed.scratch()
    info = json.load(open(f"{out}/{n}.json"))
    shutil.copy(f"{out}/{n}.src", os.path.join(root, info["file"]))
    return root, info


def suite(n, out):
    import seed
    root, info = apply(n, out)
    try:
        p = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=20"],
                           cwd=root, env=seed.env(root), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ok = p.returncode == 0 and not seed.suite(root)
    finally:
        shutil.rmtree(root)
    open(f"{out}/{n}.suite", "w").write("survived" if ok else "killed")
    return n, ok


RUN = os.path.join(os.path.dirname(HERE), "run.py")
FIRST = {  # checks most likely to notice a change of a file
    "builder": "C14 C15 C18 C23", "chain": "C13 C23 C14 C15 C18 C21 C07 C27", "formatters": "C25 C11", "validators": "C25", "introspector": "C21", "key": "C15 C16", "loose": "C12 C14 C02",
    "match": "C22 C01 C02 C06 C16 C17 C15 C23 C27 C09", "pattern": "C09 C12 C04 C11 C10 C15 C18 C21 C27", "processors": "C03 C04 C26 C27", "rebulk": "C18 C04 C15 C26 C05 C21 C27 C07",
    "remodule": "C19", "rules": "C05 C06 C04 C18 C27 C28", "toposort": "C20 C05", "utils": "C09 C12 C18 C28"}
ORDER = "C01 C20 C22 C25 C09 C02 C04 C06 C12 C07 C14 C18 C21 C23 C03 C15 C16 C05 C17 C24 C11 C10 C19 C13 C26 C27 C28 C08".split()


def check(n, out, props):
    root, info = apply(n, out)
    e = dict(os.environ, VERIF_REPO=root, VERIF_SEED="1", VERIF_OUT=tempfile.mkdtemp(prefix="mutout.", dir="/tmp"))
    verdict = "missed"
    try:
        first = FIRST.get(os.path.basename(info["file"])[:-3], "").split()
        for prop in props or first:
            p = subprocess.run(["timeout", "900", "python3", RUN, prop, "--tier", "quick"], env=e, capture_output=True, text=True)
            if p.returncode:
                verdict = f"{prop}:{p.returncode}"
                break
    finally:
        shutil.rmtree(root)
        shutil.rmtree(e["VERIF_OUT"], ignore_errors=True)
    open(f"{out}/{n}.check", "w").write(verdict)
    return n, info, verdict


if __name__ == "__main__":
    cmd, out = sys.argv[1], sys.argv[2]
    if cmd == "generate":
        generate(out)
    elif cmd == "suite":
        import seed
        b = json.load(open("/opt/vp/BASELINE.json"))
        seed.STABLE.update(b["stable"] if "stable" in b else b["passed"])
        todo = sorted(os.path.basename(f)[:-5] for f in glob.glob(f"{out}/*.json") if not os.path.exists(f[:-5] + ".suite"))
        with cf.ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 8) as ex:
            alive = sum(ok for _, ok in ex.map(lambda n: suite(n, out), todo))
        print(len(todo), "run,", alive, "survived")
    else:
        todo = sorted(os.path.basename(f)[:-6] for f in glob.glob(f"{out}/*.suite") if open(f).read() == "survived" and not os.path.exists(f[:-6] + ".check"))
        with cf.ThreadPoolExecutor(int(os.environ.get("PARALLEL", "2"))) as ex:
            for n, info, verdict in ex.map(lambda n: check(n, out, ORDER if sys.argv[3:] == ["all"] else sys.argv[3:]), todo):
                print(n, info["file"], info["line"], info["what"], repr(info["old"][:70]), "->", repr(info["new"][:70]), verdict, flush=True)

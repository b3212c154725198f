#!/usr/bin/env python3
"""Development tool (no check uses it): turn bug definitions into /verif/seeded/<id>/ and confirm each of them.

    seed.py build [ID...]    for each definition of tools/seeds/*.py: patch a scratch copy of /repo, run the suite and the demo there
                             and on the unchanged tree, and keep the bug under seeded/ when it counts
    seed.py check [ID...]    run this property's quick check (or the ones named by --all) against each kept bug, in a scratch copy
"""
import concurrent.futures as cf
import glob, json, os, re, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "7b7aa3a"
STABLE = set()


def definitions():
    bugs = {}
    for path in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        for bug in runpy.run_path(path)["BUGS"]:
            assert bug["id"] not in bugs, bug["id"]
            bugs[bug["id"]] = bug
    return bugs


def env(root):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "REBULK"))}
    e.update(PYTHONPATH=root, PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONDONTWRITEBYTECODE="1",
             PATH="/opt/venv/bin:" + e["PATH"])
    return e


def scratch():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    shutil.rmtree(d)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__", ".venv", "*.pyc"))
    return d


def suite(root):
    e = env(root)
    work = tempfile.mkdtemp(prefix="suite.", dir="/tmp")
    e["PYTHONPYCACHEPREFIX"] = work + "/pyc"

    def run(report, *args, **extra):
        ee = dict(e, **extra)
        subprocess.run(["python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=120",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={work}/{report}.xml", *args],
                       cwd=root, env=ee, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    run("re")
    run("regex", "--junitprefix=regex_backend", REBULK_REGEX_ENABLED="1")
    run("keys", "--junitprefix=declared_keys", "--ignore=README.md", REBULK_CHECK_DECLARED_KEYS="1")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", work + "/out.json"] + [f"junit:{work}/{r}.xml" for r in ("re", "regex", "keys")],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    d = json.load(open(work + "/out.json"))
    shutil.rmtree(work)
    missing = sorted(STABLE - set(d["passed"]))
    return missing


def demo(folder, root):
    with tempfile.TemporaryDirectory() as t:
        for f in os.listdir(folder):
            if not f.endswith((".diff", ".json")):
                shutil.copy(os.path.join(folder, f), t)
        p = subprocess.run(["bash", t + "/demo.sh"], cwd=root, env=env(root), capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def build(bug):
    root = scratch()
    try:
        changed = []
        for file, old, new in bug["edits"]:
            path = os.path.join(root, file)
            text = open(path).read()
            if text.count(old) != 1:
                return bug["id"], f"BAD EDIT: {text.count(old)} occurrences of {old!r}"
            open(path, "w").write(text.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=root, capture_output=True, text=True, check=True).stdout
        # removed lines have to be the original ones
        blame = {}
        orig = 0
        file = None
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                file = line[6:]
                blame = subprocess.run(["git", "blame", "-s", "HEAD", "--", file], cwd=root, capture_output=True, text=True).stdout.splitlines()
            elif line.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("-") and not line.startswith("---"):
                if BASE in blame[n - 1][:9]:
                    orig += 1
                else:
                    changed.append(line)
                n += 1
            elif line.startswith(" "):
                n += 1
        note = f"orig={orig} mine={len(changed)} "
        if not orig:
            return bug["id"], "NO ORIGINAL LINE " + note
        missing = suite(root)
        if missing:
            return bug["id"], f"SUITE fails {len(missing)}: {missing[:3]}"
        folder = os.path.join(SEEDED, bug["id"])
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        open(folder + "/patch.diff", "w").write(patch)
        open(folder + "/demo.py", "w").write(bug["demo"].lstrip())
        open(folder + "/demo.sh", "w").write(
            '#!/bin/bash\n# run with cwd at the repository: exit 0 when the property holds for this scenario\n'
            + bug.get("env", "") + 'export PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(folder + "/meta.json", "w"), indent=1)
        good, gout = demo(folder, "/repo")
        bad, bout = demo(folder, root)
        if good != 0 or bad == 0:
            shutil.rmtree(folder)
            return bug["id"], f"DEMO good={good} bad={bad} {gout if good else bout}"
        return bug["id"], "ok " + note + (bout.strip() or "silent").splitlines()[-1][:150]
    finally:
        shutil.rmtree(root)


def check(bug_id, props=None):
    folder = os.path.join(SEEDED, bug_id)
    meta = json.load(open(folder + "/meta.json"))
    root = scratch()
    out = []
    try:
        subprocess.run(["git", "apply", folder + "/patch.diff"], cwd=root, check=True)
        for prop in props or [meta["property"]]:
            e = dict(os.environ, VERIF_REPO=root, VERIF_SEED="1", VERIF_OUT=tempfile.mkdtemp(prefix="seedout.", dir="/tmp"))
            p = subprocess.run(["python3", os.path.join(os.path.dirname(HERE), "run.py"), prop, "--tier", "quick"], env=e, capture_output=True, text=True)
            line = next((x for x in p.stdout.splitlines() if x.startswith("VIOLATION property=" + prop)), "")
            out.append(f"{prop}:{p.returncode}{'' if bool(line) == (p.returncode == 1) else ' INCONSISTENT ' + (p.stdout + p.stderr)[-300:]}")
    finally:
        shutil.rmtree(root)
    return bug_id, meta["property"], " ".join(out)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    all_props = [f"C{i:02}" for i in range(1, 30)] if "--all" in sys.argv else None
    if cmd == "build":
        STABLE.update(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else json.load(open("/opt/vp/BASELINE.json"))["passed"])
        bugs = definitions()
        todo = [bugs[i] for i in ids] if ids else [b for i, b in bugs.items() if not os.path.exists(os.path.join(SEEDED, i))]
        with cf.ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(build, todo):
                print(i, r, flush=True)
    else:
        todo = ids or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda i: check(i, all_props), todo):
                print(*r, flush=True)

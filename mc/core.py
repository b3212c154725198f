"""
Bounded exhaustive exploration of the real rebulk code.

Two explorers share the reporting code:

* Family  - a finite space of cases enumerated completely (strided over worker processes); each case drives the real code and
            compares every observation with a reference model.
* BFS     - explicit-state search where each transition calls the real code; states are the complete object graph of the
            implementation object (generic canonical form), so merged states have the same futures.
"""
from __future__ import annotations

import argparse
import ast
import importlib
import itertools
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 10.0
WORKER_MEM = 3 << 30
JOBS = min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold on this case."""


class _Hang(BaseException):
    pass


def _on_timer(signum, frame):
    raise _Hang()


def h64(obj) -> int:
    return hash(obj) if not isinstance(obj, str) else hash(obj)


class Ctx:
    """Counters and comparison helpers handed to every case."""

    def __init__(self):
        self.comparisons = 0
        self.executions = 0
        self.states = set()

    def ran(self, n=1):
        self.executions += n

    def state(self, obj):
        """Record a reached (observable) state; repr keeps unhashables usable."""
        self.states.add(hash(repr(obj)))

    def eq(self, got, want, what="result"):
        self.comparisons += 1
        if got != want:
            raise Violation(f"{what if not callable(what) else what()}: got {got!r}, expected {want!r}")

    def ok(self, cond, what="condition"):
        self.comparisons += 1
        if not cond:
            raise Violation(what if not callable(what) else what())

    def raises(self, exc, fn, what="call"):
        self.comparisons += 1
        try:
            ret = fn()
        except exc:
            return
        raise Violation(f"{what}: returned {ret!r}, expected {exc.__name__ if isinstance(exc, type) else exc}")


class Family:
    def __init__(self, name, cases, run, rule, setup=None):
        self.name, self.cases, self.run, self.rule, self.setup = name, cases, run, rule, setup


class BFS:
    """Explicit-state search. `system` offers configs(tier), ops(config), build(config), apply(ctx, s, op), canon(s), check(ctx, s), depth(tier)."""

    def __init__(self, name, system, rule):
        self.name, self.system, self.rule = name, system, rule


def run_one(ctx, fn, case):
    """Run one case under the CPU guard; returns None or a violation message."""
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        try:
            fn(ctx, case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as exc:
        return str(exc)
    except _Hang:
        return f"does not terminate (more than {CASE_CPU_S:.0f} s of CPU time for one small case)"
    except MemoryError:
        return "exhausts memory on one small case"
    except Exception as exc:  # the reference accepts the case: the code must not raise
        tb = traceback.extract_tb(exc.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:])
        return f"unexpected {type(exc).__name__}: {exc} [{where}]"
    return None


def _child_setup():
    signal.signal(signal.SIGVTALRM, _on_timer)
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEM, WORKER_MEM))
    sys.setrecursionlimit(3000)


def parallel(n, fn, early_stop=None):
    """Run fn(worker_index) in n forked processes; each returns a picklable object. Memory-light: results go through pipes."""
    kids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, fd, _ in kids:
                    os.close(fd)
                _child_setup()
                try:
                    data = pickle.dumps(("ok", fn(w)))
                except BaseException:
                    data = pickle.dumps(("error", traceback.format_exc()))
                with os.fdopen(wr, "wb") as out:
                    out.write(data)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r, w))
    results = []
    import select

    bufs = {r: bytearray() for _, r, _ in kids}
    open_fds = set(bufs)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [])
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                bufs[fd] += chunk
            else:
                open_fds.discard(fd)
    for pid, r, w in kids:
        os.close(r)
        os.waitpid(pid, 0)
        if not bufs[r]:
            raise RuntimeError(f"worker {w} died without an answer")
        kind, val = pickle.loads(bytes(bufs[r]))
        if kind == "error":
            raise RuntimeError(f"worker {w} failed:\n{val}")
        results.append(val)
    return results


def pristine(jobs):
    """{key: fn()} for (key, fn) pairs, each computed in a process of its own in which nothing else has used the code before.
    To be called before this process itself uses the code (from families())."""
    out = {}
    for key, fn in jobs:
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _child_setup()
                signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
                try:
                    data = pickle.dumps(("ok", fn()))
                except BaseException as exc:
                    data = pickle.dumps(("error", f"{type(exc).__name__}: {exc}"))
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out[key] = pickle.loads(data) if data else ("error", "the process died")
    return out


class Shared:
    """A tiny cross-process stop flag."""

    def __init__(self):
        import mmap

        self.m = mmap.mmap(-1, 16)

    def set(self):
        self.m[0] = 1

    def is_set(self):
        return self.m[0] == 1


class Runner:
    def __init__(self, prop, tier, seed, module):
        self.prop, self.tier, self.seed, self.module = prop, tier, seed, module
        self.t0 = time.time()
        self.budget = float(os.environ.get("MC_BUDGET", 780 if tier == "quick" else 14400))
        self.rows = []
        self.samples = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = []
        self.capped = []
        self.state_sets = 0

    def left(self):
        return self.budget - (time.time() - self.t0)

    # -- families -----------------------------------------------------------------------------
    def family(self, fam):
        stop = Shared()
        deadline = time.time() + self.left()
        known = self.known

        def worker(w):
            ctx = Ctx()
            if fam.setup:
                fam.setup()
            n = 0
            found = []
            known_hit = []
            samples = []
            capped = False
            last = None
            for i, case in enumerate(fam.cases(self.tier)):
                if i % JOBS != w:
                    continue
                n += 1
                if n % 64 == 0 and (stop.is_set() or time.time() > deadline):
                    capped = not stop.is_set()
                    break
                msg = run_one(ctx, fam.run, case)
                last = case
                if n in (1, 7):
                    samples.append(repr(case))
                if msg is not None:
                    key = (fam.name, repr(case))
                    if key in known:
                        known_hit.append(key)
                        continue
                    found.append((i, repr(case), msg))
                    stop.set()
                    break
            if last is not None:
                samples.append(repr(last))
            return n, ctx.comparisons, ctx.executions, ctx.states, found, known_hit, samples, capped

        t = time.time()
        res = parallel(JOBS, worker)
        states = set()
        for r in res:
            states |= r[3]
        row = dict(
            family=fam.name, explorer="exhaustive enumeration", rule=fam.rule, cases=sum(r[0] for r in res), comparisons=sum(r[1] for r in res),
            executions=sum(r[2] for r in res), distinct_states=len(states), complete=not any(r[7] for r in res) and not any(r[4] for r in res),
            wall_s=round(time.time() - t, 2),
        )
        if any(r[7] for r in res):
            self.capped.append(fam.name)
        for s in res[0][6][:3]:
            self.samples.append({"family": fam.name, "case": s})
        for r in res:
            self.known_hit += r[5]
        found = sorted(f for r in res for f in r[4])
        if found:
            i, case, msg = found[0]
            self.report(fam, case, msg)
        self.rows.append(row)

    # -- explicit-state search ----------------------------------------------------------------
    def bfs(self, bfs):
        system = bfs.system
        t = time.time()
        total_states = transitions = replays = comparisons = 0
        max_depth = 0
        complete = True
        fixpoint = True
        deadline = time.time() + self.left()
        for config in system.configs(self.tier):
            ops = list(system.ops(config))
            seen = {}
            init = system.build(config)
            seen_keys = {system.canon(init)}
            frontier = [()]
            depth = 0
            while frontier and depth < system.depth(self.tier, config) and not self.violations:
                depth += 1
                stop = Shared()

                def worker(w, frontier=frontier):
                    ctx = Ctx()
                    out = {}
                    n = 0
                    found = []
                    capped = False
                    for j in range(w, len(frontier), JOBS):
                        if stop.is_set():
                            break
                        if time.time() > deadline:
                            capped = True
                            break
                        hist = frontier[j]
                        for op in ops:
                            n += 1
                            key = [None]

                            def step(ctx, case):
                                s = system.build(case[0])
                                for o in case[1][:-1]:
                                    system.apply(None, s, o)
                                if system.apply(ctx, s, case[1][-1]) is False:
                                    return
                                key[0] = system.canon(s)
                                ctx.ran()
                                system.check(ctx, s)

                            case = (config, hist + (op,))
                            msg = run_one(ctx, step, case)
                            if msg is not None:
                                found.append((len(hist), repr(case), msg))
                                stop.set()
                                break
                            if key[0] is not None and key[0] not in seen_keys:
                                out.setdefault(key[0], hist + (op,))
                        if found:
                            break
                    return n, ctx.comparisons, ctx.executions, out, found, capped

                res = parallel(JOBS, worker)
                nxt = []
                for r in res:
                    transitions += r[0]
                    comparisons += r[1]
                    replays += r[2]
                    for k, hist in r[3].items():
                        if k not in seen_keys:
                            seen_keys.add(k)
                            nxt.append(hist)
                    if r[5]:
                        complete = False
                        self.capped.append(bfs.name)
                found = sorted((f for r in res for f in r[4]), key=lambda f: (f[0], len(f[1]), f[1]))
                if found:
                    complete = False
                    self.report(bfs, found[0][1], found[0][2])
                nxt.sort(key=repr)
                frontier = nxt
            if frontier:
                fixpoint = False
            max_depth = max(max_depth, depth)
            total_states += len(seen_keys)
            if frontier:
                self.samples.append({"family": bfs.name, "case": repr((config, frontier[-1]))})
            elif ops:
                self.samples.append({"family": bfs.name, "case": repr((config, (ops[0], ops[-1])))})
            if self.violations or not complete:
                break
        self.rows.append(dict(family=bfs.name, explorer="explicit-state breadth-first search", rule=bfs.rule, cases=transitions, comparisons=comparisons,
                              executions=replays, distinct_states=total_states, max_depth=max_depth, complete=complete,
                              reached_fixpoint=fixpoint, wall_s=round(time.time() - t, 2)))

    # -- reporting ----------------------------------------------------------------------------
    def report(self, fam, case, msg):
        outdir = os.path.join(ROOT, "out", self.prop)
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, f"{fam.name}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "family": fam.name, "case": case, "message": msg,
                       "replay": f"python3 run.py {self.prop} --replay {path}"}, f, indent=1)
        self.violations.append((fam.name, case, msg, path))

    def broken(self, name, text):
        self.report(Family(name, None, None, None), "None", "no case could be judged: " + text)

    def evidence(self):
        cov = dict(
            states=sum(r["distinct_states"] for r in self.rows),
            transitions=sum(r["comparisons"] for r in self.rows),
            traces_validated_against_impl=sum(r["executions"] for r in self.rows),
            cases_enumerated=sum(r["cases"] for r in self.rows),
            samples=self.samples[:40],
            exhaustive=bool(self.rows) and all(r["complete"] for r in self.rows),
            families=self.rows,
            meaning="states: distinct observable states reached (families) or distinct canonical object graphs (search); "
                    "transitions: observations of the real code compared with the reference model; traces_validated_against_impl: executions of the real code "
                    "from a fresh object, each compared with the reference along its whole length",
            capped=self.capped,
            known_findings_hit=len(self.known_hit),
        )
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        data = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                    assumptions=list(getattr(self.module, "ASSUMPTIONS", [])), wall_s=round(time.time() - self.t0, 2),
                    violations=len(self.violations))
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(data, f, indent=1)


def load_known(prop):
    """Open findings: lines 'open: property=<id> family=<name> case=<repr> :: text'."""
    known = {}
    try:
        with open(os.path.join(ROOT, "KNOWN_FINDINGS")) as f:
            for line in f:
                if line.startswith(f"open: property={prop} "):
                    head, text = line.rstrip("\n").split(" :: ", 1)
                    fam = head.split(" family=", 1)[1].split(" case=", 1)[0]
                    case = head.split(" case=", 1)[1]
                    known[(fam, case)] = text
    except FileNotFoundError:
        pass
    return known


def replay(module, path):
    with open(path) as f:
        data = json.load(f)
    case = ast.literal_eval(data["case"])
    signal.signal(signal.SIGVTALRM, _on_timer)
    if data["case"] == "None":
        print("no single case: run the check again\n" + data["message"])
        return 1
    for fam in module.families():
        if fam.name != data["family"]:
            continue
        ctx = Ctx()
        if isinstance(fam, BFS):
            def fn(ctx, case):
                s = fam.system.build(case[0])
                for o in case[1][:-1]:
                    fam.system.apply(None, s, o)
                fam.system.apply(ctx, s, case[1][-1])
                fam.system.check(ctx, s)
        else:
            if fam.setup:
                fam.setup()
            fn = fam.run
        msg = run_one(ctx, fn, case)
        print(f"case: {data['case']}")
        print("reproduced: " + msg if msg else "not reproduced")
        return 1 if msg else 0
    print("unknown family")
    return 2


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    args = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    import logging

    logging.disable(logging.CRITICAL)
    import rebulk

    want = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    got = os.path.realpath(rebulk.__file__)
    if not got.startswith(want + os.sep):
        print(f"rebulk imported from {got}, not from {want}", file=sys.stderr)
        return 2
    try:
        module = importlib.import_module("mc." + args.property.lower())
        families = None if args.replay else module.families()
    except Exception:  # the code of /repo fails where nothing is judged yet
        if args.replay:
            raise
        runner = Runner(args.property, args.tier, seed, None)
        runner.broken("setup", traceback.format_exc())
        families = []
    else:
        if args.replay:
            return replay(module, args.replay)
        runner = Runner(args.property, args.tier, seed, module)
    for fam in families:
        if args.only and fam.name != args.only:
            continue
        try:
            (runner.bfs if isinstance(fam, BFS) else runner.family)(fam)
        except RuntimeError as exc:  # the code of /repo fails while cases are enumerated
            runner.broken(fam.name, str(exc))
            break
        r = runner.rows[-1]
        print(f"{args.property} {r['family']}: cases={r['cases']} states={r['distinct_states']} comparisons={r['comparisons']} "
              f"executions={r['executions']} complete={r['complete']} {r['wall_s']}s", flush=True)
        if runner.violations:
            break
    runner.evidence()
    for fam, case in sorted(set(runner.known_hit)):
        print(f"KNOWN-FINDING: property={args.property} {runner.known[(fam, case)]}")
    for fam, case, msg, path in runner.violations:
        print(f"  family: {fam}\n  case: {case}\n  {msg}")
        print(f"VIOLATION property={args.property} replay={path}")
    if not runner.violations and runner.capped:
        print(f"capped (time budget): {runner.capped}")
    return 1 if runner.violations else 0

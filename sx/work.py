"""Worker processes: symbolic exploration of a slice of a harness's path tree, and concrete replay."""
import gc
import importlib
import os
import random
import signal
import sys
import time
import traceback

from . import engine, load, nodes, api

RUN_LIMIT = 20


class Hang(Exception):
    pass


def _alarm(sig, frame):
    raise Hang(f"no result within {RUN_LIMIT} s")


class DetUUID:
    """Deterministic stand-in for the unique-id source (same ids on every run of a path)."""
    def __init__(self):
        self.n = 0
    def __call__(self):
        import uuid
        self.n += 1
        return uuid.UUID(int=(0xabcdef0123456789abcdef0123456789 * (self.n * 2 + 1)) % (1 << 128))


class _HarnessFinder(load._Finder):
    """Harness modules get the same instrumentation, as their oracles look at the same values."""
    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith("harness."):
            return None
        fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *fullname.split(".")) + ".py"
        if not os.path.isfile(fn):
            return None
        import importlib.machinery
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=fn)
        spec.has_location = True
        return spec


class Env:
    def __init__(self, prop, mode):
        self.mode = mode
        sys.setrecursionlimit(3000)
        self.m = load.load(mode == "symbolic")
        if mode == "symbolic":
            sys.meta_path.insert(0, _HarnessFinder())
        import colorama  # noqa
        self.mod = importlib.import_module("harness." + prop.lower())
        if mode == "symbolic":
            sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, _HarnessFinder)]
            assert "__sx_in__" in self.mod.__dict__
        self.m.reset = load.Snapshot()
        self.harnesses = {h.name: h for h in self.mod.HARNESSES}
        self.engine = engine.Engine()
        self.functions = {}
        self.nruns = {}
        signal.signal(signal.SIGALRM, _alarm)
        self.root = load.REPO + os.sep + "mcpyrate" + os.sep
        gc.collect(); gc.freeze()

    def _call(self, h, tier, s):
        import uuid
        self.m.reset()
        old = uuid.uuid4
        uuid.uuid4 = DetUUID()
        signal.alarm(RUN_LIMIT)
        n = self.nruns[h.name] = self.nruns.get(h.name, 0) + 1
        prof = n <= 5 or n % 64 == 0
        if prof:
            sys.setprofile(self._profile)
        try:
            return h.fn(s, **h.params[tier])
        finally:
            if prof:
                sys.setprofile(None)
            signal.alarm(0)
            uuid.uuid4 = old

    def _profile(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(self.root) and co.co_name != "<module>":
                k = (co.co_filename[len(self.root):-3].replace(os.sep, ".") + ":" + co.co_qualname)
                self.functions[k] = self.functions.get(k, 0) + 1

    def run(self, h, tier, prefix, sample=False):
        s = api.S(self.m, self.mode)
        outcome, val, asg = self.engine.run(lambda: self._call(h, tier, s), prefix, sample)
        return s, outcome, val, asg

    def concrete(self, h, tier, asg):
        """Replay. Return None if the property held, or a description of the failure."""
        s = api.S(self.m, "concrete", asg)
        try:
            self._call(h, tier, s)
        except engine.Infeasible:
            return None, s
        except Exception as e:
            return describe(e), s
        return None, s


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:]]
    try:
        msg = str(e)
    except Exception:
        msg = "?"
    return {"type": type(e).__name__, "msg": msg[:1500], "where": where}


def explore_slice(env, hname, tier, prefixes, seconds, want_samples, rng):
    h = env.harnesses[hname]
    eng = env.engine
    stack = list(prefixes)
    q0, s0, d0 = eng.queries, eng.solver_s, eng.decisions
    st = {"paths": 0, "infeasible": 0, "unknown": 0, "nondet": 0, "exc": 0, "checks": 0, "maxdepth": 0}
    labels, cands, samples, notes = set(), [], [], []
    t_end = time.monotonic() + seconds
    env.functions = {}
    i = 0
    while stack:
        prefix = stack.pop()
        sample = want_samples > 0 and rng.random() < 0.2
        s, outcome, val, asg = env.run(h, tier, prefix, sample)
        stack.extend(eng.pending)
        labels |= s.labels
        st["checks"] += s.checks
        st["maxdepth"] = max(st["maxdepth"], len(eng.trail))
        if outcome == "ok":
            st["paths"] += 1
            if sample:
                samples.append(asg)
                want_samples -= 1
        elif outcome == "exc":
            st["exc"] += 1
            if len(cands) < 10:
                cands.append((asg, describe(val)))
        else:
            st[outcome] += 1
            if outcome == "nondet" or outcome == "unknown":
                notes.append(str(val))
        val = None
        i += 1
        if time.monotonic() > t_end:
            break
        if st["exc"] >= 10:
            break
    if i % 4 == 0:
        gc.collect()
    st["queries"] = eng.queries - q0
    st["solver_s"] = eng.solver_s - s0
    st["decisions"] = eng.decisions - d0
    return {"h": hname, "rest": stack, "st": st, "labels": labels, "cands": cands, "samples": samples,
            "functions": env.functions, "notes": notes[:3]}


def worker_main(conn, prop, mode, tier, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    try:
        env = Env(prop, mode)
    except BaseException as e:
        conn.send({"fatal": describe(e), "tb": traceback.format_exc()})
        return
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)
    conn.send({"ready": True})
    rng = random.Random(seed)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        try:
            if task["op"] == "explore":
                r = explore_slice(env, task["h"], tier, task["prefixes"], task["seconds"], task["samples"], rng)
            else:
                h = env.harnesses[task["h"]]
                err, s = env.concrete(h, tier, task["asg"])
                r = {"replay": task["id"], "err": err, "notes": s.notes[:6]}
        except BaseException as e:
            r = {"fatal": describe(e), "tb": traceback.format_exc()}
        try:
            conn.send(r)
        except Exception as e:
            conn.send({"fatal": describe(e), "tb": traceback.format_exc()})

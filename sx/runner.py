"""Coordinator: spread the exploration over worker processes, replay, report, write evidence."""
import collections
import json
import multiprocessing
import multiprocessing.connection
import os
import shutil
import sys
import tempfile
import time

from . import work

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Proc:
    def __init__(self, prop, mode, tier, seed):
        ctx = multiprocessing.get_context("fork")
        self.args = (prop, mode, tier, seed)
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=work.worker_main, args=(child, prop, mode, tier, seed), daemon=True)
        self.p.start()
        child.close()
        self.mode = mode
        self.task = None
        self.ready = False
    def send(self, task):
        self.task = task
        self.since = time.monotonic()
        self.conn.send(task)
    def kill(self):
        self.p.kill()
        self.p.join()
        self.conn.close()


class HState:
    def __init__(self, h, tier):
        self.h, self.tier = h, tier
        self.reset("symbolic")
        self.history = []
    def reset(self, mode):
        self.mode = mode
        self.todo = collections.deque([[]])
        self.st = collections.Counter()
        self.labels = set()
        self.spurious = 0
        self.running = 0
        self.started = None
        self.first = True
        self.cands_seen = 0
        self.wall = 0.0
        self.dropped = False


class Run:
    def __init__(self, prop, tier, only=None, nproc=8, budget=None):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.monotonic()
        self.budget = budget or (240 if tier == "quick" else 1800)
        self.nproc = nproc
        self.only = only
        self.functions = collections.Counter()
        self.samples = []
        self.replays = collections.deque()   # pending replay tasks
        self.nreplay = 0
        self.validated = 0
        self.mismatch = []
        self.violations = []
        self.errors = []
        self.spurious = []
        self.notes = []
        self.replay_meta = {}
        self.sampled = collections.Counter()

    def log(self, *a):
        print(f"[{time.monotonic() - self.t0:6.1f}s]", *a, flush=True)

    def main(self):
        import importlib
        from . import load
        self.scratch = os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif_")
        # harness list, from an uninstrumented import in this process
        load.load(False)
        mod = importlib.import_module("harness." + self.prop.lower())
        self.mod = mod
        hs = [h for h in mod.HARNESSES if self.tier in h.tiers and (not self.only or h.name in self.only)]
        self.hs = {h.name: HState(h, self.tier) for h in hs}
        for k in [k for k in sys.modules if k == "harness" or k.startswith(("mcpyrate", "harness."))]:
            del sys.modules[k]
        sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, load._Finder)]
        self.sym = [Proc(self.prop, "symbolic", self.tier, self.seed + i) for i in range(self.nproc)]
        self.con = [Proc(self.prop, "concrete", self.tier, self.seed) for i in range(2)]
        self.eag = []
        try:
            self.loop()
        finally:
            for p in self.sym + self.con + self.eag:
                p.kill()
            shutil.rmtree(self.scratch, ignore_errors=True)
        return self.report()

    def next_task(self, mode):
        best = None
        for s in self.hs.values():
            if s.mode == mode and s.todo:
                k = (s.wall / s.h.weight, s.running)
                if best is None or k < best[0]:
                    best = (k, s)
        if best is None:
            return None
        s = best[1]
        nt = sum(len(x.todo) for x in self.hs.values() if x.mode == mode)
        take = 1 if nt < 40 else 3
        prefixes = [s.todo.popleft() for _ in range(min(take, len(s.todo)))]
        s.running += 1
        sec = 0.15 if s.first or nt < 12 else 1.0
        s.first = False
        cap = 6 if self.tier == "quick" else 20
        ns = 2 if self.sampled[s.h.name] < 24 * cap // 6 else 0
        return {"op": "explore", "h": s.h.name, "prefixes": prefixes, "seconds": sec, "samples": ns}

    def loop(self):
        while True:
            now = time.monotonic()
            over = now - self.t0 > self.budget
            if len(self.violations) >= 3:
                break
            procs = self.sym + self.eag + self.con
            # dispatch
            for p in self.con:
                if p.ready and p.task is None and self.replays:
                    p.send(self.replays.popleft())
            for p in self.sym + self.eag:
                if p.ready and p.task is None and not over:
                    t = self.next_task(p.mode)
                    if t:
                        p.send(t)
            work_left = any(p.task is not None for p in procs) or self.replays
            if not over:
                work_left = work_left or any(s.todo for s in self.hs.values())
            if not work_left:
                break
            if now - self.t0 > self.budget + 120:
                self.errors.append("gave up waiting for workers")
                break
            for c in multiprocessing.connection.wait([p.conn for p in procs], timeout=1.0):
                p = next(p for p in procs if p.conn is c)
                try:
                    r = p.conn.recv()
                except (EOFError, OSError):
                    self.lost(p)
                    continue
                if r.get("ready"):
                    p.ready = True
                    continue
                task, p.task = p.task, None
                self.result(p, task, r)
            # a worker stuck in C code, where its own alarm cannot help
            for p in procs:
                if p.task is not None and time.monotonic() - p.since > 60:
                    self.lost(p)

    def lost(self, p):
        task = p.task
        p.kill()
        for l in (self.sym, self.con, self.eag):
            if p in l:
                l.remove(p)
                l.append(Proc(*p.args))
        if task and task["op"] == "explore":
            s = self.hs[task["h"]]
            s.running -= 1
            s.st["lost"] += 1
            self.notes.append(f"worker lost in {task['h']}")
            if s.st["lost"] > 5:
                s.todo.clear()
                self.errors.append(f"workers keep dying in {task['h']}")
            else:
                s.todo.extend(task["prefixes"])
        elif task:
            self.notes.append("replay worker lost")
            meta = self.replay_meta[task["id"]]
            if meta["kind"] == "cand":
                # the real code kills or hangs the process on this input
                self.confirm(meta, {"type": "Crash", "msg": "process died or hung", "where": []})

    def result(self, p, task, r):
        if "fatal" in r:
            if task is None:
                self.fatal_start(p, r)
                return
            self.errors.append(f"{task.get('h')}: {r['fatal']} {r['tb'][-1500:]}")
            if task["op"] == "explore":
                self.hs[task["h"]].running -= 1
            return
        if "replay" in r:
            self.replayed(self.replay_meta[r["replay"]], r)
            return
        s = self.hs[r["h"]]
        s.running -= 1
        if s.mode != p.mode:
            return      # left over from before the switch to eager mode
        s.wall += time.monotonic() - p.since
        if s.dropped:
            return
        s.todo.extend(r["rest"])
        s.st.update({k: v for k, v in r["st"].items() if k != "maxdepth"})
        s.st["maxdepth"] = max(s.st["maxdepth"], r["st"]["maxdepth"])
        s.labels |= r["labels"]
        self.functions.update(r["functions"])
        self.notes.extend(r["notes"][:1] if len(self.notes) < 20 else [])
        for asg in r["samples"]:
            if self.sampled[r["h"]] < 400:
                self.sampled[r["h"]] += 1
                self.queue_replay("sample", r["h"], asg, None)
        if r["st"]["unknown"] and s.mode == "symbolic":
            self.go_eager(s, f"inconclusive: {r['notes'][:1]}")
            return
        for asg, err in r["cands"]:
            s.cands_seen += 1
            if s.cands_seen <= 40:
                self.queue_replay("cand", r["h"], asg, err)
        if s.cands_seen > 40 and s.mode == "eager":
            s.todo.clear()

    def fatal_start(self, p, r):
        """The modules could not even be loaded."""
        if p.mode == "symbolic":
            self.notes.append(f"instrumented load failed: {r['fatal']}")
            self.sym = [q for q in self.sym if q is not p]
            for s in self.hs.values():
                if s.mode == "symbolic":
                    self.go_eager(s, "instrumented modules do not load")
        else:
            self.errors.append(f"load failed: {r['tb'][-2000:]}")
            self.con = [q for q in self.con if q is not p]
            self.eag = [q for q in self.eag if q is not p]
            if not self.con:
                raise SystemExit("cannot load the code under test:\n" + r["tb"])

    def queue_replay(self, kind, h, asg, err):
        i = self.nreplay
        self.nreplay += 1
        self.replay_meta[i] = {"kind": kind, "h": h, "asg": asg, "err": err, "id": i}
        t = {"op": "replay", "h": h, "asg": asg, "id": i}
        if kind == "cand":
            self.replays.appendleft(t)
        else:
            self.replays.append(t)

    def replayed(self, meta, r):
        err = r["err"]
        meta["notes"] = r["notes"]
        s = self.hs[meta["h"]]
        if err is not None:
            self.confirm(meta, err)
            return
        if meta["kind"] == "cand":
            s.spurious += 1
            if len(self.spurious) < 10:
                self.spurious.append({"harness": meta["h"], "error": meta["err"], "assignment": meta["asg"]})
            if s.mode == "symbolic":
                self.go_eager(s, f"{meta['err']['type']}: {meta['err']['msg'][:200]} {meta['err']['where']}")
            elif s.spurious > 10:
                s.todo.clear()
                self.errors.append(f"{meta['h']}: failures in eager mode do not reproduce: {meta['err']}")
        else:
            self.validated += 1
            if len(self.samples) < 24 and sum(1 for x in self.samples if x["harness"] == meta["h"]) < 3:
                self.samples.append({"harness": meta["h"], "assignment": {k: v for k, v in list(meta["asg"].items())[:30]},
                                     "notes": meta["notes"]})

    def confirm(self, meta, err):
        key = (meta["h"], err["type"], err["msg"][:60])
        if any(v["key"] == key for v in self.violations):
            return
        known = self.is_known(meta, err)
        if known:
            return
        d = os.path.join(VERIF, "out", self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{meta['h']}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "harness": meta["h"], "tier": self.tier, "assignment": meta["asg"],
                       "error": err, "notes": meta.get("notes"),
                       "how": f"python3-vt {VERIF}/check.py --replay {path}"}, f, indent=1)
        self.violations.append({"key": key, "path": path, "err": err, "h": meta["h"], "meta": meta})
        self.log(f"counterexample in {meta['h']}: {err['type']}: {err['msg'][:600]} {err['where']} {meta.get('notes')}")

    def is_known(self, meta, err):
        return False

    def go_eager(self, s, why):
        if s.mode == "eager":
            return
        self.log(f"{s.h.name}: symbolic execution diverges from the real code ({why}); forking on inputs instead")
        s.history.append({"mode": "symbolic", "why": why, "paths": s.st["paths"]})
        if not s.h.eager:
            s.dropped = True
            s.todo.clear()
            return
        old_running = s.running
        s.reset("eager")
        s.running = old_running
        if not self.eag:
            self.eag = [Proc(self.prop, "eager", self.tier, self.seed + i) for i in range(self.nproc)]

    def report(self):
        wall = time.monotonic() - self.t0
        tot = collections.Counter()
        per = {}
        exhaustive = True
        vacuous = []
        for n, s in self.hs.items():
            done = not s.todo and not s.st["unknown"] and not s.st["lost"] and not s.dropped
            exhaustive &= done
            missing = s.h.reach - s.labels
            if done and missing:
                vacuous.append(f"{n}: {sorted(missing)}")
            if not s.st["paths"] and not self.violations and not s.dropped:
                vacuous.append(f"{n}: no path")
            per[n] = {"what": s.h.doc, "mode": s.mode, "paths": s.st["paths"], "complete": done, "queries": s.st["queries"],
                      "decisions": s.st["decisions"], "solver_s": round(s.st["solver_s"], 2), "worker_s": round(s.wall, 1),
                      "checks": s.st["checks"], "infeasible": s.st["infeasible"], "unknown": s.st["unknown"],
                      "nondeterministic": s.st["nondet"], "max_decisions_per_path": s.st["maxdepth"],
                      "reached": sorted(s.labels), "left": len(s.todo), "earlier": s.history}
            tot.update({k: v for k, v in s.st.items() if k != "maxdepth"})
        cov = {
            "states": tot["paths"],
            "transitions": tot["decisions"],
            "traces_validated_against_impl": self.validated,
            "samples": self.samples[:16],
            "exhaustive": exhaustive,
            "states_means": "feasible paths of the harnesses executed to their end; each stands for all inputs satisfying its path condition",
            "transitions_means": "decisions put to z3 (branches and forks)",
            "queries": tot["queries"], "solver_s": round(tot["solver_s"], 2), "assertions_checked": tot["checks"],
            "bounds": getattr(self.mod, "BOUNDS", {}).get(self.tier, getattr(self.mod, "BOUNDS", {}).get("quick", "")) if isinstance(getattr(self.mod, "BOUNDS", ""), dict) else self.mod.BOUNDS,
            "outside": getattr(self.mod, "OUTSIDE", ""),
            "functions_encoded": sorted(self.functions),
            "harnesses": per,
            "spurious": self.spurious[:3],
            "notes": self.notes[:10],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": list(getattr(self.mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for n, p in per.items():
            self.log(f"{n}: {p['paths']} paths{'' if p['complete'] else ' (INCOMPLETE, %d left)' % p['left']}, {p['queries']} queries, "
                     f"{p['solver_s']} s solver, {p['worker_s']} s total, mode {p['mode']}, reached {p['reached']}, inf {p['infeasible']} nondet {p['nondeterministic']} unk {p['unknown']}")
        self.log(f"{tot['paths']} paths, {self.validated} replayed on the real code, {len(self.functions)} functions encoded, exhaustive: {exhaustive}")
        for k in self.known_lines():
            print(k)
        if self.violations:
            for v in self.violations[:1]:
                print(f"VIOLATION property={self.prop} replay={v['path']}", flush=True)
            return 1
        for e in self.errors:
            print("ERROR", e)
        for v in vacuous:
            print("VACUOUS", v)
        for n in self.notes[:5]:
            print("note:", n)
        return 2 if self.errors or vacuous else 0

    def known_lines(self):
        out = []
        fn = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(fn):
            for l in open(fn):
                if l.startswith(f"KNOWN-FINDING: property={self.prop} "):
                    out.append(l.strip())
        return out


def replay_file(path):
    d = json.load(open(path))
    from .work import Env
    env = Env(d["property"], "concrete")
    err, s = env.concrete(env.harnesses[d["harness"]], d["tier"], d["assignment"])
    for n in s.notes:
        print("input:", n)
    print("property held" if err is None else f"VIOLATED: {err['type']}: {err['msg']}\n  at {err['where']}")
    return 0 if err is None else 1

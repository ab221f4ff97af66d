"""Breadth-first explicit-state exploration of the real code over a pool of processes.

A check module supplies

  ID, LEVEL, ASSUMPTIONS
  jobs(tier)                 list of Job
  initial(job)               list of states (run in a worker)
  expand(job, state)         -> Out (run in a worker)

The master keeps the visited set of every job, level by level, hands states to
workers in chunks and stops at the first violation.  Nothing is sampled and the
order of worker answers does not influence what is covered.
"""

import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VF_PROCS", "8"))


class Job:
    def __init__(self, name, engine="sqlite", adapter=None, depth=None, bounds=None, chunk=None, **kw):
        self.name, self.engine, self.adapter = name, engine, adapter
        self.depth, self.bounds, self.chunk = depth, bounds or {}, chunk
        self.__dict__.update(kw)


class Out:
    """What a worker reports for one state."""

    def __init__(self):
        self.succ = []  # (state, op)
        self.n = 0  # transitions executed on the implementation
        self.bad = []  # dict(op=, what=, finding=)
        self.stats = collections.Counter()
        self.notes = set()  # distinct observed outcomes

    def violation(self, op, what, finding=None, **extra):
        self.bad.append({"op": op, "what": what, "finding": finding, **extra})


def _jsonable(x):
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


# ----------------------------------------------------------------- worker
def worker_setup(engine, dbname, sock):
    from vf import env

    env.setup("pg" if engine == "icu" else engine, dbname, sock)
    if engine == "sqlite":
        env.create_tables()
        if os.environ.get("VF_ROUTED"):
            env.create_tables("tree")


def _worker(modname, tier, engine, idx, sock, inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        sys.path.insert(0, ROOT)
        # exceptions are data here; keep warnings off stdout
        if engine != "none":
            worker_setup(engine, f"{engine}{idx}", sock)
        check = importlib.import_module(modname)
        jobs = check.jobs(tier)
    except BaseException:
        outq.put(("fatal", traceback.format_exc()))
        return
    while True:
        try:
            item = inq.get()
        except (EOFError, OSError):
            return
        if item is None:
            return
        kind, ji, payload = item
        try:
            if kind == "init":
                outq.put(("init", ji, check.initial(jobs[ji])))
            elif kind == "replay":
                outq.put(("replayed", ji, [(h, check.replay(jobs[ji], *h)) for h in payload]))
            else:
                res = []
                for st in payload:
                    o = check.expand(jobs[ji], st)
                    res.append((st, o))
                    if any(b["finding"] is None for b in o.bad):
                        break
                outq.put(("done", ji, res))
        except BaseException:
            outq.put(("fatal", f"job {jobs[ji].name} {kind} {payload!r}\n{traceback.format_exc()}"))


def _template(name, sock):
    from vf import env

    env.setup("pg", name, sock)
    env.create_tables()
    from django.db import connections

    connections.close_all()


def create_template(cluster, engine):
    """pg orders strings by code point, icu as people do (letters by case last, punctuation last of all)."""
    cluster.createdb("tmpl" + engine, icu=engine == "icu")
    p = mp.get_context("fork").Process(target=_template, args=("tmpl" + engine, cluster.sock))
    p.start()
    p.join()
    if p.exitcode:
        raise RuntimeError("could not create the template database")


class Run:
    def __init__(self, check, tier, seed, deadline=None):
        self.check, self.tier, self.seed = check, tier, seed
        self.jobs = check.jobs(tier)
        only = os.environ.get("VF_JOB")
        self.active = [i for i, j in enumerate(self.jobs) if not only or only in j.name]
        self.deadline = deadline or float(os.environ.get("VF_DEADLINE", "780" if tier == "quick" else "20000"))
        self.t0 = time.time()
        self.parent = [dict() for _ in self.jobs]
        self.level = [0] * len(self.jobs)
        self.trans = [0] * len(self.jobs)
        self.stats = collections.Counter()
        self.jobstats = [collections.Counter() for _ in self.jobs]
        self.notes = [set() for _ in self.jobs]
        self.bad = []
        self.known = {}
        self.capped = []
        self.cluster = None
        self.procs = []

    # ------------------------------------------------------------- lifecycle
    def start(self):
        engines = sorted({self.jobs[i].engine for i in self.active})
        ctx = mp.get_context("fork")
        sock = None
        self.inq, self.outq = {}, ctx.Queue()
        if {"pg", "icu"} & set(engines):
            from vf.pg import Cluster

            sys.path.insert(0, "/opt/venv/lib/python3.12/site-packages")
            self.cluster = Cluster()
            sock = self.cluster.sock
            for e in {"pg", "icu"} & set(engines):
                create_template(self.cluster, e)
        for e in engines:
            self.inq[e] = ctx.Queue()
            n = min(NPROC, getattr(self.check, "PROCS", NPROC))
            for k in range(n):
                if e in ("pg", "icu"):
                    self.cluster.createdb(f"{e}{k}", template="tmpl" + e)
                    if os.environ.get("VF_ROUTED"):
                        self.cluster.createdb(f"{e}{k}_tree", template="tmpl" + e)
                p = ctx.Process(
                    target=_worker,
                    args=(self.check.__name__, self.tier, e, k, sock, self.inq[e], self.outq),
                    daemon=True,
                )
                p.start()
                self.procs.append(p)

    def stop(self):
        for p in self.procs:
            p.terminate()
        for p in self.procs:
            p.join(5)
            if p.is_alive():
                p.kill()
        if self.cluster:
            self.cluster.stop()

    # ----------------------------------------------------------------- search
    def go(self):
        self.start()
        try:
            self._search()
        finally:
            self.stop()

    def _put(self, ji, states):
        job = self.jobs[ji]
        size = job.chunk or max(1, min(50, len(states) // (NPROC * 3) or 1))
        for k in range(0, len(states), size):
            self.inq[job.engine].put(("exp", ji, states[k : k + size]))
            self.pending[ji] += 1

    def _search(self):
        self.pending = [0] * len(self.jobs)
        nxt = [[] for _ in self.jobs]
        for ji in self.active:
            self.inq[self.jobs[ji].engine].put(("init", ji, None))
            self.pending[ji] += 1
        stop = False
        while sum(self.pending):
            try:
                msg = self.outq.get(timeout=5)
            except queue.Empty:
                if any(not p.is_alive() for p in self.procs):
                    raise RuntimeError("a worker process died")
                continue
            if msg[0] == "fatal":
                raise RuntimeError("worker failed:\n" + msg[1])
            ji = msg[1]
            job = self.jobs[ji]
            self.pending[ji] -= 1
            if time.time() - self.t0 > self.deadline and not stop:
                stop = True
                self.capped.append(f"time cap {self.deadline:.0f}s")
                self._drain()
            if msg[0] == "init":
                for st in msg[2]:
                    if st not in self.parent[ji]:
                        self.parent[ji][st] = None
                        nxt[ji].append(st)
            else:
                for st, o in msg[2]:
                    self.trans[ji] += o.n
                    self.jobstats[ji].update(o.stats)
                    self.notes[ji] |= o.notes
                    for b in o.bad:
                        b["job"], b["state"] = job.name, st
                        b["history"] = self.history(ji, st)
                        self.report(b)
                    for s2, op in o.succ:
                        if s2 not in self.parent[ji]:
                            self.parent[ji][s2] = (st, op)
                            nxt[ji].append(s2)
                if self.bad and not stop:
                    stop = True
                    self._drain()
            if not self.pending[ji] and not stop and nxt[ji]:
                if job.depth is None or self.level[ji] < job.depth:
                    self.level[ji] += 1
                    todo, nxt[ji] = nxt[ji], []
                    todo.sort(key=repr)
                    self._put(ji, todo)
                else:
                    self.jobstats[ji]["frontier_states_not_expanded"] += len(nxt[ji])

        if not stop and hasattr(self.check, "replay"):
            self._replay()

    def _replay(self):
        """Validate recorded histories against the implementation, without restoring any state."""
        want = int(os.environ.get("VF_TRACES", "60" if self.tier == "quick" else "400"))
        n = 0
        for ji in self.active:
            hs = [st for st in self.parent[ji] if self.parent[ji][st]]
            if not hs:  # seed states: each is built through the API instead
                hs = [st for st in self.parent[ji] if st]
            step = max(1, len(hs) // want)
            batch = []
            for st in hs[::-1][::step]:
                h = self.history(ji, st)
                batch.append((h["from"], h["ops"], st))
            for k in range(0, len(batch), 10):
                self.inq[self.jobs[ji].engine].put(("replay", ji, batch[k : k + 10]))
                n += 1
        while n:
            try:
                msg = self.outq.get(timeout=5)
            except queue.Empty:
                if any(not p.is_alive() for p in self.procs):
                    raise RuntimeError("a worker process died")
                continue
            if msg[0] == "fatal":
                raise RuntimeError("worker failed:\n" + msg[1])
            n -= 1
            job = self.jobs[msg[1]]
            for h, diff in msg[2]:
                if diff == "skip":
                    continue
                self.jobstats[msg[1]]["traces"] += 1
                self.jobstats[msg[1]]["trace_steps"] += len(h[1])
                if diff and not getattr(self.check, "TRACE_STRICT", True):
                    self.jobstats[msg[1]]["traces_diverged"] += 1
                elif diff:
                    self.report(
                        {"op": h[1], "what": diff, "finding": None, "job": job.name, "state": h[0],
                         "history": {"from": h[0], "ops": h[1]}}
                    )  # fmt: skip

    def _drain(self):
        for e, q in self.inq.items():
            while True:
                try:
                    item = q.get(timeout=0.05)
                except queue.Empty:
                    break
                self.pending[item[1]] -= 1

    def history(self, ji, st):
        ops = []
        while self.parent[ji].get(st):
            st, op = self.parent[ji][st]
            ops.append(op)
        return {"from": st, "ops": ops[::-1]}

    def report(self, b):
        f = b.get("finding")
        if f and f in self.listed():
            e = self.known.setdefault(f, [0, b])
            e[0] += 1
            return
        self.bad.append(b)

    def listed(self):
        if not hasattr(self, "_listed"):
            self._listed = set()
            p = os.path.join(ROOT, "known_findings.json")
            if os.path.exists(p):
                for e in json.load(open(p))["findings"]:
                    if e["status"] == "known" and self.check.ID in e["properties"]:
                        self._listed.add(e["id"])
        return self._listed

    # ----------------------------------------------------------------- report
    def finish(self):
        ck = self.check
        states = sum(len(self.parent[i]) for i in self.active)
        trans = sum(self.trans)
        for c in self.jobstats:
            self.stats.update(c)
        samples = []
        for ji in self.active:
            if self.parent[ji]:
                last = list(self.parent[ji])[-1]
                samples.append({"job": self.jobs[ji].name, **_jsonable(self.history(ji, last)), "reaches": _jsonable(last)})
        cov = {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": int(self.stats.get("traces", 0)),
            "samples": samples[:12],
            "exhaustive": not self.capped and not self.bad,
            "jobs": [
                {
                    "name": self.jobs[i].name,
                    "engine": self.jobs[i].engine,
                    "states": len(self.parent[i]),
                    "transitions": self.trans[i],
                    "levels": self.level[i],
                    "bounds": _jsonable(self.jobs[i].bounds),
                    "depth_bound": self.jobs[i].depth,
                    "distinct_outcomes": len(self.notes[i]),
                    **dict(self.jobstats[i]),
                }
                for i in self.active
            ],
            "counters": dict(self.stats),
            "caps_hit": self.capped,
            "known_findings": {k: v[0] for k, v in self.known.items()},
        }
        level = getattr(ck, "LEVEL", "model_checking")
        if level in ("exploration", "fault_enumeration"):
            cov["evaluations"] = trans
            cov["distinct_nontrivial"] = int(self.stats.get("nontrivial", states))
            cov["rule"] = ck.RULE
        if hasattr(ck, "EXPLANATION"):
            cov["explanation"] = ck.EXPLANATION
        ev = {
            "property": ck.ID,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": getattr(ck, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.bad),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{ck.ID}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(
            f"{ck.ID} tier={self.tier} states={states} transitions={trans} "
            f"jobs={len(self.active)} wall={ev['wall_s']}s" + (f" CAPPED {self.capped}" if self.capped else "")
        )
        for i in self.active:
            extra = {k: v for k, v in self.jobstats[i].items()}
            print(
                f"  {self.jobs[i].name}: states={len(self.parent[i])} transitions={self.trans[i]} levels={self.level[i]}"
                f" outcomes={len(self.notes[i])} {extra if extra else ''}"
            )
        for k, (cnt, b) in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={ck.ID} {k} ({cnt} executions), e.g. {b['job']} {b['op']}: {b['what'][:200]}")
        if not self.bad:
            return 0
        self.bad.sort(key=lambda b: (len(b["history"]["ops"]), len(repr(b["state"])), repr(b["op"])))
        b = self.bad[0]
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        path = os.path.join("evidence", "replay", f"{ck.ID}.json")
        h = hashlib.sha1(repr((b["job"], b["state"], b["op"])).encode()).hexdigest()[:10]
        with open(os.path.join(ROOT, path), "w") as fh:
            json.dump(
                {
                    "property": ck.ID,
                    "id": h,
                    "job": b["job"],
                    "tier": self.tier,
                    "state": repr(b["state"]),
                    "op": repr(b["op"]),
                    "history": _jsonable(b["history"]),
                    "what": b["what"],
                    "others": len(self.bad) - 1,
                    "how": f"bash run.sh {ck.ID} --replay {path}",
                },
                fh,
                indent=1,
            )
        print(f"  job {b['job']}\n  history {b['history']}\n  state {b['state']}\n  op {b['op']}\n  {b['what']}")
        print(f"VIOLATION property={ck.ID} replay={path}")
        return 1


def replay(check, path):
    """Re-run the one recorded state in a fresh process and report what it does now."""
    rec = json.load(open(path))
    import ast

    jobs = check.jobs(rec["tier"])
    job = next(j for j in jobs if j.name == rec["job"])
    state = ast.literal_eval(rec["state"])
    cluster = None
    try:
        sock = None
        if job.engine in ("pg", "icu"):
            from vf.pg import Cluster

            cluster = Cluster()
            sock = cluster.sock
            create_template(cluster, job.engine)
            cluster.createdb("w0", template="tmpl" + job.engine)
        if job.engine != "none":
            worker_setup(job.engine, "w0", sock)
        o = check.expand(job, state)
        hits = [b for b in o.bad]
        for b in hits:
            print(b["op"], "->", b["what"])
        print("reproduced" if hits else "not reproduced")
        return 1 if hits else 0
    finally:
        if cluster:
            from django.db import connections

            connections.close_all()
            cluster.stop()

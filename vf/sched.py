"""A controlled scheduler for real PostgreSQL transactions.

Every transaction runs in its own thread on its own connection and stops at a
gate before each SQL statement and before COMMIT.  The controller lets one of
them pass at a time, waits until it is back at a gate, has finished or waits for
a lock held by another transaction, and so decides the interleaving.

`explore` enumerates all interleavings depth first by re-execution.  Sleep sets
leave out interleavings that only swap neighbouring steps that commute: a plain
SELECT (READ COMMITTED, so it sees committed data only) with anything but a
COMMIT.  With reduce=False every interleaving is executed.
"""

import re
import threading
import time

from django.db import connection, connections, transaction


class Stuck(RuntimeError):
    pass


class Agent(threading.Thread):
    def __init__(self, pool, idx):
        super().__init__(daemon=True)
        self.pool, self.idx = pool, idx
        self.state, self.sql, self.job, self.pid = "idle", None, None, None
        self.go = False

    # in the thread
    def gate(self, sql):
        with self.pool.cond:
            self.state, self.sql = "ready", sql
            self.pool.cond.notify_all()
            while not self.go:
                self.pool.cond.wait()
            self.go = False
            self.state = "running"

    def wrapper(self, execute, sql, params, many, context):
        self.gate(sql)
        return execute(sql, params, many, context)

    def run(self):
        conn = connections["default"]
        conn.ensure_connection()
        self.pid = conn.connection.info.backend_pid
        commit = conn._commit

        def gated():
            self.gate("COMMIT")
            return commit()

        while True:
            with self.pool.cond:
                self.state = "idle"
                self.pool.cond.notify_all()
                while self.job is None:
                    self.pool.cond.wait()
                job, self.job = self.job, None
                self.state = "running"
            conn._commit = gated
            try:
                with conn.execute_wrapper(self.wrapper):
                    try:
                        self.result = ("ok", job())
                    except Exception as e:  # noqa: BLE001 - judged by the caller
                        self.result = ("exc", e)
            finally:
                del conn._commit
                if conn.in_atomic_block or not conn.get_autocommit():
                    self.result = ("exc", RuntimeError("left a transaction open"))


class Pool:
    def __init__(self, n):
        self.cond = threading.Condition()
        self.agents = [Agent(self, i) for i in range(n)]
        for a in self.agents:
            a.start()
        with self.cond:
            while any(a.pid is None or a.state != "idle" for a in self.agents):
                self.cond.wait(10)

    def blockers(self, agents):
        """agent -> agents it waits for (empty set: not waiting)."""
        by = {a.pid: a for a in self.agents}
        with connection.cursor() as c:
            c.execute("SELECT p, pg_blocking_pids(p) FROM unnest(%s::int[]) AS p", [[a.pid for a in agents]])
            return {by[p]: {by.get(q) for q in qs} for p, qs in c.fetchall()}

    def settle(self, deadline=20.0):
        """Return when every agent is at a gate, has finished, or waits for one that is."""
        end = time.time() + deadline
        pause = 0.002
        while True:
            with self.cond:
                busy = [a for a in self.agents if a.state == "running"]
                if busy:
                    self.cond.wait(pause)
                    busy = [a for a in self.agents if a.state == "running"]
            if not busy:
                return
            waits = self.blockers(busy)
            if all(waits[a] for a in busy):
                with self.cond:
                    still = [a for a in self.agents if a.state == "running"]
                if still == busy:
                    # a cycle of waiting transactions: PostgreSQL is about to end one of them
                    free = {a for a in self.agents if a not in busy}
                    grown = True
                    while grown:
                        grown = False
                        for a in busy:
                            if a not in free and waits[a] <= free:
                                free.add(a)
                                grown = True
                    if all(a in free for a in busy):
                        return
                    pause = 0.02
            if time.time() > end:
                raise Stuck(f"no progress: {[(a.idx, a.state, a.sql) for a in self.agents]}")

    def execute(self, jobs, choose):
        """Run the jobs, one per agent; choose(ready agents -> statement) names the next one."""
        use = self.agents[: len(jobs)]
        with self.cond:
            for a, j in zip(use, jobs):
                a.result, a.job, a.state = None, j, "running"
            self.cond.notify_all()
        self.settle()
        steps = []
        while True:
            with self.cond:
                ready = {a.idx: a.sql for a in use if a.state == "ready"}
                done = all(a.state == "idle" for a in use)
            if done:
                return steps, [a.result for a in use]
            if not ready:
                raise Stuck("every transaction waits")
            i = choose(len(steps), ready)
            steps.append((i, ready[i]))
            a = self.agents[i]
            with self.cond:
                a.go, a.state = True, "running"
                self.cond.notify_all()
            self.settle()


def klass(sql):
    if sql == "COMMIT":
        return "commit"
    s = sql.lstrip().upper()
    if s.startswith(("SAVEPOINT", "RELEASE", "ROLLBACK")):
        return "local"
    if s.startswith("SELECT") and not re.search(r"\bFOR (UPDATE|SHARE|NO KEY|KEY)", s):
        return "read"
    return "write"


def independent(a, b):
    a, b = klass(a), klass(b)
    if "local" in (a, b):
        return True
    if "commit" in (a, b):
        return False
    return "read" in (a, b)


class Node:
    def __init__(self, ready, sleep):
        self.ready, self.sleep = ready, sleep
        self.done = []

    def choices(self):
        return [i for i in sorted(self.ready) if i not in self.sleep and i not in self.done]


def explore(pool, reset, jobs, judge, reduce=True, limit=None):
    """All interleavings of `jobs` (a callable making fresh ones).  Returns counters.

    judge(steps, results) is called after every complete execution and returns
    None or a description of what is wrong.
    """
    stack = []
    stats = {"schedules": 0, "pruned": 0, "steps": 0, "diverged": 0}
    bad = None
    while True:
        reset()
        pruned = False

        def choose(k, ready):
            nonlocal pruned
            if k < len(stack):
                node = stack[k]
                i = node.done[-1]
                if i in ready:
                    return i
                stats["diverged"] += 1
                return min(ready)
            if pruned or k > len(stack):
                return min(ready)
            sleep = set()
            if stack and reduce:
                p = stack[-1]
                c = p.done[-1]
                for j in {*p.sleep, *p.done[:-1]}:
                    if j in ready and j in p.ready and p.ready[j] == ready[j] and independent(p.ready[j], p.ready[c]):
                        sleep.add(j)
            node = Node(ready, sleep)
            ch = node.choices()
            if not ch:
                pruned = True
                return min(ready)
            node.done.append(ch[0])
            stack.append(node)
            return ch[0]

        steps, results = pool.execute(jobs(), choose)
        stats["steps"] += len(steps)
        if pruned:
            stats["pruned"] += 1
        else:
            stats["schedules"] += 1
        bad = judge(steps, results)
        if bad or (limit and stats["schedules"] + stats["pruned"] >= limit):
            stats["capped"] = int(not bad)
            return stats, bad, steps
        while stack and not stack[-1].choices():
            stack.pop()
        if not stack:
            return stats, None, None
        node = stack[-1]
        node.done.append(node.choices()[0])


__all__ = ["Pool", "explore", "transaction"]

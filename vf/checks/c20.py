"""C20: ltree labels are generated strictly between their neighbours."""

import itertools
import signal

from vf.explore import Job, Out

ID = "C20"
ALPHA = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ASSUMPTIONS = [
    "Labels to skip are the labels of existing siblings: the bounds are among them or absent, none lies strictly between the bounds "
    "(as every caller passes them); with a skip set between the bounds only soundness and termination are asked.",
    "Room: for bounds a < b a label exists between them unless b is a followed by '0'; left of b unless b is '0'.",
]


def words(chars, k):
    return ["".join(w) for n in range(1, k + 1) for w in itertools.product(chars, repeat=n)]


def jobs(tier):
    big = tier == "thorough"
    js = [
        Job("ends", engine="none", words=words("0AZ", 6 if big else 5), chunk=4),
        Job("near", engine="none", words=words("0189AYZ" if big else "019AYZ", 4 if big else 3), chunk=4),
        Job("single", engine="none", words=list(ALPHA) + ["A" + c for c in ALPHA] + ["Z" + c for c in ALPHA], chunk=4),
        Job("sets", engine="none", words=None, base=words("0AZ", 3), sizes=(1, 2, 3, 4) if big else (1, 2, 3), chunk=4),
        Job("long", engine="none", words=None, lens=(10, 30, 100, 300) if big else (10, 30, 100), chunk=1),
        Job("grow", engine="none", words=None, depth=None, steps=10 if big else 8, chunk=20),
    ]
    return js


def initial(job):
    if job.name == "grow":
        return [("A",)]
    if job.name == "sets":
        return [(w,) for w in job.base]
    if job.name == "long":
        return [(c, d, n) for c in "0AZ" for d in "0AZ" for n in job.lens]
    return list(job.words) + [None]


class TooLong(Exception):
    pass


def ask(out, after, before, skip, judge_room=True):
    """One call, judged.  Returns the label or None."""
    from vf import env

    env.setup("none")
    from treebeard.ltree import InvalidLabelConstraints, generate_label

    op = (after, before, tuple(sorted(skip)))
    out.n += 1
    room = before is None or (before != "0" if after is None else after < before and before != after + "0")

    def late(*_):
        raise TooLong

    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        got = generate_label(skip=set(skip), before=before, after=after)
    except InvalidLabelConstraints:
        if room and judge_room:
            out.violation(op, f"refused although there is room between {after!r} and {before!r}")
        out.notes.add("refused")
        return None
    except TooLong:
        out.violation(op, "no answer in 20 s")
        return None
    except Exception as e:  # noqa: BLE001
        if judge_room:
            out.violation(op, f"raised {type(e).__name__}: {e}")
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    what = None
    if not isinstance(got, str) or not got or set(got) - set(ALPHA):
        what = "is not a label"
    elif after is not None and not got > after:
        what = f"does not sort after {after!r}"
    elif before is not None and not got < before:
        what = f"does not sort before {before!r}"
    elif got in skip:
        what = "is among the labels to skip"
    if what:
        out.violation(op, f"between {after!r} and {before!r}, skipping {sorted(skip)[:8]}: {got!r} {what}")
    out.notes.add((after is None, before is None, len(got) - len(after or "")))
    return got


def expand(job, state):
    out = Out()
    if job.name == "grow":
        return grow(job, state, out)
    if job.name == "sets":
        # sets of siblings, the gap at every position
        for n in job.sizes:
            for rest in itertools.combinations([w for w in job.base if w > state[0]], n - 1):
                sib = sorted({state[0], *rest})
                for k in range(len(sib) + 1):
                    ask(out, sib[k - 1] if k else None, sib[k] if k < len(sib) else None, sib)
        return out
    if job.name == "long":
        c, d, n = state
        for a in (c * n, c * n + d, d + c * n):
            ask(out, a, None, {a})
            ask(out, None, a, {a})
            for b in (a + "0", a + "00", a + "A", a[:-1] + "Z", a[: n // 2] + "Z", "Z" + a):
                if a < b:
                    ask(out, a, b, {a, b})
        return out
    after = state
    ws = job.words
    for before in [None, *(b for b in ws if after is None or b > after)]:
        ask(out, after, before, set())
        ask(out, after, before, {x for x in (after, before) if x})
        # siblings outside the gap, those that continue the bounds among them
        near = {w + c for w in (after, before) if w for c in "0AZ"} | {w for w in (after, before) if w} | {"0", "A", "Z", "ZZ"}
        gap = lambda x: (after is None or x > after) and (before is None or x < before)  # noqa: E731
        ask(out, after, before, {x for x in near if not gap(x)})
        # labels inside the gap are taken: whatever is answered has to be right
        ask(out, after, before, near, judge_room=False)
        if after and len(after) < 3:
            ask(out, after, before, {after + c for c in ALPHA} | near, judge_room=False)
    return out


def grow(job, state, out):
    """Sibling lists made by the generator itself: every sequence of insertions at every gap."""
    sib = list(state)
    for k in range(len(sib) + 1):
        after = sib[k - 1] if k else None
        before = sib[k] if k < len(sib) else None
        got = ask(out, after, before, sib)
        if got and not out.bad and len(sib) < job.steps:
            new = sib[:k] + [got] + sib[k:]
            out.succ.append((tuple(new), (k,)))
    return out

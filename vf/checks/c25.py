"""C25: the path field stores and reads paths unchanged and its lookups mean label prefixes."""

import copy
import itertools
import json
import pickle
import string

from vf import ops as O
from vf.adapters import Scratch
from vf.explore import Job, Out

ID = "C25"
ASSUMPTIONS = [
    "Labels are those PostgreSQL's ltree takes (letters, digits, underscore and, from version 16, hyphen); "
    "Subpath is asked for positions inside the path only.",
]
LABEL = set(string.ascii_letters + string.digits + "_-")


def universe(labels, depth):
    return [p for n in range(depth + 1) for p in itertools.product(labels, repeat=n)]


def jobs(tier):
    big = tier == "thorough"
    return [
        Job("paths", engine="pg", items=universe(("0", "A", "AA", "b"), 3), chunk=4),
        Job("labels", engine="pg", items=universe(("a_b", "-", "A", "Z9", "00") + (("_", "z" * 200) if big else ()), 2), chunk=2),
        Job("paths-icu", engine="icu", items=universe(("0", "A", "a", "_") + (("-", "B") if big else ()), 2), chunk=2),
        Job("deep", engine="pg", items=universe(("A", "AA"), 7 if big else 5), chunk=4),
        Job("text", engine="pg", items=None, chars="Aa0_-. \n\u00e9/*", length=4 if big else 3, chunk=1),
    ]


def initial(job):
    if job.name == "text":
        return [("text", c) for c in job.chars]
    return [*job.items, None]


def show(p):
    return None if p is None else ".".join(p)


def expand(job, state):
    out = Out()
    if job.name == "text":
        return texts(job, state[1], out)
    from vf.app.models import LTBox

    with Scratch() as sc:
        fill(job.items, state)
        if state is not None:
            c = C(job, state, out, sc, LTBox)
            c.values()
            c.lookups()
            c.expressions()
            c.objects()
        else:
            c = C(job, state, out, sc, LTBox)
            c.nulls()
    return out


def fill(items, p):
    from django.db import connection

    with connection.cursor() as cur:
        cur.executemany(
            'INSERT INTO vf_ltbox ("desc", path, other) VALUES (%s, %s::ltree, %s::ltree)',
            [("u", show(q), show(p)) for q in items[::-1]] + [("u", None, show(p))],
        )


class C:
    def __init__(self, job, p, out, sc, model):
        self.items, self.p, self.out, self.sc, self.m = job.items, p, out, sc, model
        self.job = job

    def guard(self, op, call):
        self.out.n += 1
        with self.sc.probe():
            try:
                call()
            except O.Bad as e:
                self.out.violation(op, e.what)
            except Exception as e:  # noqa: BLE001
                self.out.violation(op, f"raised {type(e).__name__}: {e}")

    def stored(self, pk):
        from django.db import connection

        with connection.cursor() as cur:
            cur.execute("SELECT path::text FROM vf_ltbox WHERE id = %s", [pk])
            return cur.fetchone()[0]

    def same(self, got, what, want=None):
        from treebeard.ltree import PathValue

        want = self.p if want is None else want
        if not isinstance(got, PathValue):
            raise O.Bad(f"{what} is {got!r} of type {type(got).__name__}")
        if list(got) != list(want) or str(got) != show(want) or got != PathValue(list(want)) or len(got) != len(want):
            raise O.Bad(f"{what} is {got!r}, expected {show(want)!r}")

    def rows(self, qs):
        return sorted(tuple(v) if v is not None else ("\0",) for v in qs.filter(desc="u").order_by().values_list("path", flat=True))

    def is_set(self, qs, want, what):
        got = self.rows(qs)
        want = sorted(want)
        if got != want:
            more, less = [show(x) for x in got if x not in want], [show(x) for x in want if x not in got]
            raise O.Bad(f"{what}: {len(got)} rows, too many: {more[:5]}, missing: {less[:5]}")

    # --------------------------------------------------- storing and reading
    def forms(self):
        from treebeard.ltree import PathValue

        text = show(self.p)
        return [("text", text), ("list", list(self.p)), ("PathValue", PathValue(text)),
                ("PathValue of list", PathValue(list(self.p))), ("slice", PathValue([*self.p, "x"])[:-1]),
                ("sum", PathValue(list(self.p[:1])) + list(self.p[1:]))]  # fmt: skip

    def values(self):
        m = self.m
        for name, v in self.forms():

            def save():
                b = m(desc="new", path=v)
                self.same(b.path, "the attribute before saving")
                b.save()
                self.same(b.path, "the attribute after saving")
                check(b.pk)

            def create():
                check(m.objects.create(desc="new", path=v).pk)

            def assign():
                b = m.objects.create(desc="new", path="X.Y")
                b.path = v
                b.save()
                self.same(b.path, "the attribute")
                check(b.pk)

            def bulk():
                bs = m.objects.bulk_create([m(desc="new", path=v), m(desc="new", path="Q")])
                check(bs[0].pk)
                bs[1].path = v
                m.objects.bulk_update(bs[1:], ["path"])
                check(bs[1].pk)

            def update():
                b = m.objects.create(desc="new", path="X.Y")
                m.objects.filter(pk=b.pk).update(path=v)
                self.same(m.objects.get(pk=b.pk).path, "the updated path")
                b.refresh_from_db()
                self.same(b.path, "the refreshed path")
                check(b.pk)

            def find():
                self.is_set(m.objects.filter(path=v), [self.p], "filter(path=)")
                self.is_set(m.objects.exclude(path=v), [q for q in self.items if q != self.p] + [("\0",)], "exclude(path=)")
                self.is_set(m.objects.filter(path__in=[v, "X.Y"]), [self.p], "filter(path__in=)")
                got = m.objects.filter(desc="u").get(path=v)
                self.same(got.path, "get(path=)")

            def check(pk):
                if self.stored(pk) != show(self.p):
                    raise O.Bad(f"stored as {self.stored(pk)!r} instead of {show(self.p)!r}")
                self.same(m.objects.get(pk=pk).path, "the path read back")
                self.same(m.objects.values_list("path", flat=True).get(pk=pk), "values_list()")
                self.same(m.objects.values("path").get(pk=pk)["path"], "values()")
                self.same(m.objects.only("desc").get(pk=pk).path, "the deferred path")

            for fn in (save, create, assign, bulk, update, find):
                self.guard((show(self.p), fn.__name__, name), fn)
        self.out.notes.add(("len", len(self.p)))

    # -------------------------------------------------------------- lookups
    def lookups(self):
        from django.db.models import Exists, F, OuterRef

        m, p, items = self.m, self.p, self.items
        k = len(p)
        pre = [q for q in items if q == p[: len(q)]]
        post = [q for q in items if q[:k] == p]
        cases = [("ancestors", pre), ("descendants", post), ("exact", [p]), ("gt", [q for q in items if q > p]),
                 ("gte", [q for q in items if q >= p]), ("lt", [q for q in items if q < p]), ("lte", [q for q in items if q <= p])]  # fmt: skip
        for look, want in cases:
            for name, v in (*self.forms()[:3], ("F", F("other"))):
                self.guard(
                    (show(p), "filter", look, name), lambda: self.is_set(m.objects.filter(**{"path__" + look: v}), want, f"path__{look}={show(p)!r}")
                )
            self.out.notes.add((look, min(len(want), 3)))
        outside = [q for q in items if q not in set(post)] + [("\0",)]
        self.guard((show(p), "exclude", "descendants"), lambda: self.is_set(m.objects.exclude(path__descendants=show(p)), outside, "exclude"))
        for look, want in (("", lambda n: n == k), ("__lte", lambda n: n <= k), ("__gt", lambda n: n > k), ("__lt", lambda n: n < k), ("__gte", lambda n: n >= k)):
            self.guard(
                (show(p), "depth" + look),
                lambda: self.is_set(m.objects.filter(**{"path__depth" + look: k}), [q for q in items if want(len(q))], f"path__depth{look}={k}"),
            )
        both = [q for q in post if len(q) == k + 1]
        self.guard((show(p), "children"), lambda: self.is_set(m.objects.filter(path__descendants=list(p), path__depth=k + 1), both, "children"))

        def outer():
            inner = m.objects.filter(desc="u", path__descendants=OuterRef("path"), path__depth__gt=k)
            got = self.rows(m.objects.filter(Exists(inner)))
            want = sorted(q for q in items if any(len(r) > k and r[: len(q)] == q for r in items))
            if got != want:
                raise O.Bad(f"Exists(OuterRef): {len(got)} rows instead of {len(want)}")

        self.guard((show(p), "outer"), outer)

        def order():
            got = [None if v is None else tuple(v) for v in m.objects.filter(desc="u").order_by("path").values_list("path", flat=True)]
            if got != [*sorted(items), None]:
                raise O.Bad("order_by('path') is not the order of the label lists")
            last = m.objects.filter(desc="u", path__lt=list(p)).order_by("path").last()
            want = max((q for q in items if q < p), default=None)
            if (last and tuple(last.path)) != want:
                raise O.Bad(f"last before {show(p)} is {last and last.path}, expected {show(want)}")

        self.guard((show(p), "order"), order)

    # ---------------------------------------------------------- expressions
    def expressions(self):
        from django.db.models import F, Value
        from django.db.models.functions import Concat

        from treebeard.ltree.fields import Ltree2Text, NLevel, PathField, Subpath, Text2LTree

        m, p = self.m, self.p
        one = m.objects.filter(desc="u", path=show(p))

        def ask(**kw):
            return one.annotate(**kw).values_list(*kw).get()

        def cut(pos, n):
            got = ask(x=Subpath("path", pos) if n is None else Subpath(F("path"), pos, n))[0]
            self.same(got, f"Subpath({pos}, {n})", p[pos:] if n is None else p[pos : pos + n])

        for pos in range(len(p)):
            self.guard((show(p), "Subpath", pos), lambda: cut(pos, None))
            for n in range(0, len(p) - pos + 1):
                self.guard((show(p), "Subpath", pos, n), lambda: cut(pos, n))

        def negative():
            try:
                Subpath("path", -1)
            except ValueError:
                return
            raise O.Bad("Subpath accepts a negative position")

        def convert():
            text, path, n = ask(a=Ltree2Text("path"), b=Text2LTree(Ltree2Text("path")), c=NLevel("path"))
            if text != show(p):
                raise O.Bad(f"Ltree2Text: {text!r}")
            self.same(path, "Text2LTree")
            if n != len(p):
                raise O.Bad(f"NLevel: {n!r}")

        def join():
            got = one.annotate(x=Concat(Value("R.S", output_field=PathField()), F("path"), output_field=PathField())).values_list("x", flat=True).get()
            self.same(got, "R.S || path", ("R", "S", *p))

        def swap():
            m.objects.filter(desc="u", path__descendants=show(p)).update(path=Concat(Value("R.S", output_field=PathField()), F("path")))
            moved = [("R", "S", *q) for q in self.items if q[: len(p)] == p]
            self.is_set(m.objects.filter(path__descendants="R.S"), moved, "moved branch")

        for fn in (negative, convert, join, swap):
            self.guard((show(p), fn.__name__), fn)

    # -------------------------------------------------------------- objects
    def objects(self):
        from django.core import serializers
        from django.forms import modelform_factory

        from treebeard.ltree import PathValue

        m, p = self.m, self.p

        def slices():
            b = m(path=show(p))
            for i in range(len(p) + 1):
                self.same(b.path[:i], f"path[:{i}]", p[:i])
                self.same(b.path[i:], f"path[{i}:]", p[i:])
                if i < len(p) and (b.path[i] != p[i] or b.path[i - len(p)] != p[i]):
                    raise O.Bad(f"path[{i}] is {b.path[i]!r}")
            self.same(b.path + ["N"], "path + [label]", (*p, "N"))
            v = b.path
            v.append("N")
            self.same(b.path, "the attribute after its copy was changed")
            for q in self.items:
                if (PathValue(list(p)) == PathValue(list(q))) != (p == q):
                    raise O.Bad(f"equality with {show(q)}")

        def again():
            b = m.objects.filter(desc="u").get(path=show(p))
            for what, o in (("copy", copy.copy(b)), ("deepcopy", copy.deepcopy(b)), ("pickle", pickle.loads(pickle.dumps(b)))):
                self.same(o.path, what)
            b.pk = None
            b._state.adding = True
            b.save()
            if self.stored(b.pk) != show(p):
                raise O.Bad("copied row differs")

        def dumped():
            b = m.objects.create(desc="new", path=show(p))
            for fmt in ("python", "json", "xml"):
                data = serializers.serialize(fmt, [b])
                if fmt == "json":
                    json.loads(data)
                m.objects.filter(pk=b.pk).update(path="X.Y")
                for o in serializers.deserialize(fmt, data):
                    o.save()
                if self.stored(b.pk) != show(p):
                    raise O.Bad(f"after a round trip through {fmt} the path is {self.stored(b.pk)!r}")

        def form():
            fc = modelform_factory(m, fields=["path"])
            b = m.objects.create(desc="new", path=show(p))
            if p and f'value="{show(p)}"' not in str(fc(instance=b)["path"]):
                raise O.Bad(f"rendered as {fc(instance=b)['path']}")
            f = fc({"path": show(p)}, instance=m.objects.create(desc="new", path="X.Y"))
            if f.is_valid() != bool(p):
                raise O.Bad(f"form says {f.errors.as_json()}")
            if p:
                f.save()
                if self.stored(f.instance.pk) != show(p):
                    raise O.Bad(f"the form saved {self.stored(f.instance.pk)!r}")

        for fn in (slices, again, dumped, form):
            self.guard((show(p), fn.__name__), fn)

    # ----------------------------------------------------------------- NULL
    def nulls(self):
        m = self.m

        def store():
            b = m.objects.create(desc="new", path=None)
            if b.path is not None or self.stored(b.pk) is not None or m.objects.get(pk=b.pk).path is not None:
                raise O.Bad("None is not stored as NULL and read as None")
            b.path = "A"
            b.save()
            b.path = None
            b.save()
            if self.stored(b.pk) is not None or m.objects.only("desc").get(pk=b.pk).path is not None:
                raise O.Bad("None is not stored as NULL")

        def find():
            self.is_set(m.objects.filter(path__isnull=True), [("\0",)], "isnull")
            self.is_set(m.objects.filter(path=None), [("\0",)], "path=None")
            self.is_set(m.objects.filter(path__isnull=False), self.items, "not isnull")

        self.guard(("null", "store"), store)
        self.guard(("null", "find"), find)


def texts(job, first, out):
    """A text the validator takes is made of labels and can be stored; one of well-formed labels is taken."""
    from django.core.exceptions import ValidationError
    from django.db import connection

    from treebeard.ltree.fields import PathField
    from vf.app.models import LTBox

    field = LTBox._meta.get_field("path")
    form = PathField().formfield()
    with Scratch() as sc:
        for n in range(job.length):
            for rest in itertools.product(job.chars, repeat=n):
                text = first + "".join(rest)
                for who, clean in (("model", lambda t: field.clean(t, None)), ("form", form.clean)):
                    out.n += 1
                    bare = text.strip() if who == "form" else text
                    good = all(x and set(x) <= LABEL for x in bare.split("."))
                    try:
                        got = clean(text)
                    except ValidationError:
                        if good:
                            out.violation((text, who), "refused although all its labels are valid")
                        out.notes.add("refused")
                        continue
                    except Exception as e:  # noqa: BLE001
                        out.violation((text, who), f"raised {type(e).__name__}: {e}")
                        continue
                    if not all(x and set(x) <= LABEL for x in text.strip().split(".")):
                        out.violation((text, who), f"accepted as {got!r}")
                        continue
                    out.notes.add("accepted")
                    with sc.probe():
                        try:
                            b = LTBox.objects.create(desc="new", path=got)
                            with connection.cursor() as cur:
                                cur.execute("SELECT path::text FROM vf_ltbox WHERE id = %s", [b.pk])
                                have = cur.fetchone()[0]
                            if have != text.strip():
                                out.violation((text, who), f"accepted, stored as {have!r}")
                        except Exception as e:  # noqa: BLE001
                            out.violation((text, who), f"accepted but storing it raised {type(e).__name__}: {e}")
    return out

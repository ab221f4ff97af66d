"""C17: MoveNodeForm creates and moves nodes as its fields say."""

from html import escape

from vf import forest as F
from vf import jobs as J
from vf import ops as O
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.explore import Job, Out

ID = "C17"
TRACE_STRICT = False
ASSUMPTIONS = [
    "Without a reference node the form says only that the node is a root: its place among the roots is not judged, the order of "
    "the other roots is.",
    "An edit that leaves the position fields as offered and changes no node_order_by field leaves the tree alone.",
]


def jobs(tier):
    big = tier == "thorough"
    std = [(F.shape_parents(s), None, None) for k in range(6 if big else 5) for s in F.shapes(k)]
    gaps = [(p, None, [1, 0, 2, 0, 1]) for p, _, _ in std if len(p) > 1]
    mix = [([None, 0, 0, None, 3], None, None), J.MIX] if big else [([None, 0, 0, None, 3], None, None)]
    key = [
        ([None, None], [(1,), (3,)], None),
        ([None, None], [(2,), (2,)], None),
        ([None, 0, 0], [(2,), (1,), (3,)], None),
        ([None, 0, 0, None], [(1,), (1,), (3,), (3,)], None),
        ([None, None, None, 2], [(1,), (2,), (2,), (1,)], None),
    ]
    if big:
        key += [([None, 0, 1, None], [v, (2,), (1,), (3,)], None) for v in ((1,), (2,), (3,))]
    few = mix if big else [([None, 0, None], None, None)]
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std", adapter=k + "Std", seeds=std + mix + (gaps if k != "NS" else []), chunk=1, **pg))
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=key, chunk=1, **pg))
        js.append(Job(k + "SortD", adapter=k + "SortD", seeds=[(p, [(4 - v[0],) for v in vs], g) for p, vs, g in key[: 5 if big else 3]], chunk=1, **pg))
        js.append(Job(k + "Proxy", adapter=k + "Std", via=k + "StdProxy", seeds=mix, chunk=1, **pg))
        js.append(Job(k + "ProxyProxy", adapter=k + "Std", via=k + "StdProxyProxy", seeds=mix, chunk=1, **pg))
        for v in ("GrandChild", "ChildProxy"):
            js.append(Job(k + v, adapter=k + "Std", via=k + "Std" + v, seeds=few, child=True, chunk=1, **pg))
            js.append(Job(k + v + "-mixed", adapter=k + "Std", via=k + "Std" + v, seeds=few, child="some", chunk=1, **pg))
        js.append(Job(k + "Child", adapter=k + "Std", via=k + "StdChild", seeds=mix, child=True, chunk=1, **pg))
        js.append(Job(k + "Mixed", adapter=k + "Std", via=k + "StdChild", seeds=mix, child="some", chunk=1, **pg))
        js.append(Job(k + "Std-hostile", adapter=k + "Std", hostile=True, seeds=few, chunk=1, **pg))
        js.append(Job(k + "Uuid", adapter=k + "Uuid", seeds=mix[:1], chunk=1, **pg))
    # no room: a full list of siblings, the full height
    full = [([None] * 3, None, None), ([None, 0, 0, 0], None, None), ([None, 0, 1], None, None), ([None, 0, 1, 1, 1], None, None)]
    fits = [s for s in std if all(s[0].count(p) < 4 for p in (None, *range(5))) and all(len(F.Forest.from_parents(enumerate(s[0])).ancestors(i)) < 3 for i in range(len(s[0])))]
    js.append(Job("MPTiny", adapter="MPTiny", seeds=full + fits, chunk=1))
    return js


def initial(job):
    return treeops.expand_seed(job)


class Ctx:
    pass


def expand(job, state):
    from treebeard.forms import movenodeform_factory

    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    c = Ctx()
    with Scratch(ad.alias) as sc:
        pks = ad.restore(state)
        if getattr(job, "child", False):
            # the other rows are of the base class: reference nodes only
            c.nodes = pks[::2] if job.child == "some" else pks
            treeops.child_rows(ad, model, c.nodes)
        if getattr(job, "hostile", False):
            with ad.conn.cursor() as cur:
                cur.execute(f"UPDATE {ad.bmeta.db_table} SET \"desc\" = %s || \"desc\"", ["<b>&amp;\"'"])
        c.ad, c.model, c.out, c.sc, c.pks = ad, model, out, sc, pks
        c.rows = ad.read()
        c.f = ad.forest(c.rows)
        c.form = movenodeform_factory(model)
        c.names = {pk: d["desc"] for pk, d in c.rows.items()}
        choose(c)
        for node in [None, *getattr(c, "nodes", pks)]:
            offered(c, node)
            if node is not None:
                resubmit(c, node)
            for ref in [None, *pks]:
                poss = ("sorted-child", "sorted-sibling") if ad.order_by else ("first-child", "left", "right")
                for pos in poss:
                    submit(c, node, ref, pos)
            refused(c, node)
    return out


def fetch(c, pk):
    return None if pk is None else c.model.objects.get(pk=pk)


def guard(c, op, call):
    """Run `call` under a savepoint; it raises O.Bad when it does not like what it sees."""
    c.out.n += 1
    with c.sc.probe():
        try:
            call()
        except O.Bad as e:
            c.out.violation(op, e.what)
        except Exception as e:  # noqa: BLE001
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-1]
            c.out.violation(op, f"raised {type(e).__name__}: {e} ({tb.filename}:{tb.lineno})")


def value(form, name):
    """What the browser would send for a field the user leaves alone."""
    v = form[name].value()
    v = form.fields[name].prepare_value(v)
    return "" if v is None else str(v)


def unbound(c, node):
    obj = fetch(c, node)
    return c.form() if obj is None else c.form(instance=obj)


def offered(c, node):
    """The choices for the reference node: every node that is not below the edited one, once, in tree order."""

    def call():
        form = unbound(c, node)
        got = [str(v) for v, _ in form.fields["treebeard_ref_node"].choices]
        html = str(form["treebeard_ref_node"])
        below = set() if node is None else set(c.f.dfs(node))
        want = [pk for pk in c.f.dfs() if pk not in below]
        if got[:1] != [""] and got[:1] != ["None"]:
            raise O.Bad(f"no choice for a root: {got[:1]}")
        ids = got[1:]
        tied = c.ad.kind == "AL" and c.ad.order_by
        if (sorted(ids) if tied else ids) != (sorted(map(str, want)) if tied else list(map(str, want))):
            raise O.Bad(f"choices {[c.names.get(p) for p in c.pks for i in ids if str(p) == i]} ({ids}), expected {[c.names[p] for p in want]}")
        for pk in c.pks:
            if (f'value="{pk}"' in html) != (pk in want):
                raise O.Bad(f"the rendered list is wrong about {c.names[pk]}")
        for v, label in list(form.fields["treebeard_ref_node"].choices)[1:]:
            pk = next(p for p in c.pks if str(p) == str(v))
            if str(label) != "&nbsp;" * 4 * (c.f.depth(pk) - 1) + escape(c.names[pk]) or str(label) not in html:
                raise O.Bad(f"label {label!r} for {c.names[pk]} at depth {c.f.depth(pk)}")
        pos = [v for v, _ in form.fields["treebeard_position"].choices]
        if sorted(pos) != sorted(("sorted-child", "sorted-sibling") if c.ad.order_by else ("first-child", "left", "right")):
            raise O.Bad(f"positions offered: {pos}")

    guard(c, ("offered", c.names.get(node)), call)


def choose(c):
    """TreeNodeChoiceField on its own: one indented choice per node of the queryset, in its order, and the choice is the node."""
    from django.core.exceptions import ValidationError
    from django.utils.safestring import mark_safe

    from treebeard.forms import TreeNodeChoiceField

    if c.ad.kind == "AL":  # documented as unsuitable
        return
    m, f = c.model.objects, c.f
    mine = set(getattr(c, "nodes", c.pks))

    class Dashes(TreeNodeChoiceField):
        DEPTH_SEPARATOR = "<-"

    class Bullet(TreeNodeChoiceField):
        DEPTH_SEPARATOR = mark_safe("<i></i>")

    sets = [("get_tree()", lambda: m.get_tree(), f.dfs()), ("get_root_nodes()", lambda: m.get_root_nodes(), f.roots)]
    sets.append(("get_tree().filter()", lambda: m.get_tree().filter(pk__in=c.pks[::2]), [i for i in f.dfs() if i in c.pks[::2]]))
    for pk in sorted(mine, key=str)[:2]:
        sets.append(("get_descendants()", lambda pk=pk: m.get_descendants(m.get(pk=pk), include_self=True), f.dfs(pk)))
    for what, qs, want in sets:
        for cls, sep in ((TreeNodeChoiceField, "&nbsp;" * 4), (Dashes, "&lt;-"), (Bullet, "<i></i>")):
            for kw in ({}, {"required": False}, {"empty_label": None}, {"to_field_name": "desc"}):
                if kw and cls is not TreeNodeChoiceField:
                    continue

                def call():
                    field = cls(queryset=qs(), **kw)
                    key = (lambda pk: c.rows[pk]["desc"]) if kw.get("to_field_name") else str
                    got = [(str(v), str(t)) for v, t in field.choices]
                    if kw.get("empty_label", "") is not None:
                        if [v for v, _ in got[:1]] != [""]:
                            raise O.Bad(f"the first choice is not the empty one: {got[:1]}")
                        got = got[1:]
                    exp = [(key(pk), sep * (f.depth(pk) - 1) + escape(c.names[pk])) for pk in want]
                    if got != exp:
                        raise O.Bad(f"choices {got}, expected {exp}")
                    html = field.widget.render("x", key(want[0]) if want else None)
                    at = [html.find(">" + t + "<") for _, t in exp]
                    if -1 in at or at != sorted(at):
                        raise O.Bad(f"rendered as {html}")
                    for pk in c.pks:
                        try:
                            r = field.clean(key(pk)).pk
                        except ValidationError:
                            r = None
                        if r != (pk if pk in want else None):
                            raise O.Bad(f"choosing {c.names[pk]} gives {c.names.get(r, r)}")
                    try:
                        r = field.clean("")
                        if kw.get("required", True):
                            raise O.Bad("an empty choice is accepted")
                        if r is not None:
                            raise O.Bad(f"an empty choice gives {r}")
                    except ValidationError:
                        if not kw.get("required", True):
                            raise O.Bad("an empty choice is refused") from None

                guard(c, ("choice field", cls.__name__, what, kw), call)


def same_place(c, node, ref, pos):
    """Does (ref, pos) name the place the node is at?"""
    f = c.f
    if ref is None:
        return f.par[node] is None
    if node in (ref, *f.ancestors(ref)):
        return False
    if c.ad.order_by:
        return f.par[node] == (ref if pos == "sorted-child" else f.par[ref])
    g = f.copy()
    g.move(node, ref, pos)
    return g == f


def resubmit(c, node):
    """The initial values describe the place; sent back unchanged they change nothing, with other fields changed only those."""

    def fields(form, **other):
        data = {name: value(form, name) or ("x" if name in ("extra", "more") else "") for name in form.fields}
        for k, v in other.items():
            data[k] = v
        return data

    def ref_of(form):
        v = value(form, "treebeard_ref_node")
        return next((p for p in c.pks if str(p) == v), None)

    def call(other):
        form = unbound(c, node)
        ref, pos = ref_of(form), value(form, "treebeard_position")
        if not same_place(c, node, ref, pos):
            raise O.Bad(f"initial values ({c.names.get(ref)}, {pos}) do not describe the place of {c.names[node]} in {c.f.show(c.names)}")
        data = fields(form, **other)
        bound = c.form(data, instance=fetch(c, node))
        if not bound.is_valid():
            raise O.Bad(f"refused: {bound.errors.as_json()}")
        bound.save()
        judge(c, node, None, None, bound.instance, data, still=True)

    guard(c, ("resubmit", c.names[node]), lambda: call({}))
    guard(c, ("resubmit", c.names[node], "desc"), lambda: call({"desc": "other"}))


def submit(c, node, ref, pos):
    ad = c.ad
    for vals in [()] if not ad.keys else [(1,), (2,), (3,)] if ref is None or node is None else [(1,), (3,)]:
        for desc, mode in (("other", ""), ("other", "unsaved"), ("other", "unsaved+initial")) if node is None else ((None, ""), ("other", ""), ("other", "initial")):
            if mode == "unsaved" and vals not in ((), (1,)):
                continue

            def call():
                data = {"desc": desc or c.names[node], "treebeard_position": pos, "treebeard_ref_node": "" if ref is None else str(ref)}
                data.update(zip(ad.keys, map(str, vals)), extra="x", more="x")
                kw = {} if node is None else {"instance": fetch(c, node)}
                if mode.startswith("unsaved"):
                    kw["instance"] = c.model(desc="unsaved")
                if mode.endswith("initial"):
                    kw["initial"] = {"treebeard_position": pos, "treebeard_ref_node": ref}
                form = c.form(data, **kw)
                below = node is not None and ref is not None and ref in c.f.dfs(node)
                if form.is_valid() == below:
                    raise O.Bad("accepted a reference node below the edited node" if below else f"refused: {form.errors.as_json()}")
                if below:
                    c.out.notes.add("below")
                    return
                # the same request to the tree, to know whether there is room for it
                if ref is None:
                    op = ("root", "k", ()) if node is None else ("move", c.pks.index(node), c.pks.index(c.f.roots[0]), "left")
                elif node is None:
                    t = c.pks.index(ref)
                    op = ("child", t, "k", ()) if pos.endswith("child") else ("sib", t, pos, "k", ())
                else:
                    op = ("move", c.pks.index(node), c.pks.index(ref), pos)
                room = O.room_for(ad, c.f, c.rows, op, c.pks)
                try:
                    saved = form.save()
                except Exception as e:  # noqa: BLE001
                    if type(e).__name__ != "PathOverflow" or room == "yes":
                        raise
                    if ad.read() != c.rows:
                        raise O.Bad("raised PathOverflow but the stored tree changed") from None
                    c.out.notes.add("overflow")
                    return
                if room == "no":
                    raise O.Bad("accepted although the new path does not fit")
                judge(c, node, ref, pos, saved, data)

            guard(c, ("submit", c.names.get(node), c.names.get(ref), pos, vals, desc, *([mode] if mode else [])), call)


def judge(c, node, ref, pos, saved, data, still=False):
    ad, f = c.ad, c.f
    rows = ad.read()
    try:
        g = ad.forest(rows)
    except Malformed as e:
        raise O.Bad(f"stored tree is malformed afterwards: {e}") from None
    names = {pk: d["desc"] for pk, d in rows.items()}
    show = lambda: f"{f.show(c.names)} -> {g.show(names)}"  # noqa: E731
    fresh = set(rows) - set(c.rows)
    who = node
    if node is None:
        if len(fresh) != 1 or set(c.rows) - set(rows):
            raise O.Bad(f"{len(fresh)} nodes appeared; {show()}")
        who = fresh.pop()
    elif set(rows) != set(c.rows):
        raise O.Bad(f"nodes appeared or disappeared; {show()}")
    if saved is None or saved.pk != who:
        raise O.Bad(f"save() returned {saved!r}")
    # values
    want = {"desc": data["desc"], **{k: int(data[k]) for k in ad.keys}}
    if {k: rows[who][k] for k in want} != want:
        raise O.Bad(f"stored values {({k: rows[who][k] for k in want})}, sent {want}")
    O.payload_unchanged(c.rows, rows, ("desc", *ad.keys), skip=(who,))
    for k in want:
        if getattr(saved, k) != want[k]:
            raise O.Bad(f"returned object has {k}={getattr(saved, k)!r}")
    if O.position_of(ad, saved) != {k: rows[who][k] for k in ad.phys}:
        raise O.Bad(f"returned object says {O.position_of(ad, saved)}, stored {rows[who]}")
    # place
    if still:
        if g != f:
            raise O.Bad(f"the tree changed: {show()}")
        return
    same_keys = node is not None and all(c.rows[node][k] == want[k] for k in ad.keys)
    unchanged = same_keys and ad.order_by and f.par[node] == (None if ref is None else ref if pos == "sorted-child" else f.par[ref])
    if ref is None:
        # anywhere among the roots
        parent = None
        loose = True
    else:
        parent = ref if pos.endswith("child") else f.par[ref]
        loose = bool(ad.order_by)
    if loose:
        try:
            if ad.order_by:
                O.check_sorted_place(ad, f, g, rows, who, parent)
            else:
                if g.par.get(who, "gone") is not None:
                    raise O.Bad("the node is not a root")
                for p in set(f.ch) | {None}:
                    if [x for x in f.kids(p) if x != who] != [x for x in g.kids(p) if x != who]:
                        raise O.Bad(f"children of {c.names.get(p)} changed")
                if node is not None and f.ch[node] != g.ch[node]:
                    raise O.Bad("children of the moved node changed")
        except O.Bad as e:
            if not (unchanged and g == f):
                raise O.Bad(f"{e.what}; {show()}") from None
    else:
        h = f.copy()
        if node is None:
            if pos == "first-child":
                h.ch[who] = []
                h._attach(who, ref, 0)
            else:
                h.add_sibling(ref, pos, who)
        else:
            h.move(node, ref, pos)
        if g != h:
            raise O.Bad(f"tree is {g.show(names)}, expected {h.show(names)} (was {f.show(c.names)})")
    c.out.notes.add((node is None, ref is None, pos, f.par[node] is None if node else None))


def refused(c, node):
    """Invalid input is refused and nothing is written."""
    bad = [
        {"treebeard_position": "bogus"},
        {"treebeard_position": ""},
        {"treebeard_position": "last-child"},
        {"treebeard_position": "left" if c.ad.order_by else "sorted-child"},
        {"treebeard_ref_node": "987654321" if not c.ad.uuid else "00000000-0000-0000-0000-00000000dead"},
        {"treebeard_ref_node": "x"},
        {"desc": ""},
    ]
    for other in bad:

        def call():
            data = {"desc": "other", "treebeard_position": "sorted-child" if c.ad.order_by else "first-child", "treebeard_ref_node": ""}
            data.update(dict.fromkeys(c.ad.keys, "2"))
            data.update(other)
            form = c.form(data) if node is None else c.form(data, instance=fetch(c, node))
            if form.is_valid():
                raise O.Bad("accepted")
            if c.ad.read() != c.rows:
                raise O.Bad("the stored tree changed")

        guard(c, ("invalid", c.names.get(node), other), call)


def replay(job, start, ops, target):
    if treeops.get_adapter(job.adapter).order_by:
        return "skip"
    return treeops.replay(job, start, (), None)

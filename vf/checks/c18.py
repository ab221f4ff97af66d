"""C18: the admin acts on the tree, and shows it, faithfully."""

import itertools
import json
import logging
import re

from vf import forest as F
from vf import jobs as J
from vf import ops as O
from vf import treeops
from vf.adapters import Malformed, Scratch
from vf.checks import c17
from vf.explore import Job, Out

ID = "C18"
TRACE_STRICT = False
ASSUMPTIONS = [
    "Requests are made with django.test.Client against an AdminSite on which every tree model is registered with a TreeAdmin; "
    "JavaScript is not run, what the browser shows is taken from the tree-context JSON and the result rows.",
    "A TreeAdmin of a multi-table child model lists the nodes that are instances of that model.",
]


def jobs(tier):
    big = tier == "thorough"
    std = [(F.shape_parents(s), None, None) for k in range(5 if big else 4) for s in F.shapes(k)]
    mix = [([None, 0, 0, None, 3], None, None)]
    wide = [([None] * 5, None, None), ([None, 0, 0, 0, 0, 0, 1, 1, 1], None, None), J.MIX]
    gaps = [(p, None, [1, 0, 2, 0, 1]) for p, _, _ in std if len(p) > 1]
    key = [
        ([None, None], [(1,), (3,)], None),
        ([None, None, None], [(2,), (2,), (2,)], None),
        ([None, 0, 0, 0, None], [(1,), (1,), (3,), (3,), (3,)], None),
        ([None, None, None, 2], [(1,), (2,), (2,), (1,)], None),
    ]
    flip = [(p, [(4 - v[0],) for v in vs], g) for p, vs, g in key]
    few = mix if big else [([None, 0, None], None, None)]
    js = []
    for k in ("MP", "NS", "AL", "LT"):
        pg = {"engine": "pg"} if k == "LT" else {}
        js.append(Job(k + "Std", adapter=k + "Std", seeds=std + mix + (gaps if big and k != "NS" else []), inline=True, chunk=1, **pg))
        js.append(Job(k + "Std-lists", adapter=k + "Std", seeds=wide, lists=True, chunk=1, **pg))
        js.append(Job(k + "Sort", adapter=k + "Sort", seeds=key, chunk=1, **pg))
        js.append(Job(k + "SortD", adapter=k + "SortD", seeds=flip[: 4 if big else 1], chunk=1, **pg))
        js.append(Job(k + "Proxy", adapter=k + "Std", via=k + "StdProxy", seeds=mix, chunk=1, **pg))
        js.append(Job(k + "ProxyProxy", adapter=k + "Std", via=k + "StdProxyProxy", seeds=mix, chunk=1, **pg))
        for v in ("GrandChild", "ChildProxy"):
            js.append(Job(k + v, adapter=k + "Std", via=k + "Std" + v, seeds=few, child=True, chunk=1, **pg))
            js.append(Job(k + v + "-mixed", adapter=k + "Std", via=k + "Std" + v, seeds=few, child="some", chunk=1, **pg))
        js.append(Job(k + "Child", adapter=k + "Std", via=k + "StdChild", seeds=mix, child=True, chunk=1, **pg))
        js.append(Job(k + "Mixed", adapter=k + "Std", via=k + "StdChild", seeds=mix, child="some", chunk=1, **pg))
        js.append(Job(k + "Uuid", adapter=k + "Uuid", seeds=mix, chunk=1, **pg))
    full = [([None] * 3, None, None), ([None, 0, 0, 0], None, None), ([None, 0, 1], None, None), ([None, 0, 1, 1, 1, None], None, None)]
    js.append(Job("MPTiny", adapter="MPTiny", seeds=full, chunk=1))
    return js


def initial(job):
    return treeops.expand_seed(job)


# ---------------------------------------------------------------- clients
_clients = {}


def clients():
    """One client per role; the users and permissions stay in the private database of the worker."""
    if _clients:
        return _clients
    logging.getLogger("django.request").setLevel(logging.CRITICAL + 1)
    from django.contrib.auth.models import Permission, User
    from django.contrib.contenttypes.models import ContentType
    from django.test import Client

    from vf import urls

    everything, mine = [], {}
    for model in urls.site._registry:
        ct = ContentType.objects.get_for_model(model, for_concrete_model=False)
        for a in ("add", "change", "delete", "view"):
            p, _ = Permission.objects.get_or_create(content_type=ct, codename=f"{a}_{model._meta.model_name}", defaults={"name": a})
            mine.setdefault(a, {})[model] = p
            everything.append(p)
    roles = {
        "super": None,
        "change": list(mine["change"].values()),
        "view": list(mine["view"].values()),
        "add": list(mine["add"].values()),
        "delete": list(mine["delete"].values()),
        "nothing": [],
    }
    for name, perms in roles.items():
        u = User.objects.create(username=name, is_staff=True, is_superuser=perms is None)
        u.user_permissions.set(perms or [])
        _clients[name] = Client(raise_request_exception=True)
        _clients[name].force_login(u)
    _clients["anonymous"] = Client()
    return _clients


class Ctx:
    def call(self, role, method, url, data=None):
        cl = clients()[role]
        cl.cookies.pop("messages", None)
        r = getattr(cl, method)(self.base + url, data or {})
        if hasattr(r, "render") and not r.is_rendered:
            r.render()
        return r


def expand(job, state):
    clients()
    from vf import urls

    urls.DENY.clear()
    ad = treeops.get_adapter(job.adapter)
    model = treeops.driver(job)
    out = Out()
    c = Ctx()
    with Scratch(ad.alias) as sc:
        pks = ad.restore(state)
        mine = pks
        if getattr(job, "child", False):
            mine = pks[::2] if job.child == "some" else pks
            treeops.child_rows(ad, model, mine)
        c.ad, c.model, c.out, c.sc, c.pks, c.mine, c.deny = ad, model, out, sc, pks, mine, urls.DENY
        c.mixed = getattr(job, "child", False) == "some"
        c.rows = ad.read()
        c.f = ad.forest(c.rows)
        c.names = {pk: d["desc"] for pk, d in c.rows.items()}
        c.base = f"/admin/vf/{model._meta.model_name}/"
        c.inline = f"{model.__name__[:2].lower()}dep_set" if getattr(job, "inline", False) or getattr(job, "lists", False) else None
        lists(c, urls.PER_PAGE)
        missing(c)
        if not getattr(job, "lists", False):
            moves(c)
            edits(c)
            deletes(c)
    return out


def unchanged(c, what):
    if c.ad.read() != c.rows:
        raise O.Bad(f"{what}, but the stored tree changed")


# ------------------------------------------------------------------ lists
def lists(c, per_page):
    f, ad = c.f, c.ad
    tied = ad.kind == "AL" and ad.order_by

    def page(parent, n):
        if parent is None:
            r = c.call("super", "get", f"?p={n}" if n > 1 else "")
            html = r.content.decode()
            ctx = json.loads(re.search(r'<script id="tree-context" type="application/json">(.*?)</script>', html, re.S).group(1))
            body = html[html.index('id="result_list"') :] if 'id="result_list"' in html else ""
            return body, ctx, None
        r = c.call("super", "get", f"children/{parent}/" + (f"?p={n}" if n > 1 else ""))
        d = json.loads(r.content)
        return d["result_html"], d["tree_context"], d

    def listing(parent):
        kids = [p for p in f.kids(parent) if p in c.mine]
        pages = max(1, -(-len(kids) // per_page))
        seen = []
        for n in range(1, pages + 1):
            html, ctx, d = page(parent, n)
            shown = [x for x in re.findall(rf'href="{c.base}([^/"]+)/change/', html)]
            ids = [x["node-id"] for x in ctx]
            if shown != ids:
                raise O.Bad(f"rows show {shown}, their context is for {ids}")
            if d is not None and (d["page"], d["num_pages"]) != (n, pages):
                raise O.Bad(f"page {n} of {pages} says it is {d['page']} of {d['num_pages']}")
            seen += ctx
        by = {str(p): p for p in c.pks}
        got = [by.get(x["node-id"], x["node-id"]) for x in seen]
        if tied:
            ok = sorted(map(str, got)) == sorted(map(str, kids)) and [ad.payload(c.rows[p]) for p in got] == [ad.payload(c.rows[p]) for p in kids]
        else:
            ok = got == kids
        if not ok:
            raise O.Bad(f"shows {[c.names.get(p, p) for p in got]}, expected {[c.names[p] for p in kids]}")
        for x in seen:
            pk = by[x["node-id"]]
            want = {"parent-id": "0" if parent is None else str(parent), "level": f.depth(pk), "has-children": int(bool(f.ch[pk])), "can-change": 1}
            have = {k: x[k] for k in want}
            if c.mixed:
                have.pop("has-children"), want.pop("has-children")
            if have != want:
                raise O.Bad(f"{c.names[pk]} is described by {have}, expected {want}")
        c.out.notes.add(("list", len(kids), parent is None))

    for parent in [None, *c.mine]:
        c17.guard(c, ("list", c.names.get(parent)), lambda: listing(parent))

    def denied(role, url):
        r = c.call(role, "get", url)
        if r.status_code != (302 if role == "anonymous" else 403):
            raise O.Bad(f"{role} got status {r.status_code}")

    def allowed(role, url):
        r = c.call(role, "get", url)
        if r.status_code != 200:
            raise O.Bad(f"{role} got status {r.status_code}")

    for url in ("", *(f"children/{p}/" for p in c.mine[:1])):
        for role in ("nothing", "anonymous"):
            c17.guard(c, ("list", url, role), lambda: denied(role, url))
        for role in ("view", "change"):
            c17.guard(c, ("list", url, role), lambda: allowed(role, url))


def missing(c):
    """Children of nodes that do not exist, or of something that is no id at all."""

    def call(i):
        r = c.call("super", "get", f"children/{i}/")
        if r.status_code != 404:
            raise O.Bad(f"status {r.status_code}")

    other = [p for p in c.pks if p not in c.mine]
    for i in ("987654", "x", "1.5", "00000000-0000-0000-0000-00000000000g", "-", *other):
        c17.guard(c, ("children of", i), lambda: call(i))


# ------------------------------------------------------------------ moves
def moves(c):
    ad, f = c.ad, c.f

    def move(a, t, rel, extra=None):
        pos = {("child", True): "sorted-child", ("child", False): "last-child", ("sibling", True): "sorted-sibling", ("sibling", False): "left"}[
            rel, bool(ad.order_by)
        ]
        op = ("move", c.pks.index(a), c.pks.index(t), pos)
        r = c.call("super", "post", "move/", {"node": str(a), "target": str(t), "relation": rel})
        if r.status_code == 200:
            outcome = ("ok", None, {})
        elif r.status_code == 400:
            rows = ad.read()
            if rows != c.rows:
                raise O.Bad("answered 400, but the stored tree changed")
            # which documented reason there was
            name = "PathOverflow" if O.room_for(ad, f, c.rows, op, c.pks) != "yes" and a not in (t, *f.ancestors(t)) else "InvalidMoveToDescendant"
            outcome = ("exc", type(name, (Exception,), {})("status 400"))
        else:
            raise O.Bad(f"status {r.status_code}")
        O.judge(ad, c.model, f, c.rows, op, c.pks, outcome, api=False)
        c.out.notes.add((rel, r.status_code, f.par[a] == f.par[t]))

    for a in c.mine:
        for t in c.mine:
            for rel in ("child", "sibling"):
                c17.guard(c, ("move", c.names[a], c.names[t], rel), lambda: move(a, t, rel))

    def refused(role, method, data, status, deny=()):
        c.deny.update(deny)
        try:
            r = c.call(role, method, "move/", data)
        finally:
            c.deny.clear()
        if r.status_code != status:
            raise O.Bad(f"status {r.status_code}, expected {status}")
        unchanged(c, f"status {status}")
        c.out.notes.add(("refused", role, status))

    if not c.mine:
        return
    a, t = c.mine[-1], c.mine[0]
    for rel in ("child", "sibling"):
        good = {"node": str(a), "target": str(t), "relation": rel}
        for role, status in (("view", 403), ("nothing", 403), ("add", 403), ("delete", 403), ("anonymous", 302)):
            c17.guard(c, ("move as", role, rel), lambda: refused(role, "post", good, status))
        c17.guard(c, ("move of a node that may not be changed", rel), lambda: refused("super", "post", good, 403, deny=(a,)))
        for k, v in (
            ("node", ""), ("node", "987654"), ("node", "x"), ("target", ""), ("target", "987654"), ("target", "x"),
            ("relation", ""), ("relation", "parent"), ("relation", "left"), ("node", None), ("target", None), ("relation", None),
        ):  # fmt: skip
            bad = {**good, k: v}
            if v is None:
                del bad[k]
            c17.guard(c, ("move", rel, k, v), lambda: refused("super", "post", bad, 400))
        c17.guard(c, ("move by GET", rel), lambda: refused("super", "get", good, 400))

    def as_changer():
        r = c.call("change", "post", "move/", {"node": str(t), "target": str(t), "relation": "sibling"})
        if r.status_code != 200:
            raise O.Bad(f"status {r.status_code} for a user with change permission")

    c17.guard(c, ("move as", "change"), as_changer)


# ------------------------------------------------------------------ edits
def data_for(c, node, ref, pos, vals, desc="other"):
    data = {"desc": desc, "treebeard_position": pos, "treebeard_ref_node": "" if ref is None else str(ref), "extra": "x", "more": "x"}
    data.update(zip(c.ad.keys, map(str, vals)))
    if c.inline:
        data.update({f"{c.inline}-TOTAL_FORMS": "0", f"{c.inline}-INITIAL_FORMS": "0"})
    return data


def edits(c):
    ad, f = c.ad, c.f

    def post(node, ref, pos, vals, role="super"):
        data = data_for(c, node, ref, pos, vals)
        below = node is not None and ref is not None and ref in f.dfs(node)
        room = "yes"
        if not below:
            if ref is None:
                op = ("root", "k", ()) if node is None else ("move", c.pks.index(node), c.pks.index(f.roots[0]), "left")
            elif node is None:
                t = c.pks.index(ref)
                op = ("child", t, "k", ()) if pos.endswith("child") else ("sib", t, pos, "k", ())
            else:
                op = ("move", c.pks.index(node), c.pks.index(ref), pos)
            room = O.room_for(ad, f, c.rows, op, c.pks)
        try:
            r = c.call(role, "post", "add/" if node is None else f"{node}/change/", data)
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ != "PathOverflow" or room == "yes":
                raise
            unchanged(c, "raised PathOverflow")
            return
        if below:
            if r.status_code != 200:
                raise O.Bad(f"a reference node below the node: status {r.status_code}")
            unchanged(c, "refused")
            return
        if room == "no":
            raise O.Bad("accepted although the new path does not fit")
        if r.status_code != 302:
            errors = r.context_data["errors"] if getattr(r, "context_data", None) else r.content[:200]
            raise O.Bad(f"status {r.status_code}: {errors}")
        rows = ad.read()
        new = set(rows) - set(c.rows)
        who = node if node is not None else next(iter(new)) if len(new) == 1 else None
        saved = c.model.objects.get(pk=who) if who in rows else None
        c17.judge(c, node, ref, pos, saved, data)

    def rejected(node, ref, pos, vals):
        """The inline refuses: whatever the form did to the tree is undone."""
        data = dict(data_for(c, node, ref, pos, vals), reject="1")
        r = c.call("super", "post", "add/" if node is None else f"{node}/change/", data)
        if r.status_code != 200:
            raise O.Bad(f"status {r.status_code} although the inline was rejected")
        unchanged(c, "the inline was rejected")

    def denied(role, node, ref, pos, vals, status=403):
        r = c.call(role, "post", "add/" if node is None else f"{node}/change/", data_for(c, node, ref, pos, vals))
        if r.status_code != status:
            raise O.Bad(f"status {r.status_code} for {role}")
        unchanged(c, f"status {status}")

    poss = ("sorted-child", "sorted-sibling") if ad.order_by else ("first-child", "left", "right")
    for node in [None, *c.mine]:
        for ref in [None, *c.pks]:
            for pos in poss:
                for vals in [()] if not ad.keys else [(1,), (3,)]:
                    op = ("post", c.names.get(node), c.names.get(ref), pos, vals)
                    c17.guard(c, op, lambda: post(node, ref, pos, vals))
                    if c.inline and not (node is not None and ref is not None and ref in f.dfs(node)):
                        c17.guard(c, ("rejected", *op[1:]), lambda: rejected(node, ref, pos, vals))
        ref, pos, vals = None, poss[0], (2,) if ad.keys else ()
        for role in ("view", "nothing", "add" if node is not None else "change", "delete"):
            c17.guard(c, ("post as", role, c.names.get(node)), lambda: denied(role, node, ref, pos, vals))
        c17.guard(c, ("post as", "anonymous", c.names.get(node)), lambda: denied("anonymous", node, ref, pos, vals, 302))

        def show():
            r = c.call("super", "get", "add/" if node is None else f"{node}/change/")
            if r.status_code != 200:
                raise O.Bad(f"status {r.status_code}")
            unchanged(c, "only looked at")
            html = r.content.decode()
            if node is not None:
                got = set(re.findall(r'<option value="([^"]+)"', html)) & set(map(str, c.pks))
                if got != {str(p) for p in c.pks} - {str(p) for p in f.dfs(node)}:
                    raise O.Bad(f"reference nodes offered: {got}")

        c17.guard(c, ("look at", c.names.get(node)), show)


# ---------------------------------------------------------------- deletes
def deletes(c):
    ad, f = c.ad, c.f

    def gone(call, ids):
        r = call()
        if r.status_code != 302:
            raise O.Bad(f"status {r.status_code}")
        rows = ad.read()
        try:
            g = ad.forest(rows)
        except Malformed as e:
            raise O.Bad(f"stored tree is malformed afterwards: {e}") from None
        h = f.copy()
        h.remove(ids)
        if g != h:
            raise O.Bad(f"tree is {g.show(c.names)}, expected {h.show(c.names)} (was {f.show(c.names)})")
        O.payload_unchanged(c.rows, rows, ("desc", *ad.keys))

    def kept(call, status):
        r = call()
        if r.status_code != status:
            raise O.Bad(f"status {r.status_code}")
        unchanged(c, f"status {status}")

    for pk in c.mine:
        c17.guard(c, ("delete", c.names[pk]), lambda: gone(lambda: c.call("super", "post", f"{pk}/delete/", {"post": "yes"}), [pk]))
        c17.guard(c, ("look at delete", c.names[pk]), lambda: kept(lambda: c.call("super", "get", f"{pk}/delete/"), 200))
        for role in ("view", "change", "nothing"):
            c17.guard(c, ("delete as", role), lambda: kept(lambda: c.call(role, "post", f"{pk}/delete/", {"post": "yes"}), 403))
    for k in range(1, len(c.mine) + 1):
        if len(c.mine) > 3 and 2 < k < len(c.mine):
            continue
        for ids in itertools.combinations(c.mine, k):
            data = {"action": "delete_selected", "_selected_action": [str(p) for p in ids], "index": "0"}
            c17.guard(c, ("delete selected", [c.names[p] for p in ids]), lambda: gone(lambda: c.call("super", "post", "", {**data, "post": "yes"}), ids))
            c17.guard(c, ("ask to delete", [c.names[p] for p in ids]), lambda: kept(lambda: c.call("super", "post", "", data), 200))


def replay(job, start, ops, target):
    if treeops.get_adapter(job.adapter).order_by:
        return "skip"
    return treeops.replay(job, start, (), None)

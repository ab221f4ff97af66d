"""Every navigation call and predicate, compared with the reference forest (C06, C16, C23)."""


class Nav:
    """mgr: manager the calls are made on; f: forest by pk; get: pk -> fresh object."""

    def __init__(self, ad, mgr, f, report):
        self.ad, self.mgr, self.f, self.report = ad, mgr, f, report
        self.calls = 0
        self.type = None  # class every returned node has to have, if the caller cares
        self.compose = False
        self.me = None  # the node asked about may be handed back as it is

    def wrong(self, x):
        return self.type and type(x) is not self.type and x.pk != self.me

    def ids(self, what, it, want):
        self.calls += 1
        try:
            objs = list(it() if callable(it) else it)
            got = [x.pk for x in objs]
        except Exception as e:  # noqa: BLE001
            self.report(what, f"raised {type(e).__name__}: {e}")
            return []
        if got != want:
            self.report(what, f"returned {self.n(got)}, expected {self.n(want)}")
        elif any(self.wrong(x) for x in objs):
            self.report(what, f"returned objects of class {sorted({type(x).__name__ for x in objs})}, expected {self.type.__name__}")
        elif self.compose and callable(it):
            self.composed(what, it, want)
        return objs

    def composed(self, what, it, want):
        """What is documented as a queryset can be used as one."""
        from django.db.models import QuerySet

        if not isinstance(it(), QuerySet):
            return
        plain = self.mgr.model._base_manager.using(self.ad.alias)
        pks = lambda qs: list(qs.values_list("pk", flat=True))  # noqa: E731
        some, first = want[::2], want[0] if want else None
        for how, call, res in (
            ("count()", lambda: it().count(), len(want)),
            ("exists()", lambda: it().exists(), bool(want)),
            ("values_list()", lambda: pks(it()), want),
            ("reverse()", lambda: pks(it().reverse()), want[::-1]),
            ("first()", lambda: getattr(it().first(), "pk", None), first),
            ("last()", lambda: getattr(it().last(), "pk", None), want[-1] if want else None),
            ("[1:3]", lambda: [x.pk for x in it()[1:3]], want[1:3]),
            ("filter()", lambda: pks(it().filter(pk__in=some)), some),
            ("exclude()", lambda: pks(it().exclude(pk=first)), want[1:]),
            ("iterator()", lambda: [x.pk for x in it().iterator()], want),
            ("in_bulk()", lambda: set(it().in_bulk()), set(want)),
            ("as a subquery", lambda: set(pks(plain.filter(pk__in=it().values("pk")))), set(want)),
            ("filter() on a text", lambda: pks(it().filter(desc__startswith="n")), want),
        ):
            self.val(f"{what}: {how}", call, res)

    def one(self, what, call, want):
        self.calls += 1
        try:
            obj = call()
        except Exception as e:  # noqa: BLE001
            self.report(what, f"raised {type(e).__name__}: {e}")
            return None
        got = obj.pk if obj is not None else None
        if got != want:
            self.report(what, f"returned {self.n(got)}, expected {self.n(want)}")
        elif obj is not None and self.wrong(obj):
            self.report(what, f"returned a {type(obj).__name__}, expected {self.type.__name__}")
        return obj

    def val(self, what, call, want):
        self.calls += 1
        try:
            got = call()
        except Exception as e:  # noqa: BLE001
            self.report(what, f"raised {type(e).__name__}: {e}")
            return
        if isinstance(want, bool):
            got = bool(got)
        if got != want or (type(want) is int and type(got) is float):
            self.report(what, f"returned {got!r}, expected {want!r}")

    def n(self, x):
        if isinstance(x, list):
            return [self.n(i) for i in x]
        return self.names.get(x, x) if hasattr(self, "names") else x

    # ---------------------------------------------------------------- sweeps
    def forest_level(self):
        m, f = self.mgr, self.f
        height = max([f.depth(i) for i in f.par] or [0])
        self.me = None
        objs = self.ids("get_tree()", m.get_tree, f.dfs())
        for d in range(1, height + 2):
            self.ids(f"get_tree(max_depth={d})", lambda: m.get_tree(max_depth=d), f.dfs(max_rel=d))
        self.ids("get_root_nodes()", m.get_root_nodes, f.roots)
        self.one("get_first_root_node()", m.get_first_root_node, f.roots[0] if f.roots else None)
        self.one("get_last_root_node()", m.get_last_root_node, f.roots[-1] if f.roots else None)
        self.group("get_descendants_group_count()", lambda: m.get_descendants_group_count(), f.roots)
        for o in objs:
            self.state("from get_tree(): ", o)
        return objs

    def group(self, what, call, kids):
        objs = self.ids(what, call, kids)
        for o in objs:
            if o.pk in self.f.par:
                self.val(f"{what}[{self.n(o.pk)}].descendants_count", lambda: o.descendants_count, len(self.f.descendants(o.pk)))

    def state(self, how, o):
        f = self.f
        if o.pk not in f.par:
            return
        w = how + f"{self.n(o.pk)}."
        self.val(w + "get_depth()", o.get_depth, f.depth(o.pk))
        self.val(w + "is_root()", o.is_root, f.par[o.pk] is None)
        self.val(w + "is_leaf()", o.is_leaf, not f.ch[o.pk])

    def node(self, o, full=True):
        """All calls about one node object."""
        m, f, i = self.mgr, self.f, o.pk
        self.me = i
        w = f"({self.n(i)})"
        self.state("", o)
        sib, kids = f.siblings(i), f.ch[i]
        k = sib.index(i)
        desc = f.descendants(i)
        anc = f.ancestors(i)
        res = self.ids("get_children" + w, lambda: m.get_children(o), kids)
        self.val("get_children_count" + w, lambda: m.get_children_count(o), len(kids))
        self.one("get_first_child" + w, lambda: m.get_first_child(o), kids[0] if kids else None)
        self.one("get_last_child" + w, lambda: m.get_last_child(o), kids[-1] if kids else None)
        res = res + self.ids("get_siblings" + w, lambda: m.get_siblings(o), sib)
        self.one("get_first_sibling" + w, lambda: m.get_first_sibling(o), sib[0])
        self.one("get_last_sibling" + w, lambda: m.get_last_sibling(o), sib[-1])
        nxt = self.one("get_next_sibling" + w, lambda: m.get_next_sibling(o), sib[k + 1] if k + 1 < len(sib) else None)
        prv = self.one("get_prev_sibling" + w, lambda: m.get_prev_sibling(o), sib[k - 1] if k else None)
        root = self.one("get_root" + w, lambda: m.get_root(o), f.root(i))
        par = self.one("get_parent" + w, lambda: m.get_parent(o), f.par[i])
        self.one("get_parent" + w + " again", lambda: m.get_parent(o), f.par[i])
        self.one("get_parent" + w + " update", lambda: m.get_parent(o, update=True), f.par[i])
        res = res + self.ids("get_ancestors" + w, lambda: m.get_ancestors(o), anc)
        res = res + self.ids("get_descendants" + w, lambda: m.get_descendants(o), desc)
        self.ids("get_descendants" + w + " include_self", lambda: m.get_descendants(o, include_self=True), [i, *desc])
        self.ids("get_tree" + w, lambda: m.get_tree(o), [i, *desc])
        self.val("get_descendant_count" + w, lambda: m.get_descendant_count(o), len(desc))
        h = max([f.depth(x) for x in desc], default=f.depth(i)) - f.depth(i)
        for d in range(1, h + 2):
            want = f.descendants(i, d)
            self.ids(f"get_descendants{w} max_depth={d}", lambda: m.get_descendants(o, max_depth=d), want)
            self.ids(
                f"get_descendants{w} include_self max_depth={d}",
                lambda: m.get_descendants(o, include_self=True, max_depth=d), [i, *want],
            )  # fmt: skip
            self.ids(f"get_tree{w} max_depth={d}", lambda: m.get_tree(o, max_depth=d), [i, *want])
            self.val(f"get_descendant_count{w} max_depth={d}", lambda: m.get_descendant_count(o, max_depth=d), len(want))
        self.group("get_descendants_group_count" + w, lambda: m.get_descendants_group_count(o), kids)
        if full:
            for x in res + [y for y in (nxt, prv, root, par) if y is not None]:
                if x.pk != i:
                    self.state(f"from {self.n(i)}: ", x)
            for x in (nxt, prv, par):
                if x is not None:
                    self.one(f"get_parent(object found from {self.n(i)})", lambda: m.get_parent(x), f.par.get(x.pk))

    def pair(self, a, b):
        f, w = self.f, f"({self.n(a.pk)}, {self.n(b.pk)})"
        self.val("is_child_of" + w, lambda: a.is_child_of(b), f.par[a.pk] == b.pk)
        self.val("is_sibling_of" + w, lambda: a.is_sibling_of(b), f.par[a.pk] == f.par[b.pk])
        self.val("is_descendant_of" + w, lambda: a.is_descendant_of(b), b.pk in f.ancestors(a.pk))


def sweep(ad, model, f, rows, report, cls=None, pairs=True, compose=False):
    nav = Nav(ad, model.objects, f, report)
    nav.names = {pk: d["desc"] for pk, d in rows.items()}
    nav.type = cls
    nav.compose = compose
    intree = nav.forest_level()
    for pk in f.dfs():
        nav.node(model.objects.get(pk=pk))
    nav.compose = False
    for o in intree:
        if o.pk in f.par:
            nav.node(o, full=False)
    if pairs:
        obj = {pk: model.objects.get(pk=pk) for pk in f.dfs()}
        for a in obj.values():
            for b in obj.values():
                nav.pair(a, b)
    return nav.calls

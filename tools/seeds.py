"""The planted bugs: id -> property, edits (file, old, new), what they need to manifest, what they break, demonstration."""

SEEDS = {}


def seed(id, property, edits, needs, breaks, demo):
    SEEDS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


MP, NS, AL, LT = "treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/al_tree.py", "treebeard/ltree/__init__.py"
MODELS, FORMS, ADMIN, TAGS = "treebeard/models.py", "treebeard/forms.py", "treebeard/admin.py", "treebeard/templatetags/admin_tree.py"

seed(
    "S01", "C01",
    [(NS, "        if last_root:\n            # adding the new root node as the last one\n            newtree_id = last_root.tree_id + 1\n",
          "        if last_root:\n            # adding the new root node as the last one\n            newtree_id = self.get_root_nodes().count() + 1\n")],
    "an earlier root has been deleted, so that tree ids have a hole, and then a root is added",
    "The new root gets the tree_id of an existing tree: two roots share one interval and their descendants mix.",
    """
from boot import *
boot()
grow(M.NS, "a(b) c(d) e(f)")
node(M.NS, "a").delete()
M.NS.objects.add_root({"name": "z"})
same(show(M.NS), "c(d) e(f) z", "tree after deleting the first root and adding one")
same([n.name for n in M.NS.objects.get_descendants(node(M.NS, "e"))], ["f"], "descendants of e")
same([n.name for n in M.NS.objects.get_children(node(M.NS, "e"))], ["f"], "children of e")
M.NS.objects.add_child(node(M.NS, "z"), {"name": "y"})
same(show(M.NS), "c(d) e(f) z(y)", "tree after adding a child to the new root")
same(len({n.tree_id for n in M.NS.objects.get_root_nodes()}), 3, "different tree ids")
""")

seed(
    "S02", "C02",
    [(LT, "        if nodes_moved:\n            node.refresh_from_db()\n", "        if nodes_moved and insert_after is not None:\n            node.refresh_from_db()\n")],
    "an ltree node is moved before the first of its siblings when the first label is already 0, so that all siblings are relabelled",
    "The node's path is stale when its branch is rewritten: its descendants stay behind under a path nobody has.",
    """
from boot import *
boot("pg")
grow(M.LT, "r(a b(x(y)) c)")
move = M.LT.objects.move
move(node(M.LT, "c"), node(M.LT, "a"), "left")
same(show(M.LT), "r(c a b(x(y)))", "first move")
move(node(M.LT, "b"), node(M.LT, "c"), "left")
same(show(M.LT), "r(b(x(y)) c a)", "second move")
same([n.name for n in M.LT.objects.get_descendants(node(M.LT, "b"))], ["x", "y"], "descendants of b")
same(M.LT.objects.get_parent(node(M.LT, "x")).name, "b", "parent of x")
""")

seed(
    "S03", "C03",
    [(NS, "in sorted(ranges, reverse=True):", "in sorted(ranges, key=lambda r: r[2] - r[1], reverse=True):")],
    "one queryset delete removes two branches of one tree, the left one bigger than the right one",
    "Gaps are closed biggest first: the recorded bounds of the smaller one to the right are stale by then, so wrong intervals shift.",
    """
from boot import *
boot()
grow(M.NS, "r(a(b(c)) d e(f) g)")
M.NS.objects.filter(name__in=["a", "e"]).delete()
same(show(M.NS), "r(d g)", "tree")
same(sorted(M.NS.objects.values_list("name", "lft", "rgt")), [("d", 2, 3), ("g", 4, 5), ("r", 1, 6)], "intervals")
grow(M.NS, "h(i(j) k(l) m)", node(M.NS, "d"))
M.NS.objects.filter(name__in=["i", "d", "g"]).delete()
same(sorted(M.NS.objects.values_list("name", "lft", "rgt")), [("r", 1, 2)], "intervals")
""")

seed(
    "S04", "C04",
    [(MP, "                if node_parentpath == first_parentpath and node._get_lastpos_in_path() == newpos - 1:",
          "                if len(node_parentpath) == len(first_parentpath) and node._get_lastpos_in_path() == newpos - 1:")],
    "a sorted move to another parent at the same depth, whose computed place has the number that follows the node's own",
    "The move is taken for 'already in the right place' and nothing happens.",
    """
from boot import *
boot()
grow(M.MPSort, "p=1(a=5 b=6) q=2(c=1 d=9)")
move = M.MPSort.objects.move
move(node(M.MPSort, "a"), node(M.MPSort, "q"), "sorted-child")
same(show(M.MPSort), "p(b) q(c a d)", "a below q")
move(node(M.MPSort, "d"), node(M.MPSort, "b"), "sorted-sibling")
same(show(M.MPSort), "p(b d) q(c a)", "d beside b")
""")

seed(
    "S05", "C05",
    [(MP, "                parents[parentpath] += 1\n", "                parents[parentpath] = 1\n")],
    "one queryset delete removes two or more children of one parent that itself stays",
    "numchild of the parent is decremented once only: it no longer equals the number of children.",
    """
from boot import *
boot()
grow(M.MP, "r(a b(x) c d)")
M.MP.objects.filter(name__in=["a", "b", "d"]).delete()
same(show(M.MP), "r(c)", "tree")
same(node(M.MP, "r").numchild, 1, "numchild")
same([list(x) for x in M.MP.objects.find_problems()], [[]] * 5, "problems")
node(M.MP, "c").delete()
same(node(M.MP, "r").is_leaf(), True, "leaf")
""")

seed(
    "S06", "C06",
    [(LT, "        return len(self.path) > len(node.path) and all([self.path[idx] == label for idx, label in enumerate(node.path)])",
          "        return len(self.path) > len(node.path) and str(self.path).startswith(str(node.path))")],
    "a label that continues another one (A and A0), which inserts between neighbours create, and a node below the longer one",
    "is_descendant_of() takes nephews for descendants; moves of the shorter one below them are refused.",
    """
from boot import *
boot("pg")
grow(M.LT, "a b")
M.LT.objects.add_sibling(node(M.LT, "a"), "right", {"name": "m"})
grow(M.LT, "n(o)", node(M.LT, "m"))
same(show(M.LT), "a m(n(o)) b", "tree")
for x in "amnob":
    below = [n.name for n in M.LT.objects.get_descendants(node(M.LT, x))]
    same([y for y in "amnob" if node(M.LT, y).is_descendant_of(node(M.LT, x))], below, "below " + x)
M.LT.objects.move(node(M.LT, "a"), node(M.LT, "o"), "last-child")
same(show(M.LT), "m(n(o(a))) b", "tree")
""")

seed(
    "S07", "C07",
    [(LT, "        if pos in (\"first-child\", \"last-child\", \"sorted-child\"):\n            if target.pk == node.pk:",
          "        if pos in (\"first-child\", \"last-child\"):\n            if target.pk == node.pk:")],
    "a sorted ltree node is moved as a sorted-child of itself",
    "The move is not refused: the node gets a path below its own old one and has no parent any more.",
    """
from boot import *
boot("pg")
from treebeard.exceptions import InvalidMoveToDescendant
grow(M.LTSort, "a=1(b=1 c=2) d=2")
before = sorted(M.LTSort.objects.values_list("pk", "path", "name"))
for x in "dbca":
    try:
        M.LTSort.objects.move(node(M.LTSort, x), node(M.LTSort, x), "sorted-child")
        got = "no exception"
    except InvalidMoveToDescendant:
        got = "refused"
    same(got, "refused", x)
    same(sorted(M.LTSort.objects.values_list("pk", "path", "name")), before, "rows")
""")

seed(
    "S10", "C10",
    [(NS, "            initial_depth = self.get_ancestors(parent).count()\n", "            initial_depth = parent.depth - 1\n")],
    "find_problems(parent) where the given parent itself has a wrong depth",
    "The parent's own wrong depth is taken as the reference: it is not reported and its correct descendants are.",
    """
from boot import *
boot()
grow(M.NS, "r(a(b(c)) d)")
M.NS.objects.filter(name="a").update(depth=5)
for parent in (None, node(M.NS, "r"), node(M.NS, "a")):
    wrong = M.NS.objects.find_problems(parent)[3]
    same(wrong, [node(M.NS, "a").pk], f"wrong depth below {parent}")
same(M.NS.objects.find_problems(node(M.NS, "b"))[3], [], "wrong depth below b")
""")

seed(
    "S11", "C11",
    [(MP, "            newobj = {\"data\": fields}\n", "            newobj = {\"data\": {name: value for name, value in fields.items() if value is not None}}\n")],
    "a nullable field whose default is not NULL, and a node where it is NULL",
    "NULL values are left out of the dump, so that the loaded nodes get the default instead.",
    """
from boot import *
boot()
from django.db import connection, models
from treebeard.mp_tree import MP_Node
class Nullable(MP_Node):
    name = models.CharField(max_length=9)
    rank = models.IntegerField(null=True, default=7)
    class Meta:
        app_label = "demo"
with connection.schema_editor() as ed:
    ed.create_model(Nullable)
a = Nullable.objects.add_root({"name": "a", "rank": None})
Nullable.objects.add_child(a, {"name": "b", "rank": 3})
Nullable.objects.add_child(a, {"name": "c", "rank": None})
want = list(Nullable.objects.values_list("name", "rank"))
data = Nullable.objects.dump_bulk()
Nullable.objects.all().delete()
Nullable.objects.load_bulk(data)
same(list(Nullable.objects.values_list("name", "rank")), want, "loaded again")
""")

seed(
    "S14", "C14",
    [(MP, "import collections\nimport warnings\nfrom functools import cache\n", "import collections\nimport warnings\nfrom contextlib import suppress\nfrom functools import cache\n"),
     (MP, "from django.db import connections, models, router, transaction\n", "from django.db import DatabaseError, connections, models, router, transaction\n"),
     (MP, "            model.objects.filter(path=path).update(numchild=Greatest(F(\"numchild\") - num_lost, 0))\n",
          "            # The counter is only a cache, fix_tree() restores it\n            with suppress(DatabaseError), transaction.atomic(using=self.db):\n                model.objects.filter(path=path).update(numchild=Greatest(F(\"numchild\") - num_lost, 0))\n")],
    "the UPDATE of a parent's child counter fails (a lock timeout, say) while nodes are deleted",
    "The error is swallowed: the nodes are deleted and their parents keep the old number of children.",
    """
from boot import *
boot()
from django.db import DatabaseError, OperationalError, connection
grow(M.MP, "r(a b(c))")
def fail(execute, sql, params, many, context):
    if sql.startswith("UPDATE"):
        raise OperationalError("lock timeout")
    return execute(sql, params, many, context)
before = sorted(M.MP.objects.values_list())
try:
    with connection.execute_wrapper(fail):
        node(M.MP, "b").delete()
    got = "no exception"
except DatabaseError:
    got = "failed"
same(got, "failed", "delete with a failing UPDATE")
same(sorted(M.MP.objects.values_list()), before, "rows")
""")

seed(
    "S15", "C15",
    [(MP, "        self.tree_model.objects.filter(pk=node.pk).update(numchild=F(\"numchild\") + 1)\n        target.numchild = node.numchild + 1\n",
          "        self.tree_model.objects.filter(pk=node.pk).update(numchild=F(\"numchild\") + 1)\n        target.numchild += 1\n")],
    "add_child with a target object read before other children were added or deleted",
    "The target object keeps a wrong number of children, and its get_children_count() and is_leaf() are wrong.",
    """
from boot import *
boot()
grow(M.MP, "r(a b)")
r = node(M.MP, "r")
node(M.MP, "a").delete()
node(M.MP, "b").delete()
M.MP.objects.add_child(r, {"name": "c"})
same(r.numchild, 1, "numchild")
s = node(M.MP, "c")
grow(M.MP, "x y z", node(M.MP, "c"))
M.MP.objects.add_child(s, {"name": "w"})
same(M.MP.objects.get_children_count(s), 4, "children count")
""")

seed(
    "S18", "C18",
    [(ADMIN, "            (\"child\", False): \"last-child\",\n",
             "            (\"child\", False): \"first-child\" if node.is_child_of(target) else \"last-child\",\n")],
    "dragging a node onto its present parent when it is not the last child",
    "The node becomes the first child instead of the last one, and the view reports success.",
    """
from boot import *
boot()
from django.contrib.admin import AdminSite
from django.contrib.auth.models import User
from django.contrib.messages.storage.cookie import CookieStorage
from django.test import RequestFactory
from treebeard.admin import admin_factory
from treebeard.forms import movenodeform_factory
user = User.objects.create_superuser("root", "a@b.c", "x")
for model in (M.MP, M.NS, M.AL):
    grow(model, "a(b c d) e")
    view = admin_factory(movenodeform_factory(model, fields="__all__"))(model, AdminSite())
    req = RequestFactory().post("/", {"node": node(model, "b").pk, "target": node(model, "a").pk, "relation": "child"})
    req.user, req._messages = user, CookieStorage(None)
    same(view.move_node(req).status_code, 200, "status")
    same(show(model), "a(c d b) e", model.__name__)
""")

seed(
    "S19", "C19",
    [("treebeard/numconv.py", "            num //= self.radix\n", "            num = int(num / self.radix)\n")],
    "an integer above 2**53 (long steps over a large alphabet)",
    "Floating point division rounds: encoding and decoding gives another number.",
    """
from boot import *
boot()
from treebeard.numconv import NumConv
for alphabet in ("01", "0123456789", "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"):
    conv = NumConv(alphabet)
    for num in [*range(200), *(2**k + d for k in range(8, 130) for d in (-1, 0, 1))]:
        s = conv.int2str(num)
        if conv.str2int(s) != num:
            same(conv.str2int(s), num, f"{num} in {alphabet}")
print("ok")
""")

seed(
    "S24", "C16",
    [(MP, "            model.objects.filter(path=path).update(numchild=Greatest(F(\"numchild\") - num_lost, 0))\n",
          "            self.model.objects.filter(path=path).update(numchild=Greatest(F(\"numchild\") - num_lost, 0))\n")],
    "a node is deleted through a multi-table child model while its parent is a node of the base model only",
    "The parent is not found among the rows of the child model and keeps its numchild.",
    """
from boot import *
boot()
r = M.MP.objects.add_root({"name": "r"})
a = M.MPChild.objects.add_child(r, {"name": "a"})
M.MPChild.objects.add_child(node(M.MPChild, "a"), {"name": "b"})
M.MPChild.objects.add_child(node(M.MP, "r"), {"name": "c"})
node(M.MPChild, "b").delete()
same(node(M.MP, "a").numchild, 0, "numchild of a")
M.MPChild.objects.filter(name="c").delete()
same(node(M.MP, "r").numchild, 1, "numchild of r")
node(M.MPChild, "a").delete()
same(node(M.MP, "r").is_leaf(), True, "r is a leaf")
""")

seed(
    "S25", "C03",
    [(LT, "            for depth in range(1, len(node.path)):\n                path = node.path[0:depth]\n                if str(path) in paths_to_remove:\n                    # we are already removing an ancestor of this node, so skip it\n                    found = True\n                    break\n            if not found:",
          "            for path in paths_to_remove:\n                if str(node.path).startswith(path):\n                    # we are already removing an ancestor of this node, so skip it\n                    found = True\n                    break\n            if not found:")],
    "a queryset delete of two siblings where the label of one continues that of the other (A and A0)",
    "The second one is taken for a descendant of the first and survives.",
    """
from boot import *
boot("pg")
grow(M.LT, "a b")
M.LT.objects.add_sibling(node(M.LT, "a"), "right", {"name": "m"})
grow(M.LT, "n o", node(M.LT, "m"))
same(show(M.LT), "a m(n o) b", "tree")
same(M.LT.objects.filter(name__in=["a", "n"]).delete()[0], 2, "deleted")
same(show(M.LT), "m(o) b", "tree")
M.LT.objects.add_sibling(node(M.LT, "m"), "left", {"name": "a"})
M.LT.objects.filter(name__in=["a", "m"]).delete()
same(show(M.LT), "b", "tree")
""")

seed(
    "S27", "C06",
    [(MP, "        return node.path.startswith(self._get_basepath(self.path, self.depth - 1))\n", "        return node.path.startswith(self._get_basepath(self.path, max(self.depth - 2, 1)))\n")],
    "two nodes at depth 3 or below that have the same grandparent but not the same parent",
    "is_sibling_of() is true for cousins.",
    """
from boot import *
boot()
grow(M.MP, "r(a(b c(x)) d(e f(y)))")
for x in "rabcdefxy":
    sibs = [n.name for n in M.MP.objects.get_siblings(node(M.MP, x))]
    same([y for y in "rabcdefxy" if node(M.MP, x).is_sibling_of(node(M.MP, y))], sibs, "siblings of " + x)
""")

seed(
    "S28", "C10",
    [(NS, "                while stack and stack[-1][\"rgt\"] < node[\"lft\"]:\n", "                while stack and stack[-1][\"rgt\"] <= node[\"lft\"]:\n")],
    "two nodes whose intervals overlap in one number only (rgt of one is lft of the next)",
    "find_problems() does not report the overlap.",
    """
from boot import *
boot()
grow(M.NS, "r(a b c)")
M.NS.objects.filter(name="a").update(rgt=4)
same(sorted(M.NS.objects.values_list("name", "lft", "rgt")), [("a", 2, 4), ("b", 4, 5), ("c", 6, 7), ("r", 1, 8)], "rows")
same(M.NS.objects.find_problems()[1] != [], True, "overlap reported")
""")

seed(
    "S30", "C18",
    [(ADMIN, "        if not self.has_change_permission(request, node):\n", "        if not self.has_change_permission(request):\n")],
    "an admin that grants change permission per object, and a user who may not change the node that is dragged",
    "The node is moved by a user who is not allowed to change it.",
    """
from boot import *
boot()
from django.contrib.admin import AdminSite
from django.contrib.auth.models import User
from django.contrib.messages.storage.cookie import CookieStorage
from django.core.exceptions import PermissionDenied
from django.test import RequestFactory
from treebeard.admin import TreeAdmin
from treebeard.forms import movenodeform_factory
user = User.objects.create_superuser("root", "a@b.c", "x")
class Admin(TreeAdmin):
    form = movenodeform_factory(M.MP, fields="__all__")
    def has_change_permission(self, request, obj=None):
        return obj is None or obj.name != "c"
grow(M.MP, "a(b c d) e")
for x, want in (("b", 200), ("c", "denied")):
    req = RequestFactory().post("/", {"node": node(M.MP, x).pk, "target": node(M.MP, "e").pk, "relation": "child"})
    req.user, req._messages = user, CookieStorage(None)
    try:
        got = Admin(M.MP, AdminSite()).move_node(req).status_code
    except PermissionDenied:
        got = "denied"
    same(got, want, "moving " + x)
same(show(M.MP), "a(c d) e(b)", "tree")
""")

seed(
    "S34", "C15",
    [(NS, "            target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop\n",
          "            target.rgt += 2  # Update the rgt of the parent object, which may be used again in a loop\n")],
    "add_child on a target object that was read before other nodes were added below it",
    "rgt of the target object is wrong after the call.",
    """
from boot import *
boot()
grow(M.NS, "r(a(b))")
r = node(M.NS, "r")
grow(M.NS, "c d", node(M.NS, "a"))
M.NS.objects.add_child(r, {"name": "e"})
same(r.rgt, node(M.NS, "r").rgt, "rgt of the target")
same([n.name for n in M.NS.objects.get_descendants(r)], ["a", "b", "c", "d", "e"], "descendants of the target")
""")

seed(
    "S39", "C23",
    [(MP, "from django.db import connections, models, router, transaction\n", "from django.db import DEFAULT_DB_ALIAS, connections, models, router, transaction\n"),
     (MP, "            path_updated.send(sender=self.tree_model, old_path=old_path, new_path=new_path, using=queryset.db)\n",
          "            path_updated.send(\n                sender=self.tree_model, old_path=old_path, new_path=new_path, using=self._db or DEFAULT_DB_ALIAS\n            )\n")],
    "fix_tree(fix_paths=True) of a model that a router keeps on another database, with a receiver that uses `using`",
    "The signal names the default database although the other one was written.",
    """
from boot import *
class Router:
    def db_for_read(self, model, **hints):
        return "other" if model._meta.app_label == "demo" else None
    db_for_write = db_for_read
boot(second=True, routers=[Router()])
from treebeard import mp_tree
seen = []
mp_tree.path_updated.connect(lambda using, **kw: seen.append(using), weak=False)
grow(M.MP, "a(b c) d(e)")
node(M.MP, "a").delete()
M.MP.objects.fix_tree(fix_paths=True)
same(set(seen), {"other"}, "databases named by the signals")
""")

seed(
    "S22", "C22",
    [(MODELS, "        qs = self.get_tree(parent)\n        if max_depth:\n", "        qs = self.get_tree(parent, max_depth)\n        if max_depth and parent is None:\n")],
    "an annotated list of a branch together with max_depth",
    "max_depth, which is the depth in the tree, counts from the branch: nodes that are too deep are listed.",
    """
from boot import *
boot()
for model in (M.MP, M.NS):
    grow(model, "r(a(b(c(d)) e) f)")
    for parent, limit, want in ((None, 2, "raf"), (None, 3, "rabef"), ("r", 2, "raf"), ("a", 3, "abe"), ("a", 4, "abce"), ("b", 4, "bc")):
        got = model.objects.get_annotated_list(parent and node(model, parent), max_depth=limit)
        same("".join(n.name for n, _ in got), want, f"below {parent} to depth {limit}")
""")

seed(
    "S46", "C24",
    [(MP, "        return self.tree_model.objects.filter(\n            depth=node.depth + 1, path__range=node._get_children_path_interval(node.path)\n        ).order_by(\"path\")\n",
          "        return MP_NodeQuerySet(self.tree_model, using=self._db).filter(\n            depth=node.depth + 1, path__range=node._get_children_path_interval(node.path)\n        ).order_by(\"path\")\n")],
    "a model with a custom manager whose querysets are of a custom class",
    "get_children() returns querysets without the methods and annotations of the model's own.",
    """
from boot import *
from django.db import models
boot()
from treebeard.mp_tree import MP_Node, MP_NodeManager, MP_NodeQuerySet
class Own(MP_NodeQuerySet):
    def short(self):
        return self.filter(name__regex="^.$")
class Mgr(MP_NodeManager):
    def get_queryset(self):
        return Own(self.model, using=self._db).order_by("path").annotate(twice=models.F("depth") * 2)
class Item(MP_Node):
    name = models.CharField(max_length=9)
    objects = Mgr()
    class Meta:
        app_label = "demo"
from django.db import connection
with connection.schema_editor() as ed:
    ed.create_model(Item)
grow(Item, "a(b cc d) e")
a = node(Item, "a")
same([n.name for n in Item.objects.get_root_nodes().short()], ["a", "e"], "roots")
same([n.name for n in Item.objects.get_siblings(node(Item, "b")).short()], ["b", "d"], "siblings")
qs = Item.objects.get_children(a)
same(isinstance(qs, Own) and [n.name for n in qs.short()], ["b", "d"], "children")
same([n.twice for n in qs], [4, 4, 4], "annotation")
""")

seed(
    "S47", "C25",
    [("treebeard/ltree/fields.py", "    r\"^(?P<root>[a-zA-Z0-9_-]+)(?:\\.[a-zA-Z0-9_-]+)*$\",\n", "    r\"^(?P<root>[a-zA-Z0-9_-]+)(?:\\.[a-zA-Z0-9_]+)*$\",\n")],
    "a hyphen in a label that is not the first one",
    "Forms and full_clean() refuse paths the database takes.",
    """
from boot import *
boot("pg")
from django.db import models
from treebeard.ltree import PathField
class Place(models.Model):
    path = PathField()
    class Meta:
        app_label = "demo"
from django.forms import modelform_factory
Form = modelform_factory(Place, fields=["path"])
for text, ok in (("a.b", True), ("a-b.c", True), ("a.b-c", True), ("a..b", False), ("a.", False), ("", False), ("a b", False)):
    same(Form({"path": text}).is_valid(), ok, text)
""")

seed(
    "S48", "C16",
    [(MODELS, "        base_class = cls._meta.get_field(cls.TREEBEARD_IDENTIFYING_FIELD).model\n",
              "        base_class = cls._meta.concrete_model if cls._meta.proxy else cls._meta.get_field(cls.TREEBEARD_IDENTIFYING_FIELD).model\n")],
    "a proxy of a multi-table child model, in a tree that has nodes of the base class, too",
    "Tree calls through the proxy see only the nodes that are of the child class: a root is added on a path that is in use, children of base-class nodes are missed.",
    """
from boot import *
boot()
from django.db import models
class Meta:
    app_label = "demo"
    proxy = True
Odd = type("Odd", (M.MPChild,), {"__module__": "demo.models", "Meta": Meta})
grow(M.MP, "a(b c) d")
M.MP.objects.fix_tree()
e = Odd.objects.add_root({"name": "e"})
same(show(M.MP), "a(b c) d e", "tree")
same([n.name for n in Odd.objects.get_root_nodes()], ["a", "d", "e"], "roots")
M.MP.objects.add_child(node(M.MP, "e"), {"name": "f"})
same([n.name for n in Odd.objects.get_children(Odd.objects.get(name="e"))], ["f"], "children")
""")


seed(
    "S50", "C27",
    [(NS, '        if not max_depth:\n', '        if node.rgt - node.lft == 1:\n')],
    "a group of many siblings that have children: the counts are right, with one more query for each sibling",
    "get_descendants_group_count() of nested sets takes a query per node of the group.",
    """
from boot import *
boot()
from django.db import connection
from django.test.utils import CaptureQueriesContext

def queries(n):
    M.NS.objects.all().delete()
    for i in range(n):
        r = M.NS.objects.add_root({"name": f"r{i}"})
        M.NS.objects.add_child(r, {"name": f"c{i}"})
    with CaptureQueriesContext(connection) as q:
        got = [x.descendants_count for x in M.NS.objects.get_descendants_group_count()]
    same(got, [1] * n, "counts")
    return len(q)

few, many = queries(3), queries(30)
same(many - few < 10, True, f"{few} queries for 3 roots, {many} for 30, about the same")
""")

seed(
    "S51", "C26",
    [(MP, "        return self.numchild == 0\n", "        return not self.__dict__.get(\"numchild\")\n")],
    "the object was loaded without numchild: only(), defer(), raw()",
    "A node that has children says it is a leaf; get_children() and get_descendants() of it are empty.",
    """
from boot import *
boot()
grow(M.MP, "a(b(c)) d")
a = M.MP.objects.only("name").get(name="a")
same(a.is_leaf(), False, "is_leaf")
a = M.MP.objects.defer("numchild").get(name="a")
same([n.name for n in M.MP.objects.get_children(a)], ["b"], "children")
a = M.MP.objects.only("name").get(name="a")
same([n.name for n in M.MP.objects.get_descendants(a)], ["b", "c"], "descendants")
""")

seed(
    "S56", "C13",
    [(MP, '''        for path, num_lost in parents.items():
            model.objects.filter(path=path).update(numchild=Greatest(F("numchild") - num_lost, 0))
''', '''        for parent in model.objects.filter(path__in=parents).only("path", "numchild"):
            num_left = max(parent.numchild - parents[parent.path], 0)
            model.objects.filter(pk=parent.pk).update(numchild=num_left)
''')],
    "another transaction deletes (or adds) a child of the same parent between the reading of the parent and its update",
    "One of the two changes of numchild is lost: the parent claims children it does not have.",
    """
import threading
from boot import *
boot("pg")
from django.db import connection, connections
grow(M.MP, "a(b c d) e")
state = {"done": False}

def other():
    try:
        node(M.MP, "c").delete()
    finally:
        connections.close_all()

def wrapper(execute, sql, params, many, context):
    if sql.startswith("UPDATE") and not state["done"]:
        state["done"] = True
        t = threading.Thread(target=other)
        t.start()
        t.join()
    return execute(sql, params, many, context)

b = node(M.MP, "b")
with connection.execute_wrapper(wrapper):
    b.delete()
same(state["done"], True, "the other deletion ran in between")
same(show(M.MP), "a(d) e", "tree")
same(node(M.MP, "a").numchild, 1, "numchild of the parent")
same([sorted(x) for x in M.MP.objects.find_problems()], [[], [], [], [], []], "problems")
""")

seed(
    "S57", "C08",
    [(MP, "                                if len(new_path) > len(old_path):\n", "                                if len(new_path) > cls._meta.get_field(\"path\").max_length:\n")],
    "fix_tree(fix_paths=True) has to reorder a level whose last step is taken, in a sorted tree whose path column has room for a longer path",
    "A node is put aside under a path that is one step too long, or the repair fails with a KeyError, instead of PathOverflow.",
    """
from boot import *
boot()
from treebeard.exceptions import PathOverflow
for i in range(9):
    M.MPTinySort.objects.add_root({"name": f"n{i}", "val": i})
for i in range(9):
    M.MPTinySort.objects.filter(name=f"n{i}").update(val=8 - i)
before = list(M.MPTinySort.objects.order_by("pk").values("pk", "path", "depth", "numchild"))
try:
    M.MPTinySort.objects.fix_tree(fix_paths=True)
    got = [n.name for n in M.MPTinySort.objects.get_tree()]
    same(got, [f"n{8 - i}" for i in range(9)], "order after the repair")
    same({len(n.path) for n in M.MPTinySort.objects.all()}, {1}, "lengths of the paths")
except PathOverflow:
    same(list(M.MPTinySort.objects.order_by("pk").values("pk", "path", "depth", "numchild")), before, "rows after PathOverflow")
except Exception as e:
    same(f"{type(e).__name__}: {e}", "PathOverflow or success", "outcome of fix_tree")
""")

seed(
    "S52", "C12",
    [(MP, '''        update_count = queryset.update(path=Concat(Value(new_path), Substr("path", len(old_path) + 1)))
        if update_count > 0:
''', '''        update_count = queryset.update(path=Concat(Value(new_path), Substr("path", len(old_path) + 1)))
        if update_count > 1:
''')],
    "fix_tree(fix_paths=True) moves a node that has no descendants",
    "No path_updated signal is sent for a leaf, so a copy kept from the signals still has it at its old path.",
    """
from boot import *
boot()
from treebeard.mp_tree import path_updated
grow(M.MP, "a(b c d(e)) f")
copy = dict(M.MP.objects.values_list("pk", "path"))

def follow(sender, old_path, new_path, **kw):
    for pk, p in copy.items():
        if p.startswith(old_path):
            copy[pk] = new_path + p[len(old_path):]

path_updated.connect(follow, sender=M.MP)
b = node(M.MP, "b")
del copy[b.pk]
b.delete()
M.MP.objects.fix_tree(fix_paths=True)
same(show(M.MP), "a(c d(e)) f", "tree")
same(copy, dict(M.MP.objects.values_list("pk", "path")), "copy of the paths kept from the signals")
""")

seed(
    "S58", "C04",
    [(MODELS, '        fields, filters = [], []\n        for field in self.model.node_order_by:\n            comparator = "gt"\n            if',
              '        fields, filters = [], []\n        comparator = "gt"\n        for field in self.model.node_order_by:\n            if')],
    "node_order_by with a descending field that is not the last, and two nodes that are equal in it",
    "The fields after a descending one are compared downwards too: nodes end up among the wrong siblings.",
    """
from boot import *
boot()
from django.db import models
from treebeard.mp_tree import MP_Node
from treebeard.ns_tree import NS_Node
for base in (MP_Node, NS_Node):
    T = extra_model("Mixed" + base.__name__, base, val=models.IntegerField(default=0), node_order_by=["-val", "name"])
    for n, v in (("b", 1), ("c", 2), ("a", 1), ("d", 1), ("e", 2)):
        T.objects.add_root({"name": n, "val": v})
    same([n.name for n in T.objects.get_root_nodes()], ["c", "e", "a", "b", "d"], "roots")
""")

seed(
    "S60", "C20",
    [(LT, "            if before and label >= before:\n                break  # No point looking any further\n", "            if before and len(label) >= len(before) and label >= before:\n                break  # No point looking any further\n")],
    "the right neighbour continues a label that is to be skipped",
    "The generated label sorts after the right neighbour.",
    """
from boot import *
boot("pg")
from treebeard.ltree import generate_label
for skip, after, before in (("", "A", "A00"), ("", "9Z", "A000"), ("B", "A", "B0"), ("0", None, "00A")):
    label = generate_label(set(skip), before=before, after=after)
    same((after or "") < label < before and label not in skip, True, f"{label} is between {after} and {before}")
""")

seed(
    "S61", "C17",
    [(FORMS, '            "treebeard_position",\n', '')],
    "a node is moved to the other side of the sibling it is offered relative to, and no other field is changed",
    "The form is valid and saved, and the node stays where it is.",
    """
from boot import *
boot()
from treebeard.forms import movenodeform_factory
for T in (M.MP, M.NS, M.AL):
    grow(T, "a b c")
    form = movenodeform_factory(T)
    b = node(T, "b")
    init = form(instance=b).initial
    f = form({"name": "b", "treebeard_ref_node": node(T, "a").pk, "treebeard_position": "left"}, instance=b)
    same(f.is_valid(), True, "valid")
    f.save()
    same(show(T), "b a c", T.__name__)
""")

seed(
    "S62", "C21",
    [(MODELS, "        return cls.objects.move(self, target, pos)\n", '        return cls.objects.move(self, target, pos or "last-sibling")\n')],
    "the deprecated node.move() without a position, in a tree with node_order_by",
    "The move is refused with InvalidPosition, where the manager's own moves to the sorted place.",
    """
from boot import *
boot()
grow(M.MPSort, "a=1(b=1 d=3) c=2")
node(M.MPSort, "c").move(node(M.MPSort, "b"))
same(show(M.MPSort), "a(b c d)", "tree")
""")

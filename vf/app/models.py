"""The tree models the checks drive.

They live in /verif and import the library from /repo.  Every tree
implementation gets the same family of shapes: plain, sorted (one ascending
key; one ascending then one descending key), multi-table child, proxy, custom
UUID primary key, and dependents with CASCADE / PROTECT foreign keys.
"""

import os
import uuid

from django.db import models

from treebeard.al_tree import AL_Node
from treebeard.mp_tree import MP_Node
from treebeard.ns_tree import NS_Node

PG = os.environ.get("VF_ENGINE") == "pg"


class Desc(models.Model):
    desc = models.CharField(max_length=255, default="")

    class Meta:
        abstract = True

    def __str__(self):
        return self.desc


class Tag(Desc):
    pass


class Related(models.Model):
    tag = models.ForeignKey(Tag, on_delete=models.CASCADE, null=True)
    tags = models.ManyToManyField(Tag, related_name="+")
    when = models.DateTimeField(null=True)
    amount = models.DecimalField(max_digits=9, decimal_places=3, null=True)
    info = models.JSONField(null=True)
    ident = models.UUIDField(null=True)
    flag = models.BooleanField(null=True)
    opt = models.IntegerField(null=True, default=7)
    note = models.TextField(blank=True, null=True, default="-")

    class Meta:
        abstract = True


class V1(models.Model):
    val = models.IntegerField(default=0)

    class Meta:
        abstract = True


class VT(models.Model):
    name = models.CharField(max_length=20, default="a")

    class Meta:
        abstract = True


class VN(models.Model):
    val1 = models.IntegerField(null=True)
    val2 = models.IntegerField(null=True)

    class Meta:
        abstract = True


class V2(models.Model):
    val1 = models.IntegerField(default=0)
    val2 = models.IntegerField(default=0)

    class Meta:
        abstract = True


class V3(models.Model):
    val1 = models.IntegerField(default=0)
    val2 = models.IntegerField(default=0)
    val3 = models.IntegerField(default=0)

    class Meta:
        abstract = True


# --------------------------------------------------------------------- MP
class MPStd(MP_Node, Desc):
    steplen = 3


class MPDef(MP_Node, Desc):
    pass


class MPTiny(MP_Node, Desc):
    steplen = 1
    alphabet = "0123"
    path = models.CharField(max_length=3, unique=True)


class MPBin(MP_Node, Desc):
    steplen = 2
    alphabet = "01"
    path = models.CharField(max_length=6, unique=True)


class MPTen(MP_Node, Desc):
    """Ten one-character steps: carries at the alphabet's end are close."""

    steplen = 1
    alphabet = "0123456789"


class MPAscii(MP_Node, Desc):
    """Steps of characters that mean something to LIKE, to SQL and to strip()."""

    steplen = 2
    alphabet = " %\\_~"


class MPMixed(MP_Node, Desc):
    """Both cases, for databases that tell them apart (PostgreSQL)."""

    steplen = 1
    alphabet = "ABCabc"


class MPCap2(MP_Node, Desc):
    """Three positions, two levels: 729 trees in all."""

    steplen = 1
    alphabet = "0123"
    path = models.CharField(max_length=2, unique=True)


class MPCap3(MP_Node, Desc):
    """Two positions, three levels: 676 trees in all."""

    steplen = 1
    alphabet = "012"
    path = models.CharField(max_length=3, unique=True)


class MPCapB(MP_Node, Desc):
    """Binary digits, two per step, and room for half a step more."""

    steplen = 2
    alphabet = "01"
    path = models.CharField(max_length=5, unique=True)


class MPCapS(MP_Node, Desc, V1):
    steplen = 1
    alphabet = "0123"
    path = models.CharField(max_length=2, unique=True)
    node_order_by = ["val"]


class MPTinySort(MP_Node, Desc, V1):
    steplen = 1
    alphabet = "0123"
    path = models.CharField(max_length=3, unique=True)
    node_order_by = ["val"]


class MPSort(MP_Node, Desc, V1):
    steplen = 2
    node_order_by = ["val"]


class MPSort2(MP_Node, Desc, V2):
    steplen = 2
    node_order_by = ["val1", "-val2"]


class MPSort3(MP_Node, Desc, V3):
    steplen = 2
    node_order_by = ["val1", "-val2", "val3"]


class MPSortD(MP_Node, Desc, V1):
    steplen = 2
    node_order_by = ["-val"]


class MPSortT(MP_Node, Desc, VT):
    steplen = 2
    node_order_by = ["name"]


class MPSortN(MP_Node, Desc, VN):
    steplen = 2
    node_order_by = ["val1", "-val2"]


class MPUuid(MP_Node, Desc):
    steplen = 2
    custom_id = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)


class MPStdChild(MPStd):
    extra = models.CharField(max_length=50, default="")


class MPStdGrandChild(MPStdChild):
    more = models.CharField(max_length=50, default="")


class MPStdProxy(MPStd):
    class Meta:
        proxy = True


class MPStdProxyProxy(MPStdProxy):
    class Meta:
        proxy = True


class MPStdChildProxy(MPStdChild):
    class Meta:
        proxy = True


class MPSortChild(MPSort):
    extra = models.CharField(max_length=50, default="")


class MPRel(MP_Node, Desc, Related):
    steplen = 2


class MPDep(models.Model):
    node = models.ForeignKey(MPStd, on_delete=models.CASCADE)


class MPProt(models.Model):
    node = models.ForeignKey(MPStd, on_delete=models.PROTECT)


# --------------------------------------------------------------------- NS
class NSStd(NS_Node, Desc):
    pass


class NSSort(NS_Node, Desc, V1):
    node_order_by = ["val"]


class NSSort2(NS_Node, Desc, V2):
    node_order_by = ["val1", "-val2"]


class NSSort3(NS_Node, Desc, V3):
    node_order_by = ["val1", "-val2", "val3"]


class NSSortD(NS_Node, Desc, V1):
    node_order_by = ["-val"]


class NSSortT(NS_Node, Desc, VT):
    node_order_by = ["name"]


class NSSortN(NS_Node, Desc, VN):
    node_order_by = ["val1", "-val2"]


class NSUuid(NS_Node, Desc):
    custom_id = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)


class NSStdChild(NSStd):
    extra = models.CharField(max_length=50, default="")


class NSStdGrandChild(NSStdChild):
    more = models.CharField(max_length=50, default="")


class NSStdProxy(NSStd):
    class Meta:
        proxy = True


class NSStdProxyProxy(NSStdProxy):
    class Meta:
        proxy = True


class NSStdChildProxy(NSStdChild):
    class Meta:
        proxy = True


class NSSortChild(NSSort):
    extra = models.CharField(max_length=50, default="")


class NSRel(NS_Node, Desc, Related):
    pass


class NSDep(models.Model):
    node = models.ForeignKey(NSStd, on_delete=models.CASCADE)


class NSProt(models.Model):
    node = models.ForeignKey(NSStd, on_delete=models.PROTECT)


# --------------------------------------------------------------------- AL
def _parent():
    return models.ForeignKey(
        "self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE
    )


class ALStd(AL_Node, Desc):
    parent = _parent()
    sib_order = models.PositiveIntegerField()


class ALSort(AL_Node, Desc, V1):
    parent = _parent()
    node_order_by = ["val"]


class ALSort2(AL_Node, Desc, V2):
    parent = _parent()
    node_order_by = ["val1", "-val2"]


class ALSort3(AL_Node, Desc, V3):
    parent = _parent()
    node_order_by = ["val1", "-val2", "val3"]


class ALSortD(AL_Node, Desc, V1):
    parent = _parent()
    node_order_by = ["-val"]


class ALSortT(AL_Node, Desc, VT):
    parent = _parent()
    node_order_by = ["name"]


class ALUuid(AL_Node, Desc):
    custom_id = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)
    parent = _parent()
    sib_order = models.PositiveIntegerField()


class ALStdChild(ALStd):
    extra = models.CharField(max_length=50, default="")


class ALStdGrandChild(ALStdChild):
    more = models.CharField(max_length=50, default="")


class ALStdProxy(ALStd):
    class Meta:
        proxy = True


class ALStdProxyProxy(ALStdProxy):
    class Meta:
        proxy = True


class ALStdChildProxy(ALStdChild):
    class Meta:
        proxy = True


class ALSortChild(ALSort):
    extra = models.CharField(max_length=50, default="")


class ALRel(AL_Node, Desc, Related):
    parent = _parent()
    sib_order = models.PositiveIntegerField()


class ALDep(models.Model):
    node = models.ForeignKey(ALStd, on_delete=models.CASCADE)


class ALProt(models.Model):
    node = models.ForeignKey(ALStd, on_delete=models.PROTECT)


# --------------------------------------------------------------------- LT
if PG:
    from treebeard.ltree import LT_Node
    from treebeard.ltree.fields import PathField

    class LTBox(Desc):
        """A path field outside a tree."""

        path = PathField(null=True)
        other = PathField(null=True)

    class LTStd(LT_Node, Desc):
        pass

    class LTSort(LT_Node, Desc, V1):
        node_order_by = ["val"]

    class LTSort2(LT_Node, Desc, V2):
        node_order_by = ["val1", "-val2"]

    class LTSort3(LT_Node, Desc, V3):
        node_order_by = ["val1", "-val2", "val3"]

    class LTSortD(LT_Node, Desc, V1):
        node_order_by = ["-val"]

    class LTSortT(LT_Node, Desc, VT):
        node_order_by = ["name"]

    class LTSortN(LT_Node, Desc, VN):
        node_order_by = ["val1", "-val2"]

    class LTUuid(LT_Node, Desc):
        custom_id = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)

    class LTStdChild(LTStd):
        extra = models.CharField(max_length=50, default="")

        class Meta:
            constraints = []

    class LTStdGrandChild(LTStdChild):
        more = models.CharField(max_length=50, default="")

        class Meta:
            constraints = []

    class LTStdProxy(LTStd):
        class Meta:
            proxy = True

    class LTStdProxyProxy(LTStdProxy):
        class Meta:
            proxy = True

    class LTStdChildProxy(LTStdChild):
        class Meta:
            proxy = True
            constraints = []

    class LTSortChild(LTSort):
        extra = models.CharField(max_length=50, default="")

        class Meta:
            constraints = []

    class LTRel(LT_Node, Desc, Related):
        pass

    class LTDep(models.Model):
        node = models.ForeignKey(LTStd, on_delete=models.CASCADE)

    class LTProt(models.Model):
        node = models.ForeignKey(LTStd, on_delete=models.PROTECT)


# -------------------------------------------------- customised models (C24)
def customised(kind, node, manager, queryset):
    """Models with their own managers, querysets, Meta options and column names."""

    class QS(queryset):
        def named(self, *names):
            return self.filter(desc__in=names)

    def manager_class(name, prepare):
        base = manager.from_queryset(QS, f"{kind}{name}From")

        def get_queryset(self):
            # the tree's manager picks its own queryset class: keep its ordering, take ours
            order = super(cls, self).get_queryset().query.order_by
            return prepare(QS(self.model, using=self._db).order_by(*order))

        cls = type(f"{kind}{name}Manager", (base,), {"get_queryset": get_queryset, "__module__": __name__})
        return cls

    def extra():
        if kind != "AL":
            return {}
        return {"parent": _parent(), "sib_order": models.PositiveIntegerField()}

    def meta(**kw):
        return type("Meta", (node.Meta,) if kind == "LT" else (), kw)  # the constraint is in Meta

    def make(name, bases=(Desc,), meta_kw=None, **attrs):
        body = {"__module__": __name__, **extra(), **attrs}
        if meta_kw:
            body["Meta"] = meta(**meta_kw)
        globals()[kind + name] = type(kind + name, (node, *bases), body)

    sel = manager_class("Sel", lambda q: q.select_related("tag").prefetch_related("tags"))
    ann = manager_class("Ann", lambda q: q.annotate(up=Upper("desc"), twice=models.F("pk")).defer("note"))
    dif = manager_class("Dif", lambda q: q.alias(low=Lower("desc")).only("desc"))
    plain = manager_class("Own", lambda q: q)
    # relations followed by default, and a plain manager declared before the tree's
    make("CSel", (Desc, Related), {"default_manager_name": "objects", "base_manager_name": "plain"}, plain=models.Manager(), objects=sel())
    # annotations and deferred fields by default, models ordered by something else
    make("CAnn", (Desc, Related), {"ordering": ["-desc"]}, objects=ann(), again=plain())
    # only one field loaded by default, default manager under another name as well
    make("COnly", (Desc, Related), {"ordering": ["desc"], "base_manager_name": "objects", "get_latest_by": "id"}, objects=dif())
    # other column names, primary key and table
    cols = {"code": models.AutoField(primary_key=True, db_column="the key"), "desc": models.CharField(max_length=255, default="", db_column="d e s c")}
    if kind == "MP":
        cols.update(
            path=models.CharField(max_length=60, unique=True, db_column="p a t h"), steplen=2,
            depth=models.PositiveIntegerField(db_column="Depth"), numchild=models.PositiveIntegerField(default=0, db_column="n"),
        )  # fmt: skip
    elif kind == "NS":
        cols.update({k: models.PositiveIntegerField(db_index=True, db_column="N " + k) for k in ("lft", "rgt", "tree_id", "depth")})
    elif kind == "AL":
        cols.update(
            parent=models.ForeignKey("self", related_name="children_set", null=True, on_delete=models.CASCADE, db_column="dad"),
            sib_order=models.PositiveIntegerField(db_column="Order"),
        )  # fmt: skip
    elif kind == "LT":
        cols.update(path=PathField(db_column="p a t h"))
    make("CCol", (), {"db_table": f"{kind} odd-Table", "ordering": ["-code"]}, objects=plain(), **cols)


from django.db.models.functions import Lower, Upper  # noqa: E402

from treebeard.al_tree import AL_NodeManager  # noqa: E402
from treebeard.mp_tree import MP_NodeManager, MP_NodeQuerySet  # noqa: E402
from treebeard.ns_tree import NS_NodeManager, NS_NodeQuerySet  # noqa: E402

customised("MP", MP_Node, MP_NodeManager, MP_NodeQuerySet)
customised("NS", NS_Node, NS_NodeManager, NS_NodeQuerySet)
customised("AL", AL_Node, AL_NodeManager, models.QuerySet)
if PG:
    from treebeard.ltree import LT_NodeManager, LT_NodeQuerySet
    from treebeard.ltree.fields import PathField

    customised("LT", LT_Node, LT_NodeManager, LT_NodeQuerySet)

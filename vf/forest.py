"""The reference model: an ordered forest, kept as boring as possible.

`roots` is the ordered list of root ids, `ch[id]` the ordered list of children,
`par[id]` the parent id or None.  Every operation of the library has its meaning
spelled out here and nowhere else.
"""

POS_SIB = ("first-sibling", "left", "right", "last-sibling")
POS_CHILD = ("first-child", "last-child")
SORTED_SIB = "sorted-sibling"
SORTED_CHILD = "sorted-child"


class Rejected(Exception):
    """The documented answer to this request is the exception called `name`."""

    def __init__(self, name):
        super().__init__(name)
        self.name = name


class Forest:
    def __init__(self):
        self.roots = []
        self.ch = {}
        self.par = {}

    # ------------------------------------------------------------ building
    @classmethod
    def from_parents(cls, ordered):
        """ordered: iterable of (id, parent id or None), siblings in order, any interleaving."""
        f = cls()
        ordered = list(ordered)
        for i, _ in ordered:
            f.ch[i] = []
        for i, p in ordered:
            f.par[i] = p
            (f.roots if p is None else f.ch[p]).append(i)
        return f

    def copy(self):
        f = Forest()
        f.roots = list(self.roots)
        f.ch = {k: list(v) for k, v in self.ch.items()}
        f.par = dict(self.par)
        return f

    def __eq__(self, other):
        return self.roots == other.roots and self.ch == other.ch and self.par == other.par

    def show(self, names=None):
        names = names or {}

        def one(i):
            s = str(names.get(i, i))
            return s + ("(" + " ".join(one(c) for c in self.ch[i]) + ")" if self.ch[i] else "")

        return "[" + " ".join(one(r) for r in self.roots) + "]"

    # ------------------------------------------------------------- reading
    def siblings(self, i):
        return self.roots if self.par[i] is None else self.ch[self.par[i]]

    def kids(self, p):
        return self.roots if p is None else self.ch[p]

    def dfs(self, start=None, max_rel=None):
        """Pre-order ids of the whole forest or of the branch at `start` (inclusive).

        max_rel: for a branch, levels below it; for the forest, number of levels.
        """
        out = []

        def go(i, left):
            out.append(i)
            if left is None or left > 0:
                for c in self.ch[i]:
                    go(c, None if left is None else left - 1)

        if start is not None:
            go(start, max_rel)
        else:
            if max_rel is None or max_rel > 0:
                for r in self.roots:
                    go(r, None if max_rel is None else max_rel - 1)
        return out

    def descendants(self, i, max_rel=None):
        return self.dfs(i, max_rel)[1:]

    def ancestors(self, i):
        out = []
        p = self.par[i]
        while p is not None:
            out.insert(0, p)
            p = self.par[p]
        return out

    def depth(self, i):
        return len(self.ancestors(i)) + 1

    def root(self, i):
        a = self.ancestors(i)
        return a[0] if a else i

    # ------------------------------------------------------------ updating
    def _attach(self, i, parent, index):
        self.par[i] = parent
        self.kids(parent).insert(index, i)

    def _index(self, pos, target):
        sibs = self.siblings(target)
        k = sibs.index(target)
        return {"first-sibling": 0, "left": k, "right": k + 1, "last-sibling": len(sibs)}[pos]

    def add_root(self, new):
        self.ch[new] = []
        self._attach(new, None, len(self.roots))

    def add_child(self, target, new):
        self.ch[new] = []
        self._attach(new, target, len(self.ch[target]))

    def add_sibling(self, target, pos, new):
        self.ch[new] = []
        self._attach(new, self.par[target], self._index(pos, target))

    def move(self, node, target, pos):
        if node == target and pos.endswith("child"):
            raise Rejected("InvalidMoveToDescendant")
        if node in self.ancestors(target):
            raise Rejected("InvalidMoveToDescendant")
        if pos in POS_CHILD:
            self.siblings(node).remove(node)
            self._attach(node, target, 0 if pos == "first-child" else len(self.ch[target]))
            return
        if node == target:
            # a position relative to itself: left/right leave it where it is
            sibs = self.siblings(node)
            if pos in ("left", "right"):
                return
            sibs.remove(node)
            sibs.insert(0 if pos == "first-sibling" else len(sibs), node)
            return
        self.siblings(node).remove(node)
        self._attach(node, self.par[target], self._index(pos, target))

    def remove(self, ids):
        """Remove the branches at `ids`; returns every id removed."""
        gone = set()
        for i in ids:
            gone.update(self.dfs(i))
        for i in gone:
            if self.par[i] is None:
                self.roots.remove(i)
            elif self.par[i] not in gone:
                self.ch[self.par[i]].remove(i)
        for i in gone:
            del self.par[i], self.ch[i]
        return gone

    # ---------------------------------------------------------- sorted trees
    def sorted_insert(self, new, parent, less):
        """Insert by key: before the first sibling that must come later, else last."""
        sibs = self.kids(parent)
        k = next((x for x, s in enumerate(sibs) if less(new, s)), len(sibs))
        self.ch.setdefault(new, [])
        self._attach(new, parent, k)

    def sorted_move(self, node, target, pos, less):
        if node == target and pos == SORTED_CHILD:
            raise Rejected("InvalidMoveToDescendant")
        if node in self.ancestors(target):
            raise Rejected("InvalidMoveToDescendant")
        parent = target if pos == SORTED_CHILD else self.par[target]
        self.siblings(node).remove(node)
        self.sorted_insert(node, parent, less)


def shapes(n):
    """Every ordered forest with n nodes, as nested tuples."""
    cache = {0: [()]}

    def forests(k):
        if k not in cache:
            out = []
            for first in range(1, k + 1):
                for kids in forests(first - 1):
                    for rest in forests(k - first):
                        out.append((kids,) + rest)
            cache[k] = out
        return cache[k]

    return forests(n)


def shape_parents(shape):
    """Parent index list (pre-order) of a nested-tuple shape."""
    out = []

    def go(children, parent):
        for kids in children:
            me = len(out)
            out.append(parent)
            go(kids, me)

    go(shape, None)
    return out

"""Binding of the four tree implementations to the reference model.

An adapter knows how to put a physical state into the database behind the
library's back, how to read one out, what a well-formed physical state is, and
which ordered forest it denotes.  A state is a tuple of rows in depth-first
order, without primary keys: the primary keys given to the rows on restore are
scrambled against tree order, so that nothing passes because of insertion order.
"""

import uuid
from functools import cmp_to_key

from django.db import connections, transaction

from vf.forest import Forest


class Malformed(Exception):
    pass


def scramble(n):
    """n distinct ranks, not monotone in tree order."""
    order = sorted(range(n), key=lambda i: (i * 0.6180339887 + 0.4) % 1.0)
    rank = [0] * n
    for r, i in enumerate(order):
        rank[i] = r
    return rank


class Adapter:
    kind = None
    phys = ()

    def __init__(self, model, alias="default"):
        self.model = model
        self.alias = alias
        self.meta = model._meta
        base = model
        ident = model.TREEBEARD_IDENTIFYING_FIELD
        self.base = base._meta.get_field(ident).model  # table that owns the tree fields
        if self.base._meta.proxy:
            self.base = self.base._meta.concrete_model
        self.bmeta = self.base._meta
        self.pkname = self.bmeta.pk.name
        self.uuid = self.bmeta.pk.get_internal_type() == "UUIDField"
        self.order_by = list(model.node_order_by or [])
        self.keys = [k.lstrip("-") for k in self.order_by]
        self.chain = None
        self.linguistic = None
        # names used here -> quoted column names
        self.column = {}
        for f in self.bmeta.local_concrete_fields:
            self.column[f.name] = self.column[f.attname] = self.column[f.column] = f'"{f.column}"'
        self.table = f'"{self.bmeta.db_table}"'

    # -------------------------------------------------------------- keys
    def key_less(self, a, b):
        """a, b: tuples of key values; True when a has to come before b."""
        for field, x, y in zip(self.order_by, a, b):
            if x == y:
                continue
            x, y = self.sortkey(x), self.sortkey(y)
            return x > y if field.startswith("-") else x < y
        return False

    def sortkey(self, v):
        """Text is ordered as the database orders it."""
        if not isinstance(v, str):
            return v
        if self.linguistic is None:
            with self.conn.cursor() as c:
                c.execute("SELECT 'a' < 'B'")
                self.linguistic = bool(c.fetchone()[0])
        return (v.lower(), v.swapcase()) if self.linguistic else v

    # ------------------------------------------------------------- database
    @property
    def conn(self):
        return connections[self.alias]

    def pks(self, n):
        rank = scramble(n)
        if self.uuid:
            return [uuid.UUID(int=(r + 1) << 100 | 0xABC) for r in rank]
        return [900000 + r for r in rank]

    def dbpk(self, pk):
        if self.uuid and self.conn.vendor == "sqlite":
            return pk.hex
        return pk

    def frompk(self, v):
        if self.uuid and not isinstance(v, uuid.UUID):
            return uuid.UUID(v)
        return v

    def insert_rows(self, rows):
        """rows: list of dicts column->value for the owning table."""
        if not rows:
            return
        cols = list(rows[0])
        sql = "INSERT INTO %s (%s) VALUES (%s)" % (
            self.table,
            ", ".join(self.column[c] for c in cols),
            ", ".join(self.ph(c) for c in cols),
        )
        with self.conn.cursor() as c:
            c.executemany(sql, [[r[k] for k in cols] for r in rows])

    def ph(self, col):
        return "%s"

    def clear(self):
        with self.conn.cursor() as c:
            c.execute("DELETE FROM " + self.table)

    def extra_cols(self, i):
        """Columns outside the tree fields and keys (desc identifies the node)."""
        out = {"desc": f"n{i}"}
        return out

    def select(self, cols):
        with self.conn.cursor() as c:
            c.execute("SELECT %s FROM %s" % (", ".join(cols), self.table))
            return c.fetchall()

    def restore(self, state):
        n = len(state)
        pks = self.pks(n)
        rows = []
        for i, row in enumerate(state):
            d = {self.bmeta.pk.column: self.dbpk(pks[i])}
            d.update(self.row_to_cols(row, pks))
            d.update(self.extra_cols(i))
            rows.append(d)
        self.insert_rows(rows)
        return pks

    def read(self):
        """pk -> dict of tree columns, keys and desc, straight from the table."""
        cols = [self.selcol(c) for c in (self.bmeta.pk.column, *self.phys, *self.keys, "desc")]
        out = {}
        for r in self.select(cols):
            d = dict(zip((*self.phys, *self.keys, "desc"), r[1:]))
            self.fix(d)
            out[self.frompk(r[0])] = d
        return out

    def selcol(self, c):
        return self.column[c]

    def fix(self, d):
        pass

    def payload(self, d):
        return tuple(d[k] for k in self.keys)

    # ----------------------------------------------------------- tree level
    def forest(self, rows):
        """Reference forest denoted by the physical rows; Malformed if none is."""
        raise NotImplementedError

    def canon(self, rows, forest=None):
        raise NotImplementedError

    def order(self, rows, forest):
        """Primary keys in the order of the rows of `canon`."""
        return forest.dfs()

    def in_bounds(self, state, b):
        return len(state) <= b.get("n", 99)

    def describe(self, state):
        return [list(r) for r in state]


class MPAdapter(Adapter):
    kind = "MP"
    phys = ("path", "depth", "numchild")

    def row_to_cols(self, row, pks):
        d = {"path": row[0], "depth": row[1], "numchild": row[2]}
        d.update(zip(self.keys, row[3:]))
        return d

    def forest(self, rows):
        m = self.base
        step, alpha = m.steplen, set(m.alphabet)
        maxlen = m._meta.get_field("path").max_length
        by_path = {}
        for pk, d in rows.items():
            p = d["path"]
            if p in by_path:
                raise Malformed(f"two nodes share path {p!r}")
            by_path[p] = pk
            if not p or set(p) - alpha:
                raise Malformed(f"path {p!r} has characters outside the alphabet")
            if len(p) % step:
                raise Malformed(f"path {p!r} is not a whole number of steps")
            if len(p) > maxlen:
                raise Malformed(f"path {p!r} is longer than max_length={maxlen}")
            if d["depth"] != len(p) // step:
                raise Malformed(f"node at path {p!r} has depth {d['depth']}")
        kids = {}
        ordered = []
        # alphabet order, not code point order
        idx = {c: i for i, c in enumerate(m.alphabet)}
        for p in sorted(by_path, key=lambda s: [idx[c] for c in s]):
            parent = p[:-step]
            if parent and parent not in by_path:
                raise Malformed(f"node at path {p!r} has no parent")
            ordered.append((by_path[p], by_path[parent] if parent else None))
            kids[parent] = kids.get(parent, 0) + 1
        for p, pk in by_path.items():
            if rows[pk]["numchild"] != kids.get(p, 0):
                raise Malformed(f"node at path {p!r} has numchild {rows[pk]['numchild']}, children {kids.get(p, 0)}")
        return Forest.from_parents(ordered)

    def canon(self, rows, forest=None):
        return tuple(
            sorted((d["path"], d["depth"], d["numchild"], *self.payload(d)) for d in rows.values())
        )

    def positions(self, state):
        step, conv = self.base.steplen, {c: i for i, c in enumerate(self.base.alphabet)}
        for r in state:
            s = r[0][-step:]
            v = 0
            for ch in s:
                v = v * len(conv) + conv[ch]
            yield v

    def in_bounds(self, state, b):
        if len(state) > b.get("n", 99):
            return False
        if "pos" in b and any(v > b["pos"] for v in self.positions(state)):
            return False
        return True

    def build(self, parents, payload=None, gaps=None):
        """State for a parent-index list; gaps[i] extra free positions left of node i."""
        base = len(self.base.alphabet)
        paths, cnt, kids = [], {}, {}
        for i, p in enumerate(parents):
            pos = cnt.get(p, 0) + 1 + (gaps[i] if gaps else 0)
            cnt[p] = pos
            s, v = "", pos
            while v:
                s = self.base.alphabet[v % base] + s
                v //= base
            s = s.rjust(self.base.steplen, self.base.alphabet[0])
            paths.append((paths[p] if p is not None else "") + s)
            kids[p] = kids.get(p, 0) + 1
        st = [
            (paths[i], len(paths[i]) // self.base.steplen, kids.get(i, 0), *(payload[i] if payload else ()))
            for i in range(len(parents))
        ]
        return tuple(st)


class NSAdapter(Adapter):
    kind = "NS"
    phys = ("tree_id", "lft", "rgt", "depth")

    def row_to_cols(self, row, pks):
        d = dict(zip(self.phys, row[:4]))
        d.update(zip(self.keys, row[4:]))
        return d

    def forest(self, rows):
        trees = {}
        for pk, d in rows.items():
            trees.setdefault(d["tree_id"], []).append((d["lft"], d["rgt"], d["depth"], pk))
        ordered = []
        for tid in sorted(trees):
            if tid < 1:
                raise Malformed(f"tree_id {tid}")
            nodes = sorted(trees[tid], key=lambda t: t[:2])
            ends = sorted([x for n in nodes for x in n[:2]])
            if ends != list(range(1, 2 * len(nodes) + 1)):
                raise Malformed(f"lft/rgt of tree {tid} are {[n[:2] for n in nodes]}: not exactly 1..{2 * len(nodes)}")
            stack = []
            for lft, rgt, depth, pk in nodes:
                if rgt <= lft:
                    raise Malformed(f"lft {lft} rgt {rgt} in tree {tid}")
                while stack and stack[-1][1] < lft:
                    stack.pop()
                if stack and stack[-1][1] < rgt:
                    raise Malformed(f"overlapping intervals in tree {tid}")
                if not stack and lft != 1:
                    raise Malformed(f"two roots in tree {tid}")
                if depth != len(stack) + 1:
                    raise Malformed(f"node lft={lft} in tree {tid} has depth {depth}, expected {len(stack) + 1}")
                ordered.append((pk, stack[-1][3] if stack else None))
                stack.append((lft, rgt, depth, pk))
        return Forest.from_parents(ordered)

    def canon(self, rows, forest=None):
        return tuple(
            sorted((d["tree_id"], d["lft"], d["rgt"], d["depth"], *self.payload(d)) for d in rows.values())
        )

    def in_bounds(self, state, b):
        if len(state) > b.get("n", 99):
            return False
        return "pos" not in b or all(r[0] <= b["pos"] for r in state)

    def build(self, parents, payload=None, gaps=None):
        n = len(parents)
        kids = {None: []}
        for i in range(n):
            kids[i] = []
        for i, p in enumerate(parents):
            kids[p].append(i)
        out = [None] * n

        def go(i, tid, lft, depth):
            nxt = lft + 1
            for c in kids[i]:
                nxt = go(c, tid, nxt, depth + 1)
            out[i] = (tid, lft, nxt, depth, *(payload[i] if payload else ()))
            return nxt + 1

        tid = 0
        for r in kids[None]:
            tid += 1 + (gaps[r] if gaps else 0)
            go(r, tid, 1, 1)
        return tuple(out)


class ALAdapter(Adapter):
    kind = "AL"

    def __init__(self, model, alias="default"):
        super().__init__(model, alias)
        self.pcol = self.bmeta.get_field("parent").column
        self.phys = (self.pcol,) if self.order_by else (self.pcol, "sib_order")

    def insert_rows(self, rows):
        super().insert_rows(rows)

    def row_to_cols(self, row, pks):
        d = {self.pcol: None if row[0] is None else self.dbpk(pks[row[0]])}
        k = 1
        if not self.order_by:
            d["sib_order"] = row[1]
            k = 2
        d.update(zip(self.keys, row[k:]))
        return d

    def fix(self, d):
        if d[self.pcol] is not None:
            d[self.pcol] = self.frompk(d[self.pcol])

    def forest(self, rows):
        kids = {None: []}
        for pk in rows:
            kids[pk] = []
        for pk, d in rows.items():
            p = d[self.pcol]
            if p is not None and p not in rows:
                raise Malformed("node whose parent does not exist")
            kids[p].append(pk)
        for p, lst in kids.items():
            if self.order_by:
                lst.sort(key=lambda pk: str(pk))
                lst.sort(
                    key=cmp_to_key(
                        lambda a, b: -1
                        if self.key_less(self.payload(rows[a]), self.payload(rows[b]))
                        else (1 if self.key_less(self.payload(rows[b]), self.payload(rows[a])) else 0)
                    )
                )
            else:
                so = [rows[k]["sib_order"] for k in lst]
                if len(set(so)) != len(so):
                    raise Malformed(f"siblings share a sib_order: {sorted(so)}")
                if any(s is None or s < 0 for s in so):
                    raise Malformed(f"bad sib_order: {so}")
                lst.sort(key=lambda pk: rows[pk]["sib_order"])
        f = Forest()
        f.roots = kids.pop(None)
        f.ch = kids
        f.par = {pk: d[self.pcol] for pk, d in rows.items()}
        seen = set(f.dfs())
        if seen != set(rows):
            raise Malformed("parent links form a cycle")
        return f

    def canon(self, rows, forest=None):
        """Rows in depth-first order; for sorted trees ties are broken by the subtree itself."""
        f = forest or self.forest(rows)
        if not self.order_by:
            ids = f.dfs()
            num = {pk: i for i, pk in enumerate(ids)}
            return tuple(
                (None if f.par[pk] is None else num[f.par[pk]], rows[pk]["sib_order"]) for pk in ids
            )

        def sub(pk):
            return (self.payload(rows[pk]), tuple(sorted(sub(c) for c in f.ch[pk])))

        out = []

        def emit(lst, parent):
            for pay, kids in sorted(lst):
                me = len(out)
                out.append((parent, *pay))
                emit(kids, me)

        emit([sub(r) for r in f.roots], None)
        return tuple(out)

    def order(self, rows, forest):
        if not self.order_by:
            return forest.dfs()

        def sub(pk):
            return (self.payload(rows[pk]), tuple(sorted(sub(c) for c in forest.ch[pk])))

        out = []

        def emit(lst):
            for pk in sorted(lst, key=sub):
                out.append(pk)
                emit(forest.ch[pk])

        emit(forest.roots)
        return out

    def in_bounds(self, state, b):
        if len(state) > b.get("n", 99):
            return False
        return self.order_by or "pos" not in b or all(r[1] <= b["pos"] for r in state)

    def build(self, parents, payload=None, gaps=None):
        cnt = {}
        out = []
        for i, p in enumerate(parents):
            cnt[p] = cnt.get(p, 0) + 1 + (gaps[i] if gaps else 0)
            out.append((p, *(payload[i] if payload else ())) if self.order_by else (p, cnt[p]))
        return tuple(out)


class LTAdapter(Adapter):
    kind = "LT"
    phys = ("path",)

    def ph(self, col):
        return "%s::text::ltree" if col == "path" else "%s"

    def selcol(self, c):
        return self.column[c] + "::text" * (c == "path")

    def row_to_cols(self, row, pks):
        d = {"path": row[0]}
        d.update(zip(self.keys, row[1:]))
        return d

    def forest(self, rows):
        by = {}
        for pk, d in rows.items():
            p = tuple(d["path"].split(".")) if d["path"] else ()
            if not p or not all(p):
                raise Malformed(f"empty path {d['path']!r}")
            if p in by:
                raise Malformed(f"two nodes share path {d['path']!r}")
            by[p] = pk
        ordered = []
        for p in sorted(by):
            if len(p) > 1 and p[:-1] not in by:
                raise Malformed(f"node at path {'.'.join(p)!r} has no parent")
            ordered.append((by[p], by[p[:-1]] if len(p) > 1 else None))
        return Forest.from_parents(ordered)

    def canon(self, rows, forest=None):
        return tuple(
            (".".join(t[0]), *t[1:])
            for t in sorted((tuple(d["path"].split(".")), *self.payload(d)) for d in rows.values())
        )

    def in_bounds(self, state, b):
        if len(state) > b.get("n", 99):
            return False
        last = [r[0].split(".")[-1] for r in state]
        if "lab" in b and any(len(x) > b["lab"] for x in last):
            return False
        return "chars" not in b or not set("".join(last)) - set(b["chars"])

    def build(self, parents, payload=None, gaps=None):
        labels = "BCDEFGHIJKLMNOPQRSTUVWXYZ"
        cnt, paths = {}, []
        for i, p in enumerate(parents):
            k = cnt.get(p, 0) + (gaps[i] if gaps else 0)
            cnt[p] = k + 1
            lab = labels[k] if k < 25 else "Z" * (k // 25) + labels[k % 25]
            paths.append((paths[p] + "." if p is not None else "") + lab)
        return tuple((paths[i], *(payload[i] if payload else ())) for i in range(len(parents)))


KINDS = {"MP": MPAdapter, "NS": NSAdapter, "AL": ALAdapter, "LT": LTAdapter}


def adapter(name, alias="default"):
    from vf.app import models

    return KINDS[name[:2]](getattr(models, name), alias)


class Scratch:
    """One enclosing transaction; every probe runs under a savepoint that is rolled back."""

    def __init__(self, alias="default"):
        self.alias = alias

    def __enter__(self):
        self.atomic = transaction.atomic(using=self.alias)
        self.atomic.__enter__()
        return self

    def __exit__(self, *exc):
        conn = connections[self.alias]
        conn.needs_rollback = False
        transaction.set_rollback(True, using=self.alias)
        self.atomic.__exit__(None, None, None)
        return False

    def probe(self):
        return Probe(self.alias)


class Probe:
    def __init__(self, alias):
        self.alias = alias

    def __enter__(self):
        self.sid = transaction.savepoint(using=self.alias)
        return self

    def __exit__(self, *exc):
        conn = connections[self.alias]
        conn.needs_rollback = False
        conn.run_on_commit = []
        transaction.savepoint_rollback(self.sid, using=self.alias)
        return False

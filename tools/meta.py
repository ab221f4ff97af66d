"""Writes properties.jsonl and MANIFEST.json from one table.  Run: python3 tools/meta.py"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MP, NS, AL, LT = "treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/al_tree.py", "treebeard/ltree/__init__.py"
MO, AD, FO, TT = "treebeard/models.py", "treebeard/admin.py", "treebeard/forms.py", "treebeard/templatetags/admin_tree.py"
ALL4 = [MP, NS, AL, LT]

BFS = "explicit-state model checking of the real code (breadth-first over database states) against a reference forest"

P = []


def p(id, title, statement, over, quant, why, files, mech, tech=BFS, level="model_checking", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  tech=tech, level=level, note=note, na=na))


H = "The tests run a few fixed calls on one fixed ten-node tree per model; "

p("C01", "A new node lands exactly where it was asked to go",
  "For every tree type without node_order_by, add_root puts the new node after the last root, add_child after the last child of the target, and add_sibling first, immediately left of, immediately right of, or last relative to the target, as its position asks. The new node carries the values it was created with, and no other node changes its parent, its order among siblings or its own data. This holds from every tree state the API can reach, including those with gaps left by deletes and moves.",
  ["histories", "inputs"],
  "every history of adds, moves and deletes that leads to the tree, every target and position, create_kwargs or instance",
  H + "where the new path/label/interval comes from depends on the gaps and label lengths that earlier operations left behind, which one fixed tree never has.",
  ALL4, [("add_root/add_child/add_sibling", MP), ("_reorder_nodes_before_add_or_move", MP), ("add_sibling, _alter_gap, _move_tree_right", NS), ("add_sibling sib_order shifting", AL), ("generate_label, _move_siblings_right_one_by_one", LT)])
p("C02", "move relocates exactly the branch it was asked to move",
  "For every tree type without node_order_by and every pair of node and target, move puts the node, with its whole branch in unchanged shape, at the requested position relative to the target (first-child, last-child, first-sibling, left, right, last-sibling, or last-sibling when none is given). All other nodes keep their parent, their order among siblings and their data. Moving a node next to itself or to where it already is leaves a correct tree too.",
  ["histories", "inputs"],
  "every reachable tree, every (node, target) pair including itself and its ancestors, every position",
  H + "a move rewrites many rows at once and its correctness depends on relative positions of source, target and their ancestors and on gaps; tests take a handful of pairs.",
  ALL4, [("move, _reorder_nodes_before_add_or_move, _set_newpath_in_branches", MP), ("move, _alter_gap, _close_gap, _move_tree_right", NS), ("move", AL), ("move", LT)])
p("C03", "delete removes exactly the selected nodes and their descendants",
  "Deleting a node, or any queryset of nodes, removes those nodes and all of their descendants and nothing else, together with the rows that reference them by cascading foreign keys. The remaining tree is well-formed with every other node at its place, and the returned count and per-model map equal the rows that really disappeared.",
  ["histories", "inputs"],
  "every reachable tree, every node and every subset of its nodes as a queryset (also filtered, reversed, and on related managers)",
  H + "overlapping selections (a node and its descendant, several children of one parent, siblings of one root) are sampled by two or three tests.",
  ALL4, [("MP_NodeQuerySet.delete", MP), ("NS_NodeQuerySet.delete", NS), ("parent foreign key with on_delete", AL), ("LT_NodeQuerySet.delete", LT), ("Node.delete", MO)])
p("C04", "node_order_by keeps every sibling list sorted",
  "In a tree with node_order_by (one or several fields, ascending or descending), after every add_root, add_child, add_sibling and move the siblings the node landed among are in non-decreasing order of those fields, if they were before. The new or moved node is under the requested parent, its branch is intact, and every other node keeps its parent and its order relative to its siblings. Where keys were changed by save() after insertion, or are null, the order is lost but the operations still work: they succeed, the node lands under the requested parent and the tree is well-formed.",
  ["histories", "inputs"],
  "every reachable sorted tree (ties included), every target and sorted position, every key value of a small domain relative to those present",
  H + "ties, descending keys, insertion before the first and after the last key and shifting of occupied positions are hit by a few examples only.",
  ALL4 + [MO], [("get_sorted_pos_queryset", MO), ("reorder/newpos with node_order_by", MP), ("sorted branches of add_sibling/move", NS), ("AL_NodeManager.get_queryset ordering", AL), ("sorted-sibling and sorted-child in add_sibling/move", LT)])
p("C05", "Stored bookkeeping stays well-formed and find_problems stays silent",
  "After any history of add, move, delete and load_bulk calls, the stored tree columns are exactly those of one ordered forest: paths unique, whole steps of the alphabet, within max_length and with existing parents, depth and numchild exact for materialized paths; nested intervals numbered 1..2n without holes or overlaps and exact depths for nested sets; acyclic parents and distinct sibling order for adjacency lists; unique valid paths with existing parents for ltree. find_problems reports no problem for such a tree.",
  ["histories"],
  "every history of operations within the bound from an empty or seed tree",
  H + "bookkeeping errors such as a wrong numchild or a hole in lft/rgt are invisible to most later reads and accumulate over histories.",
  ALL4, [("numchild updates in add/move/delete", MP), ("_alter_gap, _close_gap", NS), ("_make_hole_and_get_sibling_order", AL), ("_move_subtree_right, move", LT), ("find_problems", MP + ", " + NS)])
p("C06", "Navigation queries and predicates agree with one another and with the tree",
  "For every node of every reachable tree, the navigation calls (get_tree, root nodes, children, siblings, descendants, ancestors, parent, root, first/last child/sibling, previous/next sibling, with their max_depth and include_self options), the counts (children, descendants, group counts) and the predicates (is_root, is_leaf, is_child_of, is_sibling_of, is_descendant_of, depth) return exactly the nodes of one and the same ordered forest, in its order; counts are whole numbers. What they return as a queryset can be counted, sliced, reversed, filtered and used as a subquery like any other.",
  ["histories", "inputs"],
  "every reachable tree, every node and pair of nodes, every option value",
  H + "each query is a different predicate over path prefixes, intervals or parent chains; boundary trees (prefix paths, single nodes, gaps, many roots) are not covered.",
  ALL4 + [MO], [("get_children/get_siblings/get_descendants/get_ancestors/...", MP), ("same", NS), ("same", AL), ("same", LT), ("shared NodeManager/Node methods", MO)])
p("C07", "A rejected request raises the documented exception and changes nothing",
  "A request the API cannot honour raises the documented exception: InvalidPosition for an unknown position or one not allowed for the tree, MissingNodeOrderBy for a sorted position without node_order_by, InvalidMoveToDescendant for moving a node below or next to its own descendants or into itself, NodeAlreadySaved for a saved instance, ValueError-style rejection when the new node is given both ways or not at all, and ProtectedError for deleting protected rows. In every such case the stored tree and rows are exactly as before, and so are the tree columns of the objects given to a call on a single node.",
  ["inputs", "histories"],
  "every reachable small tree, every target, every invalid or inapplicable position or argument combination for each operation",
  "Tests check that a few bad calls raise; none checks that nothing was written, nor all position x tree-type combinations.",
  ALL4 + [MO, "treebeard/utils.py"], [("_prepare_pos_var_for_add_sibling/_prepare_pos_var_for_move", MO), ("check_create_args", "treebeard/utils.py"), ("InvalidMoveToDescendant checks in move", "each tree type")])
p("C08", "Materialized paths: a full tree raises PathOverflow or works, never corrupts",
  "When a materialized-path tree runs out of sibling positions or of path length, add_root, add_child, add_sibling, move, load_bulk and fix_tree either succeed with a correct tree or raise PathOverflow leaving the stored tree unchanged. An operation whose result would fit to the right of the existing siblings and within the path length is not refused.",
  ["histories", "inputs"],
  "every reachable state of trees with tiny alphabets, steps and path lengths, up to and beyond full, every operation",
  "Tests fill one tree in one direction; what happens at the brink depends on gaps, on the operation and on the height of the moved branch.",
  [MP], [("_inc_path, PathOverflow", MP), ("_reorder_nodes_before_add_or_move temporary path", MP), ("load_bulk bulk_create path", MP), ("fix_tree max_position", MP)])
p("C09", "fix_tree repairs what it documents, keeps the rest, and is idempotent",
  "On a materialized-path tree with valid paths, fix_tree makes depth and numchild exact and changes no path; with fix_paths it also closes gaps and restores node_order_by order, keeping every parent-child relation and, in unsorted trees, sibling order. Given a parent it changes nothing outside that node's branch, and repeating it changes nothing.",
  ["inputs", "histories"],
  "every small tree with every corruption of depth and numchild, every gap pattern, every permutation of sort keys, with and without parent",
  "Tests fix two hand-made broken trees.",
  [MP], [("fix_tree, _fix_numchild, _rewrite_node_path", MP)])
p("C10", "find_problems reports exactly the broken nodes",
  "On materialized-path trees find_problems returns, in the documented list for each kind, exactly the nodes with characters outside the alphabet, with a path that is not a whole number of steps, without a parent, with a wrong depth or with a wrong child count, each under the first kind that applies. On nested-sets trees it names every node whose rgt is not greater than its lft, partially overlapping nodes whenever there are any, roots that share a tree_id, and (where intervals nest properly) exactly the nodes with a wrong depth. A healthy tree gives empty lists, a parent limits the check to its branch, and the tree is never modified.",
  ["inputs"],
  "every small tree with every single and pair of corruptions of path, depth, numchild, lft, rgt or tree_id, and every missing row",
  "Tests use one broken fixture.",
  [MP, NS], [("find_problems", MP), ("find_problems", NS)])
p("C11", "dump_bulk and load_bulk round-trip any tree",
  "load_bulk(dump_bulk()) recreates an isomorphic ordered tree with the same field values (foreign keys and many-to-many relations included) in every tree type, also under a given parent, after existing nodes, with keep_ids and with bulk_create. load_bulk returns the primary keys of exactly the nodes it added and leaves existing nodes as they were; dump_bulk of a branch describes exactly that branch and changes nothing.",
  ["inputs", "histories"],
  "every reachable small tree as source, every node as branch, every destination parent, keep_ids on and off, every bulk_create setting",
  "Tests load one fixed structure; order, nesting depth, sorted insertion and partial branches vary with shape.",
  ALL4 + [MO, "treebeard/utils.py"], [("load_bulk/dump_bulk", MP), ("dump_bulk", NS), ("dump_bulk", AL), ("dump_bulk", LT), ("load_bulk", MO), ("prepare_dumpdata_for_loading, save_m2m", "treebeard/utils.py")])
p("C12", "Tree signals are enough to keep an external copy in step",
  "For materialized-path, nested-sets and ltree trees, replaying the tree-change signals in the order they are sent, together with Django's own save signal for the node itself, onto a copy of the stored tree columns (path, depth, tree_id, lft, rgt) yields exactly the stored columns after every successful operation, fix_tree and load_bulk included. The signals name the tree's model as sender and the database that was written.",
  ["histories", "inputs"],
  "every operation from every reachable state; mirror compared after each",
  "Tests assert the arguments of a few signals; whether the sequence suffices to follow the tree depends on every combination of shifts.",
  [MP, NS, LT], [("path_updated, nodes_deleted", MP), ("gap_altered, tree_ids_incremented, subtree_moved, nodes_deleted", NS), ("subtree_moved_right, subtree_moved, nodes_deleted", LT)])
p("C13", "Concurrent appends keep the tree correct",
  "When two or three transactions on PostgreSQL concurrently append to one tree (add_child, add_root, add_sibling at the end, deletion of other leaves), then in every interleaving of their SQL statements each one either succeeds or fails with a database error and has no effect, and not all of them fail. Appends under one parent all succeed, in every tree type. Afterwards every acknowledged node is present under its parent exactly once, no path, label or position is used twice, and the stored tree is well-formed. For nested sets this is claimed for add_child under one parent or in different trees, for adjacency lists except the order among concurrently added roots (see the documented caveats).",
  ["schedules"],
  "every interleaving, at SQL-statement granularity, of two or three concurrent transactions on small trees",
  "No test runs two transactions at once.",
  ALL4, [("unique path, select_for_update in add_child", MP), ("select_for_update in add_child, F() updates", NS), ("select_for_update in add_child", AL), ("select_for_update in add_child, deferred unique path", LT)],
  tech="stateless exploration of all statement interleavings of real PostgreSQL transactions", note="")
p("C14", "A failing operation leaves no trace",
  "If any single SQL statement of an add, move, delete, load_bulk or fix_tree call, of the save of a MoveNodeForm or of a drag and drop in the admin fails, the exception reaches the caller and the stored tree is exactly as it was before the call, even in autocommit mode; called inside a transaction, adds, moves, loads and repairs let the caller handle the exception and go on in it. Node deletion with cascades is covered as well.",
  ["fault_sequences", "histories"],
  "every operation on every small tree, failing at every statement it executes",
  "No test injects a failure inside an operation.",
  ALL4 + ["treebeard/utils.py"], [("atomic", "treebeard/utils.py"), ("@atomic on operations", "each tree type")],
  tech="exhaustive fault injection at every SQL statement of every operation", level="fault_enumeration")
p("C15", "Objects passed to and returned by operations describe the stored tree",
  "After a successful add_root, add_child, add_sibling or move, the returned node, the moved node and the target object given to the call hold the tree columns that are stored for them. Their depth, leaf and root predicates, parent and children, read without reloading, agree with the stored tree. add_child also brings a target up to date that was read before other nodes were added or removed below it. A target whose row no operation has touched since it was read is as good as a fresh one, whatever it remembers of other nodes; any object is exact again after refresh_from_db(); get_parent(update=True), and get_depth(update=True) of adjacency lists, tell the stored parent and depth even to an object that is out of date; and a single-node call that is refused leaves the objects given to it as they were.",
  ["histories", "inputs"],
  "every operation from every reachable small tree, with fresh target and node objects",
  "Tests reload objects before asserting or use them once; stale attributes show only in chains of calls on the same objects.",
  ALL4, [("in-memory updates after add/move (path, depth, numchild, lft/rgt, sib_order)", "each tree type")])
p("C16", "Inherited and proxy models share one consistent tree",
  "Nodes of a multi-table child model (any depth) and of proxy models (of the base model, of another proxy, of a child model) live in the same tree as those of the base model: adding, moving and deleting through any of the classes gives the same tree as through the base class. Navigation from any node returns all nodes of the tree, as base-class objects, or proxy-class objects when called on a proxy of the base model.",
  ["histories", "configurations"],
  "every short history in which each operation goes through any class of the hierarchy",
  H + "one class per test; mixtures of classes are not explored.",
  ALL4 + [MO], [("NodeManager.tree_model", MO), ("tree_model.objects in every operation", "each tree type")])
p("C17", "MoveNodeForm creates and moves nodes as its fields say",
  "Saving a valid MoveNodeForm creates or moves the node so that it ends at the position its reference node and position fields name, or among the roots when no reference is given, and saves the other form fields. The form's initial values describe the node's present position, so that re-submitting them unchanged leaves the tree unchanged, and the offered choices and validation never let a node be placed below itself; each choice is labelled with the node's text, escaped, and indented by its depth, as are the choices of TreeNodeChoiceField, which are the nodes of its queryset in order. An instance that is not saved yet is created where the fields say, and a position given in `initial` is applied when it is submitted.",
  ["inputs", "histories"],
  "every small tree, every node (or none, for a new one), every reference node and position",
  "Tests submit a few fixed forms.",
  [FO], [("MoveNodeForm.save, _get_initial, _set_ref_model_queryset", FO)])
p("C18", "The admin change list and move view act on the tree faithfully",
  "The admin move view performs exactly the requested move (as last child of the target or directly before it, in key order where the tree is sorted), or answers with an error and changes nothing, and refuses users without change permission. The change list shows the root nodes and the children view a node's children (or 404 for a node that is not there), each once over all pages, in tree order, with depth, parent and has-children flag as stored. Add, change and delete views change the tree as their form says; if they reject the form or an inline, nothing is changed.",
  ["inputs", "histories"],
  "every small tree, every (node, target, as_child) triple and request variant",
  "Tests issue a few moves on a fixed tree.",
  [AD, TT], [("TreeAdmin.move_node, get_queryset, children_view, _changeform_view", AD), ("tree_context, _get_annotated_context_queryset", TT)])
p("C19", "Step encoding is a bijection that preserves order",
  "For every alphabet the library accepts, encoding a non-negative integer and decoding it gives the integer back, zero-padded encodings of equal length compare (in alphabet order) as the integers do, and decoding rejects foreign characters. Materialized-path construction, parent-path and child-interval helpers are consistent with that encoding.",
  ["inputs"],
  "every alphabet from the tested family, every integer of one to three digits plus all carries around powers of the base",
  "Tests check a table of numbers.",
  ["treebeard/numconv.py", MP], [("NumConv.int2str/str2int", "treebeard/numconv.py"), ("_get_path, _get_basepath, _get_children_path_interval, _inc_path", MP)])
p("C20", "Ltree labels are generated strictly between their neighbours",
  "The label generator returns a label of allowed characters that sorts strictly after the given left label and strictly before the given right label where such bounds are given, and that is not among the labels to skip. It does so for every pair of bounds that leaves room, and terminates for all.",
  ["inputs"],
  "every ordered pair of labels up to a length over a small sub-alphabet containing its ends, every skip set from the neighbourhood",
  "Tests check a dozen examples.",
  [LT], [("generate_label", LT)])
p("C21", "Deprecated node methods behave as the manager methods that replace them",
  "Each deprecated method on nodes and node classes, and each deprecated handler class, has the same result and the same effect on the tree as the manager call it names, for every argument it accepts, and emits the removal warning.",
  ["inputs", "histories"],
  "every deprecated entry point, every small tree, every node and argument",
  "Tests call some of them once.",
  [MO, "treebeard/deprecation.py"] + ALL4, [("get_moved_manager_method/_classmethod", "treebeard/deprecation.py"), ("add_root/add_child/add_sibling/move wrappers", MO), ("MP_*Handler", MP)])
p("C22", "Annotated lists describe nesting exactly",
  "get_annotated_list and get_annotated_list_qs return the nodes in tree order with levels relative to the start, an open flag exactly where a node begins a new group of children, and closes such that reading opens and closes as brackets reconstructs the very same tree. max_depth leaves out exactly the nodes that are deeper than it in the tree.",
  ["inputs", "histories"],
  "every small forest, every start node and depth limit, all tree types",
  "Tests compare three literal lists.",
  [MO], [("get_annotated_list_qs, get_annotated_list", MO)])
p("C23", "With a database router every operation stays on the routed database",
  "When a router sends the tree model to a database other than the default, every read and write of every tree operation, its transaction and its signals use that database. The results are those of an unrouted tree, failures roll back there, and the default database is never touched.",
  ["configurations", "histories", "fault_sequences"],
  "every operation on every small tree, all statements on both connections recorded",
  "Tests use one database.",
  ALL4 + ["treebeard/utils.py", AD], [("router.db_for_write/connections[...]", "each tree type"), ("atomic", "treebeard/utils.py")])
p("C24", "Custom managers, querysets, options and columns leave the tree intact",
  "A model may replace its manager by a subclass of the tree's manager whose querysets are of a custom class and follow relations, prefetch, annotate or defer fields by default, may declare further managers, name its default or base manager, order itself by something else in Meta, and rename its columns, table and primary key. All operations, deletions, navigation calls, dumps, loads and checks then have the same results as on a plain model, and the querysets they return are the model's own. The system check treebeard.E001 is reported exactly for models whose default manager is not a subclass of the tree's manager.",
  ["configurations", "histories"],
  "every customised model of a family covering these variations in every tree type, every small tree, every operation and call; every arrangement of managers for the system check",
  "Tests know one custom manager per tree type and read through it once.",
  ALL4 + [MO, "treebeard/ltree/fields.py"], [("get_queryset of the managers", "each tree type"), ("Node.check", MO), ("NodeManager.tree_model", MO), ("PathValueProxy", "treebeard/ltree/fields.py")])

p("C25", "The ltree path field stores paths unchanged and its lookups mean label prefixes",
  "On PostgreSQL, treebeard.ltree's PathField in any model stores the path it is given, as text, list of labels or PathValue, and reads the same path back as a PathValue, through create, save, update, bulk operations, values, deferred loading, refreshing, copies, pickles, serializers and forms; text that is not a path is refused with a ValidationError by forms and full_clean. filter(path__ancestors=) and filter(path__descendants=) select exactly the rows whose path is a prefix, or an extension, of the operand, which may be a literal in any of those forms or a column; depth, comparisons, ordering, exclude and in, Subpath, NLevel, Ltree2Text and Text2LTree and concatenation agree with the lists of labels, whatever the database's collation; rows without a path are never selected by them.",
  ["inputs", "histories"],
  "every path over small alphabets (labels that are prefixes of each other, digits, both cases, special and very long labels) up to a depth, every pair of them as stored value and operand, every form of operand, every lookup and function; every text up to a length as form input",
  "Tests look up one or two literal paths inside a tree model.",
  ["treebeard/ltree/fields.py"], [("PathField, PathValue", "treebeard/ltree/fields.py"), ("AncestorLookup, DescendantLookup, Subpath, NLevel", "treebeard/ltree/fields.py")])

p("C26", "Nodes are ordinary Django objects and survive copies, saves and fixtures",
  "However the object of a stored node was obtained (get, only, defer, raw SQL, in_bulk, iterator, annotate, a foreign key, select_related, prefetch_related, a pickle, a copy, partly or wholly refreshed), navigation calls and predicates answer for it as for a freshly read one, and add_child, add_sibling, move and delete called with it give the tree they should. Saving an up-to-date node in any ordinary Django way (save, update_fields, bulk_update, update, update_or_create) changes the saved fields and nothing of the tree. Serializing all nodes (json, jsonl, xml, python, dumpdata) and loading the result into an empty table, in whatever order the rows come, restores every row exactly, for inherited models too, and the loaded tree can be worked with at once.",
  ["inputs", "histories"],
  "every small tree, every node, every way to obtain or save it, every operation on and between nodes so obtained, every format and row order",
  "Tests take nodes from get() or get_tree() only; deferred, pickled or deserialized objects take other paths through the attributes and caches that the operations rely on.",
  ALL4 + [MO, "treebeard/ltree/fields.py"], [("Node.refresh_from_db, cached attributes, delete", MO), ("operations reading and writing node attributes", "each tree type"), ("PathValueProxy, PathField", "treebeard/ltree/fields.py")])
p("C27", "The number of queries a read takes does not grow with the tree",
  "In materialized-path, nested-set and ltree trees each navigation call and predicate, get_annotated_list, get_descendants_group_count, dump_bulk (not for nested sets), adding a node at the end of a list of siblings and deleting a node take a small number of queries that is independent of the size and the shape of the tree; so do MoveNodeForm, TreeNodeChoiceField and the admin's lists and its add and change pages. In adjacency lists this holds for the calls that need not walk the tree: children, siblings, parent, roots, leaf and root predicates, the admin's list of the roots, and appending nodes.",
  ["inputs"],
  "every small shape, blown up in width and in depth, every node of the shape, every such call",
  "Tests count queries on one tree of ten nodes and for some calls; elsewhere a query per node returns the right answer.",
  ALL4 + [MO, FO, AD, TT], [("get_tree, get_children, get_descendants, ...", "each tree type"), ("get_annotated_list_qs, get_descendants_group_count", MO), ("TreeAdmin, tree_context", AD), ("MoveNodeForm", FO)],
  tech="exhaustive enumeration of the reads of every small tree shape, blown up, on the real code with every query counted")

WHERE = {}


def props():
    out = []
    for d in P:
        out.append(
            {
                "id": d["id"], "title": d["title"], "statement": d["statement"],
                "quantifier": {"over": d["over"], "text": d["quant"]},
                "why_tests_cant": d["why"],
                "anchors": {
                    "files": d["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in d["mech"]],
                },
            }
        )  # fmt: skip
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for o in out:
            assert len(o["title"]) <= 80, o["title"]
            fh.write(json.dumps(o) + "\n")


NOTE = ("Exhaustive within the bounds the evidence file lists (tree size, label/position range, operation alphabet), on the real "
        "code and a real database; states are restored by SQL and recorded histories are replayed through the API. "
        "Trusts SQLite/PostgreSQL, Django, and the reference model in vf/forest.py.")


def manifest():
    checks, na = [], []
    for d in P:
        id = d["id"]
        if os.path.exists(os.path.join(ROOT, "vf", "checks", id.lower() + ".py")):
            checks.append(
                {
                    "property": id,
                    "quick_cmd": f"bash run.sh {id} --tier quick",
                    "thorough_cmd": f"bash run.sh {id} --tier thorough",
                    "evidence_file": f"evidence/{id}.json",
                    "technique": d["tech"],
                    "level": d["level"],
                    "level_note": d["note"] or NOTE,
                }
            )
        else:
            na.append({"property": id, "reason": d["na"] or "Model checking applies; the check is not built yet."})
    m = {
        "version": 1,
        "setup_cmd": "bash run.sh --selftest",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every check drives the unmodified library. See DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


props()
manifest()

"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, level_note,
         technique, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  note=level_note, technique=technique, state=state,
                  observe=observe))


BFS = "explicit-state exploration of the real code over operation sequences"
ENUM = "exhaustive bounded enumeration of executions of the real code"

T = "liblarch/tree.py"
TN = "liblarch/treenode.py"
FT = "liblarch/filteredtree.py"
VT = "liblarch/viewtree.py"
FB = "liblarch/filters_bank.py"
VC = "liblarch/viewcount.py"
PQ = "liblarch/processqueue.py"
INI = "liblarch/__init__.py"
TM = "liblarch_gtk/treemodel.py"
GTK = "liblarch_gtk/__init__.py"

prop("C01", "The tree is always a well-formed rooted acyclic graph",
     "After every operation on a Tree or its nodes, whether it succeeds or is "
     "refused, parent and child lists agree in both directions, hold no "
     "duplicates and no absent nodes, there is no cycle, and a node is a "
     "top-level node exactly when it has no parent, so every node is "
     "reachable from the root. All the ways of reading the structure "
     "(has_node, get_node, has/get parents and children, nth child, child "
     "index, the main view) agree with each other.",
     ["histories"], "every sequence of add, re-add, remove (recursive or "
     "not), move, add/remove parent, add child, deferred and declared "
     "relationships",
     "The tests build a few fixed trees; the invariant must survive every "
     "history, in particular several parents and operations on nodes that "
     "are not there yet.",
     [T, TN, INI],
     [("MainTree._create_relationship/_destroy_relationship", T),
      ("MainTree._add_node/_remove_node", T), ("_Node.set_parent", TN)],
     "All histories of any length over 3 node ids (state space closes); all "
     "4-node graphs and ten larger shapes with 2 further operations. Assumes "
     "non-empty string ids.",
     BFS, [("nodes", "id -> node", T), ("pending_relationships",
                                       "relationships that wait", T)])

prop("C02", "Every editing operation has exactly its documented effect",
     "Each editing operation changes the set of nodes, the parents and "
     "children of every node, their order and the top-level nodes exactly as "
     "its documentation says and nothing else: new children are appended, a "
     "move leaves only the new parent, a non-recursive removal makes "
     "children without other parents top-level nodes, a recursive one "
     "removes the whole subtree. A removed node that is added again comes "
     "back without its old relations.",
     ["histories"], "every sequence of editing operations, compared step by "
     "step with a reference model",
     "Tests compare a handful of results; the effect of an operation depends "
     "on everything that happened before (pending relationships, several "
     "parents, re-added nodes).",
     [T, TN, INI],
     [("MainTree._add_node/_remove_node/_new_relationship/"
       "_break_relationship", T), ("_Node.set_parent/add_child", TN)],
     "Refinement of a plain reference model (mc/ref.py) by the real code on "
     "all histories of any length over 3 ids, plus 4-node graphs and larger "
     "shapes with 2 further operations.", BFS)

prop("C03", "Cyclic relationships are refused without damage",
     "No request, in whatever way it is made, can put a node under itself or "
     "under one of its descendants: attaching two present nodes that way "
     "raises an exception and leaves the tree and all views exactly as they "
     "were, and of relationships declared in advance that form a cycle only "
     "those are dropped that would close it. Requests that close no cycle "
     "are always honoured.",
     ["inputs", "histories"],
     "every graph up to 4 nodes and larger shapes, every pair of nodes, "
     "every API; every set of declared relationships over 3 nodes in every "
     "arrival order",
     "Tests try two or three cycles by one or two of the APIs.",
     [T, TN, INI],
     [("MainTree._is_circular_relation", T), ("MainTree._new_relationship",
                                              T), ("_Node.set_parent", TN)],
     "All graphs (up to isomorphism at 4 nodes in quick) x all pairs x all "
     "attaching APIs; all declaration sets over 3 ids.", ENUM)

prop("C04", "Deferred relationships do not depend on arrival order",
     "A relationship may be declared before one or both of its nodes are in "
     "the tree, from the child's or the parent's side, on the node or "
     "through the tree; it takes effect in the tree and in every view as "
     "soon as both nodes are present. Every order of adding the same nodes "
     "ends in the same graph, and removing a node cancels the relationships "
     "that wait for it.",
     ["histories", "configurations"],
     "every graph up to 3 nodes x every way of declaring each relationship "
     "x every arrival order; 4 nodes and larger graphs with fewer ways",
     "Tests add two or three nodes in one order.",
     [T, TN], [("MainTree.pending_relationships", T),
               ("_Node.pending_relationships", TN)],
     "Complete enumeration within the stated sizes; both the tree and an "
     "unfiltered and a filtered view are compared after every arrival.",
     ENUM)

prop("C05", "A view shows exactly the nodes its filters accept, in place",
     "After every operation a view displays exactly the nodes of the tree "
     "that all its filters accept; each is displayed under precisely those "
     "of its parents that are displayed, or at top level if there is none, "
     "and in a view with a flat filter every displayed node is at top level. "
     "This includes nodes that appear, vanish or move because a child or "
     "descendant changed.",
     ["histories", "inputs"],
     "every history of edits, data changes and refreshes, for filters on "
     "own data, direct relations, children, whole subtrees, their negations, "
     "conjunctions and flat variants",
     "The incremental update is order sensitive and recursive; tests try "
     "fixed trees with few filters, the failures found here needed several "
     "parents or subtree-dependent filters.",
     [FT, VT, FB],
     [("FilteredTree.__update_node", FT), ("FilteredTree.refilter", FT)],
     "All histories of any length over 3 ids per view for 16 views; all "
     "4-node graphs x all colourings x one operation; larger shapes. "
     "Assumes filters are pure functions of the node, its direct relations "
     "and its descendants, and that data changes are followed by "
     "modified().", BFS, [("nodes", "displayed nodes", FT)])

prop("C06", "Replaying a view's notifications reproduces the view",
     "An observer that starts from the current state and applies every "
     "added and deleted notification of a view has after every operation "
     "exactly the view's content, in the same order. No notification refers "
     "to a position that does not exist at that moment: nodes are added "
     "under existing positions and once only, deleted only after everything "
     "below them, and modified only where they are displayed.",
     ["histories"], "every history of edits, data changes and refreshes, "
     "for all the kinds of filters",
     "The order of notifications inside one operation is what a widget "
     "depends on; tests mostly check final states.",
     [FT, VT],
     [("FilteredTree.send_add_tree/send_remove_tree", FT),
      ("FilteredTree.callback", FT), ("ViewTree.__emit", VT)],
     "As C05, with a mirror rebuilt from notifications compared to the view "
     "after every operation.", BFS)

prop("C07", "Changing filters leads to the same view as starting with them",
     "Whatever sequence of apply, unapply, reset, parameter change and "
     "deferred (refresh=False) change a view went through, once the change "
     "is refreshed it lists the right filters and displays exactly what the "
     "filters in force, with their parameters, negation and flatness, call "
     "for; notifications stay replayable all along. Counting or listing "
     "with additional filters gives the displayed nodes those filters "
     "accept.",
     ["histories"], "every sequence of filter operations interleaved with "
     "edits of the tree and with filters leaving and entering the bank",
     "Tests apply and remove a filter once or twice.",
     [FT, VT, FB, INI],
     [("FilteredTree.apply_filter/unapply_filter/reset_filters/refilter",
       FT), ("Filter.is_displayed/set_parameters", FB),
      ("FilteredTree.get_nodes", FT)],
     "All histories of any length over 2 ids (three filters, a parametrised "
     "one, deferred changes, bank changes); 3- and 4-node graphs and larger "
     "shapes to the stated depth.", BFS)

prop("C08", "Displayed rows never go stale",
     "A row whose content is computed when its position is announced as "
     "added or modified always shows current data: after any edit, or after "
     "modified()/refresh following a data change, every displayed position "
     "of the node concerned and of each of its displayed ancestors has been "
     "announced again.",
     ["histories"], "every history of edits, data changes and refreshes, "
     "row content being a function of the node and everything below it",
     "Tests count callbacks in a few scenarios.",
     [FT, T],
     [("FilteredTree.__update_node direction up", FT),
      ("MainTree._callback node-modified", T)],
     "As C05, the row content being the whole subtree of the node (the most "
     "demanding function).", BFS)


SCHED = "stateless exploration of thread schedules of the real code " \
    "(controlled scheduler, preemption-bounded)"

prop("C09", "A view count is exact and its observers are told every change",
     "A ViewCount shows, at any time, the number of nodes of the tree that "
     "every filter applied to it accepts; applying, unapplying, changing and "
     "removing filters, adding, changing, moving and deleting nodes keep it "
     "exact. Every change of the number calls each registered observer, once "
     "unregistered an observer is not called any more, and a refused request "
     "changes nothing. (Filters of a count look at the node's own data.)",
     ["histories"], "every history of node edits, data changes, filter and "
     "observer operations, filters returning bools, numbers or other "
     "truth values",
     "Tests look at a handful of counts; drift only shows after particular "
     "combinations of filter and node changes.",
     [VC, INI, FB],
     [("ViewCount.__update/__is_displayed", VC),
      ("ViewCount.apply_filter/unapply_filter", VC),
      ("Tree.get_viewcount", INI)],
     "All histories of any length over 2 ids with 3 filters and 2 observers; "
     "3 ids and larger graphs to the stated depth; counts created on every "
     "3-node graph.", BFS)

prop("C10", "Requests of other threads are processed once, in order, at home",
     "A request made by a thread other than the one that created the tree is "
     "processed by the main loop on the tree's own thread: never lost, never "
     "executed elsewhere, at most once per request (an equal request that is "
     "still waiting may absorb it), more urgent priorities first and in the "
     "order of arrival within one priority. A request that fails does not "
     "affect the others. Requests of the tree's own thread are done when the "
     "call returns. When nothing is left to do the main loop becomes idle.",
     ["schedules"], "all interleavings of the requesting threads with the "
     "main loop",
     "Tests run one schedule that the operating system happens to pick.",
     [PQ, INI, T],
     [("SyncQueue.push/process/process_queue", PQ)],
     "All schedules with at most 2 preemptions (thorough: 3) of two workers "
     "with one request, 1 (thorough: 2) for longer programs; points at every "
     "line of processqueue.py and every lock operation.", SCHED,
     [("_queue/_low_queue/_vip_queue", "waiting requests", PQ),
      ("_handler", "idle source while something waits", PQ)])

prop("C11", "Edits from several threads leave one consistent tree and views",
     "Edits of a tree requested by several threads concurrently with its own "
     "thread end, once the main loop is idle, in a well-formed acyclic tree "
     "whose filtered views and counts show exactly what their filters accept "
     "and whose observers were told every change. When the requests only add "
     "nodes and relationships, every schedule ends in the same tree, the one "
     "that contains all of them.",
     ["schedules"], "all interleavings of edit programs of two threads with "
     "the main loop", "Tests never interleave edits with the main loop.",
     [T, TN, PQ, FT],
     [("_Node.add_parent/add_child/set_parent/remove_parent", TN),
      ("MainTree._new_relationship/_break_relationship", T),
      ("SyncQueue.push", PQ)],
     "All schedules with one preemption (thorough: two) of all pairs of 20 "
     "edits, points at every line of treenode.py and processqueue.py "
     "(additions and thorough: tree.py too).", SCHED)


prop("C12", "A GTK tree model shows exactly the rows of its view",
     "A TreeModel connected to a view, at once or later, alone or next to "
     "other models of that view, connected once or repeatedly, has after "
     "every change exactly one row per displayed position, nested and "
     "ordered like the view (or sorted, when a sort column is set), and "
     "every column of every row holds the current value of its function.",
     ["histories"], "every history of edits, with models that connect at "
     "any time, columns whose function is replaced and sorted models",
     "The tests have no test of the GTK model at all.",
     [TM, FT, VT],
     [("TreeModel.add_task/remove_task/update_task", TM),
      ("TreeModel.my_get_iter", TM), ("TreeModel.connect_model", TM)],
     "All histories of any length over 3 ids (a subset of the operations in "
     "quick) and 2 ids with late connection; all 4-node graphs x colourings "
     "x operations, larger shapes.", BFS,
     [("cache_paths/cache_position", "path -> row", TM)])

prop("C13", "An action queued for a node runs exactly once, when it appears",
     "An action queued on a view for a node runs exactly once with its own "
     "parameter: during the change that first displays the node or, if the "
     "node is displayed already, when the main loop next runs; never before, "
     "never again whatever it returns or queues, for any node id. While it "
     "runs the node is displayed and the view can be read.",
     ["histories"], "every history of edits, filter changes, queued actions "
     "(also queued by actions) and main loop runs",
     "The tests queue an action and add the node once.",
     [FT, VT],
     [("FilteredTree.set_callback runonce", FT),
      ("FilteredTree.callback", FT), ("ViewTree.queue_action", VT)],
     "All histories of any length over 2 ids with up to 2 waiting actions "
     "per node; 3 ids and 4-node graphs bounded.", BFS)

prop("C14", "All queries about positions in a view agree",
     "The main view and every filtered view answer consistently after any "
     "history: paths of a node, node for a path (None for any other path), "
     "next sibling, n-th child, numbers of children and of descendants, "
     "parents, has-child and has-parent, the list and number of nodes and "
     "the printed tree all describe the one tree that node_all_children "
     "shows, the root included.",
     ["histories", "inputs"], "every reachable view and every short path",
     "Tests ask for a few paths in fixed trees.",
     [VT, FT, T],
     [("ViewTree.get_paths_for_node/get_node_for_path/next_node", VT),
      ("FilteredTree.get_paths_for_node/next_node/node_n_children", FT),
      ("MainTree.get_paths_for_node/next_node", T)],
     "As C05 with three (thorough: all) views closed over 3 ids.", BFS)

prop("C15", "Observers do not disturb each other",
     "Every observer registered on a view is told every notification of its "
     "event from its registration on until it is dropped, in the same order "
     "as any other observer, no matter which observers are registered or "
     "dropped, before or during a notification; keys of registered observers "
     "of an event are distinct and dropping an unknown key does nothing.",
     ["histories"], "every history of edits, registrations and drops, also "
     "by observers that drop themselves or others or register new ones while "
     "being notified", "Tests register one observer per event.",
     [VT, T],
     [("ViewTree.register_cllbck/deregister_cllbck/__emit", VT),
      ("MainTree.register_callback/_callback", T)],
     "All histories of any length with two observers of four kinds next to "
     "a permanent one, over 2 ids, on the main view and a filtered view.",
     BFS)

prop("C16", "The main view announces every change of the tree exactly once",
     "The main view announces every node that is added or removed exactly "
     "once, when it is in the tree or no longer in it; announces as modified "
     "every node whose parents or children changed (unless the other end is "
     "a node announced as added) and exactly the nodes for which modified() "
     "or a refresh was requested; and never announces an absent node as "
     "modified.",
     ["histories"], "every history of editing operations",
     "Tests count signals of single operations.",
     [T, VT],
     [("MainTree._callback", T), ("MainTree._add_node/_remove_node", T),
      ("MainTree._new_relationship/_break_relationship", T)],
     "All histories of any length over 3 ids; deferred relationships, all "
     "4-node graphs and larger shapes bounded.", BFS)

prop("C17", "Observers can read the view while they are notified",
     "Whenever an observer of a view is told of a row, the view can be read "
     "and is consistent: an added or modified row is displayed at the "
     "announced position, paths, parents and children of all displayed nodes "
     "agree, and no query raises. Views and counts created from within a "
     "notification are right when the operation is over and later on.",
     ["histories"], "every notification of every history of edits",
     "Test observers only record what they are told.",
     [FT, VT],
     [("FilteredTree.__update_node", FT),
      ("FilteredTree.send_add_tree/send_remove_tree", FT)],
     "As C05 with four (thorough: all) views closed over 3 ids.", BFS)

prop("C18", "Nodes that accept no children or parents never get any",
     "Disabling children or parents of a node breaks exactly its "
     "relationships of that kind; until it is enabled again every way of "
     "relating nodes (add_node with a parent, add_parent, add_child, move, "
     "declared and deferred relationships) leaves it without them, has no "
     "other effect, and the tree stays well-formed.",
     ["histories"], "every history of edits and flag changes",
     "No test uses the flags together with other operations.",
     [TN, T],
     [("_Node.set_children_enabled/set_parents_enabled", TN),
      ("MainTree._is_allowed_relation", T)],
     "All histories of any length over 2 ids, and over 3 ids without "
     "deferred relationships; otherwise bounded.", BFS)

prop("C19", "Views, counts and the filter bank do not interfere",
     "get_viewtree and get_viewcount return the same object for the same "
     "name and different ones otherwise; applying, removing or resetting "
     "filters of one view, or creating views, neither changes nor notifies "
     "any other view or count, which all keep showing what their own filters "
     "(with their own parameters) accept. The bank never replaces a "
     "registered filter and lists exactly those registered.",
     ["histories"], "every history of edits and filter operations on several "
     "views and a count of one tree",
     "Tests use one view at a time.",
     [INI, VT, FT, FB],
     [("Tree.get_viewtree/get_viewcount", INI),
      ("FilteredTree.apply_filter", FT),
      ("FiltersBank.add_filter/remove_filter", FB)],
     "All histories of any length over 2 ids with three views, a count and "
     "two filters; more views and 3-node graphs bounded. Known finding: "
     "parameters of a filter are shared by all views.", BFS)

prop("C20", "Drag and drop moves exactly the dragged nodes",
     "Dropping rows of the widget on a place moves exactly their nodes, in "
     "order, below the node of that place (of the row dropped on, of the "
     "parent of the row dropped before or after, or the root), as move_node "
     "does, refusing cycles, and the widget shows the result. Dropping rows "
     "of another widget calls the function registered for that source once "
     "per row with the dragged and the receiving node, whatever the function "
     "does to the source tree, and changes nothing else. An empty selection "
     "does nothing.",
     ["inputs", "histories"], "every graph, selection, place of the drop and "
     "filter of the view",
     "No test drops anything.",
     [GTK], [("TreeView.on_drag_data_get/on_drag_data_received", GTK)],
     "All labelled graphs on 3 nodes with every colouring, selection and "
     "place; 4-node graphs with up to two rows.", ENUM)

prop("C21", "Rows are expanded unless their node was collapsed",
     "In the widget every row with children is expanded by default, for "
     "nodes present when the widget is made and for nodes added, moved or "
     "filtered in later. collapse_node(path) collapses every row of the node, "
     "and keeps the node collapsed, now or as soon as it is displayed, when "
     "its rows come and go or get their first child; expand_node undoes "
     "that. Each announces exactly the rows it changed, with their path, and "
     "changes no row outside.",
     ["histories"], "every history of edits, collapses and expansions",
     "Two tests check that a collapse of an absent node does not raise.",
     [GTK], [("TreeView.collapse_node/expand_node/on_child_toggled", GTK)],
     "All histories up to the stated depth over 2 and 3 ids and from all "
     "4-node graphs.", BFS)

prop("C22", "A sorted widget stays sorted; selection and colours are right",
     "With set_sort_column the rows under every parent are in the order of "
     "the column's sort function or values, ascending or descending, and "
     "stay so through every edit, without any callback raising. In every "
     "state get_selected_nodes returns the nodes of the selected rows, and "
     "every cell has the background set_bg_color asks for, with readable "
     "text on dark colours.",
     ["histories"], "every history of edits and changes of sorting, every "
     "selection of up to two rows and all rows",
     "Tests do not sort a widget or read its selection.",
     [GTK, TM], [("TreeView._sort_func/set_sort_column", GTK),
                ("TreeView.get_selected_nodes", GTK),
                ("TreeView._celldatafunction/set_bg_color", GTK)],
     "All histories up to the stated depth over 2 and 3 ids and from all "
     "4-node graphs in every sort order.", BFS)


prop("C23", "What a query returns belongs to the caller",
     "Lists, dictionaries and other containers returned by the queries of "
     "trees, nodes, views, counts and the filter bank, and those passed to "
     "them, may be changed by the application without any effect: in every "
     "reachable state, after overwriting every answer the library gave, all "
     "queries answer as before, the tree is well-formed, the views show what "
     "their filters accept and later edits work as usual.",
     ["histories"], "every history of edits with every query asked, its "
     "answer overwritten and asked again after each of them",
     "Tests read answers; none changes one and looks at the tree again.",
     [T, TN, VT, FT, FB],
     [("TreeNode.get_children/get_parents", TN),
      ("ViewTree.get_nodes/get_all_nodes/node_all_children", VT),
      ("FilteredTree.get_all_nodes/list_applied_filters", FT),
      ("FiltersBank.list_filters", FB)],
     "All histories of any length over 3 ids with one view; several views, "
     "deferred relationships and 4-node graphs bounded.", BFS)

prop("C24", "Two trees in one program do not share anything",
     "Whatever is done to one Tree, nothing of another one changes and none "
     "of its observers is called, though both contain the same ids and have "
     "views, filters and counts of the same names. A node object removed from "
     "one tree can be added to another (or the same) one and behaves like any "
     "new node there. Each tree stays well-formed and its views correct.",
     ["histories"], "every history of edits of two trees with nodes changing "
     "tree",
     "Every test has one tree.",
     [T, TN, INI, FT],
     [("MainTree._add_node/_remove_node", T), ("TreeNode._set_tree", TN),
      ("Tree.__init__", INI)],
     "All histories up to the stated depths over 2 and 3 ids.", BFS)

prop("C25", "A widget has exactly the columns of its description",
     "For every description (orders, new_column, titles, visibility, "
     "resizable, expandable, given renderers, sorting by any column or by a "
     "function, a separator function) TreeView shows the described cells in "
     "the described columns and order with the described values, sorts as "
     "described when a header is clicked or set_sort_column is called, does "
     "not change the description and leaves other widgets made from it alone.",
     ["inputs"], "every description of up to three columns over a few values "
     "of each option",
     "Tests build no widget.",
     [GTK, TM], [("TreeView.__init__", GTK),
                ("TreeView.set_sort_column/_sort_func", GTK),
                ("TreeModel.__init__/set_column_function", TM)],
     "Every description in the stated space; two widgets of one description.",
     ENUM)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    state=[dict(name=a, meaning=b, where=c)
                           for a, b, c in p["state"]],
                    mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                    observe_at=list(p["observe"]) or
                    ["public API of Tree, TreeNode and ViewTree"],
                    hook_needed=None))) + "\n")
    m = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=[dict(
            property=p["id"],
            quick_cmd="bash run.sh %s quick" % p["id"],
            thorough_cmd="bash run.sh %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique=p["technique"],
            level="model_checking",
            level_note=p["note"]) for p in P],
        not_applicable=[],
        notes="Pure Python: nothing is built; every check imports liblarch "
        "from /repo's working tree. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

"""C04 Graph bookkeeping: all operation sequences up to a depth, against a parent map."""
from mc.core import Family

VALUES = [7, 3, 0, 5, 1, 9, 2, 8]
UNKNOWN = 99
MODULE = "nonlinear_avoidance.graph_handler"


# ---------------------------------------------------------------- GraphHandler
def _is_ancestor(parents, anc, node):
    while node is not None:
        if node == anc:
            return True
        node = parents[node]
    return False


def _sequences(init, depth):
    """All op-sequences of length <= depth on a handler of `init` nodes (by reference model)."""
    start = {ii: None for ii in range(init)} if init >= 0 else {v: None for v in VALUES[: -init]}
    out = []

    def rec(parents, hist):
        out.append({"init": init, "ops": list(hist)})
        if len(hist) == depth:
            return
        fresh = next(vv for vv in VALUES if vv not in parents)
        ops = [["root", fresh]]
        ops += [["add", fresh, pp] for pp in parents]
        ops += [["bad_add", fresh]]
        ops += [["move", nn, pp] for nn in parents for pp in parents
                if not _is_ancestor(parents, nn, pp)]
        if parents:
            ops += [["bad_move", next(iter(parents))]]
        for op in ops:
            new = dict(parents)
            if op[0] == "root":
                new[op[1]] = None
            elif op[0] in ("add", "move"):
                new[op[1]] = op[2]
            rec(new, hist + [op])

    rec(start, [])
    return out


def handler_cases(tier):
    deep = tier == "thorough"
    out = []
    for init, depth in ((0, 6 if deep else 5), (2, 5 if deep else 4), (-3, 4 if deep else 3),
                        (3, 4 if deep else 3)):
        out += _sequences(init, depth)
    return sorted(out, key=lambda cc: len(cc["ops"]))


def handler_run(ctx, case):
    mod = ctx.load(MODULE)
    init = case["init"]
    given = None
    if init == 0:
        gg = ctx.call("GraphHandler()", mod.GraphHandler)
    elif init > 0:
        gg = ctx.call("GraphHandler(n)", mod.GraphHandler, n_nodes=init)
    else:
        given = list(VALUES[: -init])
        gg = ctx.call("GraphHandler(values)", mod.GraphHandler, node_values=given)
    parents = {ii: None for ii in range(init)} if init >= 0 else {vv: None for vv in given}
    _check_handler(ctx, gg, parents)
    for op in case["ops"]:
        if op[0] == "root":
            ctx.call("set_root", gg.set_root, op[1])
            parents[op[1]] = None
        elif op[0] == "add":
            ctx.call("add_element_with_parent", gg.add_element_with_parent, op[1], op[2])
            parents[op[1]] = op[2]
        elif op[0] == "move":
            ctx.call("set_parent_of_element", gg.set_parent_of_element, op[1], op[2])
            parents[op[1]] = op[2]
        elif op[0] == "bad_add":
            ctx.raises("add below unknown parent", gg.add_element_with_parent, op[1], UNKNOWN)
        elif op[0] == "bad_move":
            ctx.raises("move below unknown parent", gg.set_parent_of_element, op[1], UNKNOWN)
            ctx.raises("move of unknown node", gg.set_parent_of_element, UNKNOWN, op[1])
    _check_handler(ctx, gg, parents)
    if given is not None:
        ctx.require(given == VALUES[: -init], "caller's list", "the caller's list was changed")


def _check_handler(ctx, gg, parents):
    ctx.visit(tuple(parents.items()))
    ctx.require(gg.n_nodes == len(parents), "n_nodes", lambda: f"{gg.n_nodes} {parents}")
    nodes = list(parents)
    for node in nodes:
        par = ctx.call("get_parent", gg.get_parent, node)
        ctx.require(par == parents[node] and (par is None) == (parents[node] is None),
                    "parent", lambda: f"parent({node})={par} model={parents}")
        chi = ctx.call("get_children", gg.get_children, node)
        ctx.require(sorted(chi) == sorted(nn for nn in nodes if parents[nn] == node and
                                          parents[nn] is not None),
                    "children", lambda: f"children({node})={chi} model={parents}")
    roots = [nn for nn in nodes if parents[nn] is None]
    ind = ctx.call("get_root_indices", gg.get_root_indices)
    ctx.require([nodes[ii] for ii in ind] == roots, "root indices", lambda: f"{ind} {parents}")
    ctx.require(sorted(gg.roots) == sorted(roots), "roots", lambda: f"{gg.roots} {parents}")
    order = ctx.call("get_nodes_hirarchy_descending", gg.get_nodes_hirarchy_descending)
    ctx.require(sorted(order) == sorted(nodes), "hierarchy: every node once",
                lambda: f"{order} {parents}")

    def level(node):
        return 0 if parents[node] is None else 1 + level(parents[node])
    levels = [level(nn) for nn in order]
    ctx.require(levels == sorted(levels), "hierarchy: parents before children",
                lambda: f"{order} {parents}")
    order2 = ctx.call("get_nodes_hirarchy_descending", gg.get_nodes_hirarchy_descending)
    ctx.require(list(order) == list(order2), "hierarchy: repeatable", lambda: f"{order} {order2}")
    ctx.require(gg.n_nodes == len(parents), "n_nodes after queries", lambda: f"{gg.n_nodes}")
    ctx.outcome(tuple(levels), len(nodes))
    ctx.raises("parent of unknown node", gg.get_parent, UNKNOWN)


# ---------------------------------------------------------------- GraphElement
def _element_sequences(n_el, depth):
    out = []

    def anc(par, aa, nn):
        while nn is not None:
            if nn == aa:
                return True
            nn = par[nn]
        return False

    def rec(par, hist):
        out.append({"n": n_el, "ops": list(hist)})
        if len(hist) == depth:
            return
        for ii in range(n_el):
            for jj in range(n_el):
                if anc(par, jj, ii):
                    continue
                new = list(par)
                new[jj] = ii
                rec(new, hist + [["child", ii, jj]])
                rec(new, hist + [["parent", jj, ii]])
            new = [None if (pp == ii or kk == ii) else pp for kk, pp in enumerate(par)]
            rec(new, hist + [["expel", ii]])

    rec([None] * n_el, [])
    return out


def element_cases(tier):
    deep = tier == "thorough"
    out = _element_sequences(3, 5 if deep else 4) + _element_sequences(4, 4 if deep else 3)
    return sorted(out, key=lambda cc: len(cc["ops"]))


def element_run(ctx, case):
    mod = ctx.load(MODULE)
    nn = case["n"]
    els = [mod.GraphElement([0, 0, 1, 1][ii]) for ii in range(nn)]  # equal values on purpose
    par = [None] * nn
    for op in case["ops"]:
        if op[0] == "child":
            ctx.call("add_child", els[op[1]].add_child, els[op[2]])
            par[op[2]] = op[1]
        elif op[0] == "parent":
            ctx.call("set_parent", els[op[1]].set_parent, els[op[2]])
            par[op[1]] = op[2]
        else:
            ctx.call("expel", els[op[1]].expel)
            par = [None if (pp == op[1] or kk == op[1]) else pp for kk, pp in enumerate(par)]
    ctx.visit(tuple(par))
    ctx.outcome(nn, tuple(par))
    _check_elements(ctx, els, par)


def _check_elements(ctx, els, par):
    for ii, el in enumerate(els):
        exp = None if par[ii] is None else els[par[ii]]
        ctx.require(el.parent is exp, "element parent", lambda: f"element {ii}, model {par}")
        kids = [jj for jj, pp in enumerate(par) if pp == ii]
        got = [next((jj for jj, ee in enumerate(els) if ee is cc), -1) for cc in el.children]
        ctx.require(sorted(got) == kids, "element children",
                    lambda: f"element {ii}: children {got}, model {par}")
        ctx.require(el.number_of_children == len(kids), "number_of_children",
                    lambda: f"element {ii}: {el.number_of_children}, model {par}")


# ---------------------------------------------------------------- BasicGraphHandler
def _basic_sequences(depth):
    out = []

    def rec(par, alive, hist):
        out.append({"ops": list(hist)})
        if len(hist) == depth:
            return
        new_id = len(par)
        if not par:
            rec([None], [0], hist + [["root"]])
            return
        for pp in alive:
            rec(par + [pp], alive + [new_id], hist + [["add", pp]])
        for kk in alive:
            new = [None if (pp == kk or jj == kk) else pp for jj, pp in enumerate(par)]
            rec(new, [aa for aa in alive if aa != kk], hist + [["delete", kk]])

    rec([], [], [])
    return out


def basic_cases(tier):
    return sorted(_basic_sequences(7 if tier == "thorough" else 6), key=lambda cc: len(cc["ops"]))


def basic_run(ctx, case):
    mod = ctx.load(MODULE)
    hh = ctx.call("BasicGraphHandler", mod.BasicGraphHandler)
    els, par = [], []
    for op in case["ops"]:
        if op[0] == "root":
            hh.root = 4
            els.append(hh.root)
            par.append(None)
            ctx.require(hh.root.value == 4, "root value", "")
        elif op[0] == "add":
            before = [id(cc) for cc in els[op[1]].children]
            ctx.call("add_element_with_parent", hh.add_element_with_parent,
                     10 * len(els), els[op[1]])
            new = [cc for cc in els[op[1]].children if id(cc) not in before]
            ctx.require(len(new) == 1, "child registered at its parent",
                        lambda: f"{len(new)} new children after {case['ops']}")
            ctx.require(new[0].value == 10 * len(els), "child value", "")
            els.append(new[0])
            par.append(op[1])
        else:
            ctx.call("delete_element", hh.delete_element, els[op[1]])
            par = [None if (pp == op[1] or jj == op[1]) else pp for jj, pp in enumerate(par)]
    ctx.visit(tuple(par), len(case["ops"]))
    ctx.outcome(tuple(par))
    _check_elements(ctx, els, par)


FAMILIES = [
    Family("GraphHandler op sequences", handler_cases, handler_run),
    Family("GraphElement op sequences", element_cases, element_run),
    Family("BasicGraphHandler op sequences", basic_cases, basic_run),
]

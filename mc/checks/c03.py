"""C03: weighted means over trees of directions (VectorRotationTree)."""
import itertools
import math

import numpy as np

from mc import lib
from mc.core import Family
from mc.checks.c01 import matrix, MOD

DIRS = {
    2: [np.array([math.cos(aa), math.sin(aa)]) for aa in (0.0, 0.7, 1.9, 2.9, -0.4, -1.6)],
    3: [lib.unit(vv) for vv in [(1, 0, 0), (0, 1, 0), (1, 2, -1), (-1, 1, 2), (1, 0, -3),
                                (-3, 1, 0)]],
    4: [lib.unit(vv) for vv in [(1, 0, 0, 0), (0, 1, 0, 1), (1, 2, -1, 0), (-1, 1, 2, -2),
                                (1, 0, -3, 1)]],
}


def trees(n):
    """All rooted trees over nodes 0 (root) .. n, given as parent tuples."""
    return list(itertools.product(*[range(kk) for kk in range(1, n + 1)]))


def rotation_vector(v0, v1):
    """Unit tangent at v0 towards v1, and the angle."""
    ang = lib.angle_between(v0, v1)
    perp = v1 - v0 * (v0 @ v1)
    norm = np.linalg.norm(perp)
    if norm < 1e-9:
        return np.zeros(v0.shape), 0.0
    return perp / norm, ang


def model(parents, dirs, weights):
    """Mean direction: the rotations of every node, pulled back to the root along its ancestors,
    are averaged per level and then applied level by level."""
    n = len(parents) + 1
    dim = dirs[0].shape[0]
    cum = list(weights)
    for node in range(n - 1, 0, -1):
        cum[parents[node - 1]] += cum[node]
    level = [0] * n
    prefix = [np.eye(dim)] * n
    means = {}
    for node in range(1, n):
        par = parents[node - 1]
        level[node] = level[par] + 1
        perp, ang = rotation_vector(dirs[par], dirs[node])
        means.setdefault(level[node], np.zeros(dim))
        means[level[node]] = means[level[node]] + cum[node] * ang * (prefix[par].T @ perp)
        prefix[node] = matrix(np.array([dirs[par], perp]).T, ang) @ prefix[par]
    total = np.eye(dim)
    for lev in sorted(means):
        ang = np.linalg.norm(means[lev])
        if ang > 1e-12:
            base = total @ np.array([dirs[0], means[lev] / ang]).T
            total = matrix(base, ang) @ total
    return total


def build(ctx, mod, parents, dirs, ids=None, order=None, scale=1.0):
    n = len(parents) + 1
    ids = ids or list(range(n))
    tree = ctx.call("VectorRotationTree", mod.VectorRotationTree)
    ctx.call("set_root", tree.set_root, ids[0], dirs[0] * scale)
    for node in (order or range(1, n)):
        ctx.call("add_node", tree.add_node, node_id=ids[node], direction=dirs[node] * scale,
                 parent_id=ids[parents[node - 1]])
    return tree


def check_sequence(ctx, seq, start, end):
    """A chain of rotations from start to end."""
    cur = start
    basis = ctx.finite(seq.basis_array, "bases")
    for kk in range(seq.n_rotations):
        ang = seq.rotation_angles[kk]
        if abs(ang) < 1e-6:
            continue
        base = basis[:, kk, :]
        ctx.close(base.T @ base, np.eye(2), "orthonormal bases of the mean", 1e-5)
        ctx.close(base[:, 0], cur, "each rotation of the mean starts where the former one ends",
                  1e-5)
        cur = matrix(base, ang) @ cur
    ctx.close(cur, end, "the rotations of the mean end in the mean direction", 1e-5)
    ctx.close(seq.get_end_vector(), end, "end vector of the mean", 1e-5)


def antiparallel_edges(parents, dirs):
    return any(dirs[par] @ dirs[kk + 1] < -1 + 1e-9 for kk, par in enumerate(parents))


def weightings(n, tier):
    total = (4 if n < 4 else 3) if tier == "quick" else 6
    return [np.array(cc) / total for cc in lib.integer_compositions(total, n)]


def mean_cases(tier):
    out = []
    for dim in (2, 3, 4):
        for n in range(1, (4 if dim < 4 else 3) if tier == "quick" else 5):
            nd = len(DIRS[dim]) if n < 3 else (4 if dim < 4 else 3)
            if n >= (3 if tier == "quick" else 4):
                nd = 3
            for parents in trees(n):
                for idx in itertools.product(range(nd), repeat=n):
                    out.append({"dim": dim, "parents": list(parents), "dirs": [0] + list(idx),
                                "tier": tier})
    return out


def mean_run(ctx, case):
    mod = ctx.load(MOD)
    parents = case["parents"]
    dirs = [DIRS[case["dim"]][ii] for ii in case["dirs"]]
    n = len(dirs)
    if antiparallel_edges(parents, dirs):
        return
    tree = build(ctx, mod, parents, dirs, scale=2.0)
    # same tree with other names, other order of insertion
    ids = [("x", kk) if kk % 2 else f"n{kk}" for kk in range(n)]
    order = sorted(range(1, n), key=lambda kk: (_level(parents, kk), -kk))
    twin = build(ctx, mod, parents, dirs, ids=ids, order=order)
    for weights in weightings(n, case["tier"]):
        keep = weights.copy()
        mat = model(parents, dirs, weights)
        exp = mat @ dirs[0]
        nodes = list(range(n))
        got = ctx.call("get_weighted_mean", tree.get_weighted_mean, nodes, weights)
        ctx.close(got, exp, "weighted mean of the tree", 1e-5)
        ctx.close(weights, keep, "weights unchanged", 0)
        ctx.close(np.linalg.norm(got), 1.0, "mean is a direction", 1e-6)
        seq = ctx.call("reduce_weighted_to_sequence", tree.reduce_weighted_to_sequence, nodes,
                       weights)
        check_sequence(ctx, seq, dirs[0], exp)
        if seq.n_rotations:
            for vec in (dirs[0], DIRS[case["dim"]][-1]):
                ctx.close(seq.rotate(vec), mat @ vec, "the reduced sequence rotates like the mean",
                          1e-5)
        rev = nodes[::-1]
        got = ctx.call("get_weighted_mean", twin.get_weighted_mean, [ids[ii] for ii in rev],
                       weights[::-1])
        ctx.close(got, exp, "mean depends neither on names nor on order", 1e-5)
        used = [ii for ii in nodes if weights[ii]]
        got = ctx.call("get_weighted_mean", tree.get_weighted_mean, used, weights[used])
        ctx.close(got, exp, "nodes without weight have no influence", 1e-5)
        if len(used) < n:
            # such as one minus the sum of all the other weights
            rounded = np.where(weights == 0, -2e-16, weights)
            seq = ctx.call("reduce_weighted_to_sequence", tree.reduce_weighted_to_sequence,
                           nodes, rounded)
            ctx.close(seq.get_end_vector(), exp, "rounding errors in weights have no influence",
                      1e-5)
        ctx.visit(case["dim"], tuple(parents), tuple(case["dirs"]), tuple(weights))
        ctx.outcome(*np.round(exp, 3))
    for kk in range(n):
        onehot = np.eye(n)[kk]
        ctx.close(tree.get_weighted_mean(list(range(n)), onehot), dirs[kk],
                  "full weight on a node gives its direction", 1e-5)


def _level(parents, node):
    lev = 0
    while node:
        node = parents[node - 1]
        lev += 1
    return lev


# ------------------------------------------------------------------- structure and histories
def history_cases(tier):
    """Histories of: add a node below a parent, change a direction, query, refused insertions."""
    out = []
    depth = 4 if tier == "quick" else 5
    for dim in (3, 2):
        ops = [["add", 0], ["add", 1], ["add", 2], ["set", 1], ["set", 2], ["set", 0], ["query"],
               ["dup"], ["zero"], ["nan"], ["orphan"]]
        for hist in itertools.product(range(len(ops)), repeat=depth - (dim == 3)):
            out.append({"dim": dim, "ops": [ops[ii] for ii in hist]})
    return out


def history_run(ctx, case):
    mod = ctx.load(MOD)
    pool = DIRS[case["dim"]]
    dirs = [pool[0]]
    parents = []
    tree = mod.VectorRotationTree(root_idx=0, root_direction=dirs[0])
    other = mod.VectorRotationTree(root_idx=0, root_direction=dirs[0])
    counter = 0
    for op in case["ops"]:
        counter += 1
        new_dir = pool[(2 * counter + 1) % len(pool)]
        n = len(dirs)
        if op[0] == "add":
            par = min(op[1], n - 1)
            ctx.call("add_node", tree.add_node, node_id=n, direction=new_dir, parent_id=par)
            dirs.append(new_dir)
            parents.append(par)
        elif op[0] == "set":
            if op[1] >= n:
                continue
            ctx.call("set_direction", tree.set_direction, op[1], new_dir)
            dirs[op[1]] = new_dir
        elif op[0] == "query":
            ctx.call("get_weighted_mean", tree.get_weighted_mean, list(range(n)), np.ones(n) / n)
        elif op[0] == "dup":
            ctx.raises("existing node", tree.add_node, node_id=n - 1, direction=new_dir,
                       parent_id=0)
        elif op[0] == "zero":
            ctx.raises("zero direction", tree.add_node, node_id=n, direction=0 * new_dir,
                       parent_id=0)
        elif op[0] == "nan":
            ctx.raises("nan direction", tree.add_node, node_id=n, direction=np.nan * new_dir,
                       parent_id=0)
        elif op[0] == "orphan":
            ctx.raises("unknown parent", tree.add_node, node_id=n, direction=new_dir,
                       parent_id=99)
    n = len(dirs)
    ctx.visit(tuple(parents), tuple(tuple(dd) for dd in dirs))
    nodes = ctx.call("get_nodes_ascending", tree.get_nodes_ascending)
    ctx.require(sorted(nodes) == list(range(n)), "nodes of the tree", lambda: f"{nodes}")
    levels = [_level(parents, kk) for kk in nodes]
    ctx.require(levels == sorted(levels), "nodes ascend from the root", lambda: f"{nodes}")
    for kk in range(n):
        children = [jj + 1 for jj, pp in enumerate(parents) if pp == kk]
        got = sorted(ctx.call("get_children", tree.get_children, kk))
        ctx.require(got == children, "children", lambda: f"{got} {children}")
        below = sorted(jj for jj in range(1, n) if kk in _ancestors(parents, jj))
        got = sorted(ctx.call("get_all_childs_children", tree.get_all_childs_children, kk))
        ctx.require(got == below, "descendants", lambda: f"{got} {below}")
        if kk:
            ctx.require(ctx.call("get_parent", tree.get_parent, kk) == parents[kk - 1], "parent")
    if not antiparallel_edges(parents, dirs):
        for weights in (np.ones(n) / n, np.eye(n)[n - 1]):
            mat = model(parents, dirs, weights)
            got = ctx.call("get_weighted_mean", tree.get_weighted_mean, list(range(n)), weights)
            ctx.close(got, mat @ dirs[0], "mean after a history", 1e-5)
            vec = pool[2] * 3
            out = ctx.call("rotate", tree.rotate, vec, list(range(n)), weights)
            perp, ang = rotation_vector(dirs[0], mat @ dirs[0])
            ref = matrix(np.array([dirs[0], perp]).T, ang)
            ctx.close(out, ref @ vec, "rotate turns by the rotation from root to mean", 1e-4)
            back = ctx.call("inverse_rotate", tree.inverse_rotate, out, list(range(n)), weights)
            ctx.close(back, vec, "inverse_rotate undoes rotate", 1e-4)
    ctx.require(sorted(other.get_nodes_ascending()) == [0], "trees do not share nodes")


def _ancestors(parents, node):
    out = []
    while node:
        node = parents[node - 1]
        out.append(node)
    return out


# ------------------------------------------------------------------- sequences merged in a tree
def merge_cases(tier):
    out = []
    for dim in (2, 3):
        nd = 5
        for len1, len2 in itertools.product((1, 2), repeat=2):
            if tier == "quick" and (len1, len2) == (2, 2):
                nd = 4
            for idx in itertools.product(range(nd), repeat=len1 + len2):
                out.append({"dim": dim, "one": list(idx[:len1]), "two": list(idx[len1:])})
    return out


def merge_run(ctx, case):
    mod = ctx.load(MOD)
    pool = DIRS[case["dim"]]
    root = pool[0]
    one = [root] + [pool[ii] for ii in case["one"]]
    two = [root] + [pool[ii] for ii in case["two"]]
    for ch in (one, two):
        if any(v0 @ v1 < -1 + 1e-9 for v0, v1 in zip(ch, ch[1:])):
            return
    make = mod.VectorRotationSequence.create_from_vector_array
    seq1, seq2 = make(np.array(one).T), make(np.array(two).T)
    keep = np.array(seq2.basis_array)
    tree = ctx.call("from_sequence", mod.VectorRotationTree.from_sequence, root_id=0, node_id=1,
                    sequence=seq1)
    ctx.call("add_sequence", tree.add_sequence, node_id=2, sequence=seq2, parent_id=0)
    # model tree
    dirs, parents = [root], []
    ends = []
    for ch in (one, two):
        par = 0
        for vec in ch[1:]:
            dirs.append(vec)
            parents.append(par)
            par = len(dirs) - 1
        ends.append(par)
    for ww in (0.0, 0.25, 0.5, 0.75, 1.0):
        weights = np.zeros(len(dirs))
        weights[ends[0]] += 1 - ww
        weights[ends[1]] += ww
        mat = model(parents, dirs, weights)
        exp = mat @ root
        seq = ctx.call("reduce_weighted_to_sequence", tree.reduce_weighted_to_sequence, [1, 2],
                       [1 - ww, ww])
        check_sequence(ctx, seq, root, exp)
        vec = pool[3]
        ctx.close(seq.rotate(vec), mat @ vec, "merged sequence rotates like the mean", 1e-5)
        # a further sequence may start at the merged one
        if ww == 0.5:
            again = ctx.call("from_sequence", mod.VectorRotationTree.from_sequence, root_id=0,
                             node_id=1, sequence=seq)
            got = ctx.call("get_weighted_mean", again.get_weighted_mean, [1], [1.0])
            ctx.close(got, exp, "merged sequence as branch of a new tree", 1e-5)
        ctx.visit(case["dim"], tuple(case["one"]), tuple(case["two"]), ww)
    # Next to a single direction
    for idx in (1, 2, 4):
        if pool[idx] @ root < -1 + 1e-9:
            continue
        node = ("single", idx)
        ctx.call("add_node", tree.add_node, node_id=node, direction=pool[idx], parent_id=0)
        dirs.append(pool[idx])
        parents.append(0)
        for split in ((0.5, 0.25, 0.25), (0.25, 0.0, 0.75), (0.0, 0.5, 0.5)):
            weights = np.zeros(len(dirs))
            for nn, ww in zip((ends[0], ends[1], len(dirs) - 1), split):
                weights[nn] += ww
            got = ctx.call("get_weighted_mean", tree.get_weighted_mean, [1, 2, node], split)
            ctx.close(got, model(parents, dirs, weights) @ root, "sequences and a direction", 1e-5)
    ctx.close(seq2.basis_array, keep, "sequence unchanged", 0)
    wrong = make(np.array([pool[1], pool[2]]).T)
    ctx.raises("not aligned sequence", tree.add_sequence, node_id=7, sequence=wrong, parent_id=0)


# ------------------------------------------------------------------- long chains
def chain_cases(tier):
    return [{"dim": dim, "length": nn, "step": ss} for dim in (2, 3, 4)
            for nn in range(1, 13 if tier == "quick" else 30)
            for ss in range(1, len(lib.lattice_directions(dim)), 1 if dim < 4 else 5)]


def chain_run(ctx, case):
    mod = ctx.load(MOD)
    pool = lib.lattice_directions(case["dim"])
    dirs, parents = [np.array(pool[0], dtype=float)], []
    for kk in range(1, case["length"] + 1):
        vec = np.array(pool[kk * case["step"] % len(pool)], dtype=float)
        if vec @ dirs[-1] < -1 + 1e-6:
            vec = np.array(pool[(kk * case["step"] + 1) % len(pool)], dtype=float)
        if vec @ dirs[-1] < -1 + 1e-6:
            return
        parents.append(kk - 1)
        dirs.append(vec)
    tree = build(ctx, mod, parents, dirs)
    ctx.visit(case["dim"], case["length"], case["step"])
    nodes = list(range(len(dirs)))
    for end in {len(dirs) - 1, len(dirs) // 2}:
        for share in (1.0, 0.5, 0.25):
            weights = np.zeros(len(dirs))
            weights[0] += 1 - share
            weights[end] += share
            got = ctx.call("get_weighted_mean", tree.get_weighted_mean, nodes, weights)
            ctx.close(got, model(parents, dirs, weights) @ dirs[0], "mean along a chain", 1e-5)


FAMILIES = [
    Family("chains", chain_cases, chain_run),
    Family("weighted means", mean_cases, mean_run),
    Family("histories", history_cases, history_run),
    Family("merged sequences", merge_cases, merge_run),
]

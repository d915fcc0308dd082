"""
The bookkeeping of a Network. Depth first, all sequences of operations up to the depth bound (add_node, add_edge,
add_edge_bidir, remove_edge, remove_node, del, update_edge of all or of one of the edges, over 2 and 3 labels); and breadth
first, all reachable states of a bounded number of edges over 3 labels, each with every operation from it. After every
operation each view of the network (nodes, len, edges, in_edges, edge, has_edge, degrees, attributes, equality) must agree
with a plain model; an operation on a node or an edge which isn't there must be refused and change nothing; networks other
than the one operated on, and the other direction of a bidirectional edge, must not change.
"""
import copy
import itertools
import pickle

from mc import spaces
from mc.engine import Violation, require, same
from mc.refevolve import RefNet, norm_real, snap
from mc.target import ntm


def operations(labels, small=False):
    """(name, arguments) of every operation."""
    if small == "least":
        return [("add_edge", a, b, {"w": 1}) for a, b in itertools.product(labels, repeat=2)] + \
               [("remove_edge", a, b) for a, b in itertools.product(labels, repeat=2)] + [("remove_node", a) for a in labels]
    if small == "attributes":
        a, b = labels
        return [("add_node", a, d) for d in ({"c": 1}, {"c": 2}, {"c": None, "d": 0}, {})] + \
               [("add_edge", a, b, {"c": 1}), ("add_edge", a, b, {"c": 2}), ("update_edge", a, b, None, {"c": 3}), ("update_edge", a, b, None, {"d": 0}),
                ("update_edge", a, b, [0], {"c": None}), ("add_edge", b, a, {}), ("remove_edge", a, b), ("remove_node", a), ("remove_node", b)]
    ops = []
    for a in labels:
        ops.append(("add_node", a, {"c": 1}))
        ops.append(("remove_node", a))
        if not small:
            ops.append(("del", a))
            ops.append(("add_node", a, {}))
    for a, b in itertools.product(labels, repeat=2):
        ops.append(("add_edge", a, b, {"w": 1}))
        ops.append(("remove_edge", a, b))
        if not small:
            ops.append(("update_edge", a, b, None, {"w": 9}))
            ops.append(("update_edge", a, b, [-1], {"v": 2}))
            ops.append(("update_edge", a, b, [0, 1], {"u": 3}))
            ops.append(("update_edge", a, b, [], {"w": 8, "z": 4}))
    for a, b in itertools.combinations_with_replacement(labels, 2):
        ops.append(("add_edge_bidir", a, b, {"w": 3}))
    return ops


def real(n, op):
    k = op[0]
    if k == "add_node":
        n.add_node(op[1], **op[2])
    elif k == "remove_node":
        n.remove_node(op[1])
    elif k == "del":
        del n[op[1]]
    elif k == "add_edge":
        n.add_edge(op[1], op[2], **op[3])
    elif k == "add_edge_bidir":
        n.add_edge_bidir(op[1], op[2], **op[3])
    elif k == "remove_edge":
        n.remove_edge(op[1], op[2])
    elif k == "update_edge":
        if op[3] is None:
            n.update_edge(op[1], op[2], **op[4])
        else:
            n.update_edge(op[1], op[2], indices=op[3], **op[4])
    else:
        raise AssertionError(k)


def model(m, op):
    """Returns whether the operation is possible."""
    k = op[0]
    if k == "add_node":
        m.add_node(op[1], **op[2])
    elif k in ("remove_node", "del"):
        if op[1] not in m.attrs:
            return False
        m.remove_node(op[1])
    elif k == "add_edge":
        m.add_edge(op[1], op[2], **op[3])
    elif k == "add_edge_bidir":
        m.add_edge(op[1], op[2], **op[3])
        m.add_edge(op[2], op[1], **op[3])
    else:
        if not m.has_edge(op[1], op[2]):
            return False
        if k == "remove_edge":
            m.remove_edge(op[1], op[2])
        elif op[3] is None:
            m.update_edge(op[1], op[2], **op[4])
        else:
            if any(i >= len(m.inc[op[2]][op[1]]) for i in op[3]):
                return False
            for i in op[3]:
                m.inc[op[2]][op[1]][i].update(op[4])
    return True


def look(n, m, labels):
    got, want = norm_real(n), m.norm()
    if got != want:
        raise Violation("the network is %s, expected %s" % (got, want))
    require(list(n.nodes) == list(m.attrs), "the nodes are %s, expected the order %s", list(n.nodes), list(m.attrs))
    for a in labels:
        for b in labels:
            require(n.has_edge(a, b) is m.has_edge(a, b), "has_edge(%r, %r) is %r", a, b, n.has_edge(a, b))
        if a in m.attrs:
            require(all(n[a][k] == v for k, v in m.attrs[a].items()), "the attributes of %r are not there", a)
    # it equals what holds the same, though it was put together in another order
    other = ntm.Network()
    for a in reversed(list(m.attrs)):
        other.add_node(a, **m.attrs[a])
    for j in m.inc:
        for i in reversed(list(m.inc[j])):
            for attrs in m.inc[j][i]:
                other.add_edge(i, j, **attrs)
    require(n == other and other == n and not n != other, "%s does not equal the same network, put together in another order", got)
    return snap(got)


def saved(n):
    """A function which makes the network again."""
    try:
        blob = pickle.dumps(n, 4)
    except Exception:
        return lambda: copy.deepcopy(n)
    return lambda: pickle.loads(blob)


def step(n, m, op, labels, again=None):
    """Applies op to copies of the network and the model and compares them."""
    n2, m2 = (again or saved(n))(), m.copy()
    possible = model(m2, op)
    try:
        real(n2, op)
    except Exception as e:
        require(not possible, "%s was refused: %r", op, e)
    else:
        require(possible, "%s was accepted", op)
    after = look(n2, m2, labels)
    return n2, m2, after


def cases(tier):
    deep = tier == "thorough"
    for labels, small, depth in (([0, 1], False, 5 if deep else 3), ([0, 1, 2], True, 4 if deep else 3),
                                 (["a", (0, 1)], True, 5 if deep else 4), ([1, 0], "least", 6 if deep else 5), (["x", 7], "attributes", 5 if deep else 4)):
        k = len(operations(labels, small))
        for pre in itertools.product(range(k), repeat=2):
            yield {"dfs": pre, "labels": labels, "small": small, "depth": depth}
    for n in range(6):
        yield {"initial": n}
    # start states: every digraph over three labels, then every pair of operations
    for i, edges in enumerate(spaces.digraphs(3)):
        yield {"from": edges, "depth": 2 if deep or i % 64 == 5 else 1}
    for i, edges in enumerate(spaces.multidigraphs(2, 3 if deep else 2)):
        yield {"from": edges, "depth": 2}
    for x, y in itertools.product(range(len(operations([0, 1]))), repeat=2):
        yield {"eq": (x, y)}
    for edges in spaces.digraphs(3):
        if 2 <= len(edges) <= (6 if deep else 4):
            yield {"orders": edges}
    # many nodes, many parallel connections, and long histories
    for labels in ("int", "str", "mixed"):
        for shape in sorted(spaces.shapes(14)):
            for way in range(4):
                yield {"undo": shape, "n": 14, "labels": labels, "way": way}
    for shape in ("ring", "multi", "complete"):
        yield {"undo": shape, "n": 40 if shape != "complete" else 24, "labels": "int", "way": 3}
    for k in list(range(1, 25 if deep else 13)) + [33]:
        yield {"parallel": k}


def run(case, rec):
    if "dfs" in case:
        labels = case["labels"]
        ops = operations(labels, case["small"])
        n, m = ntm.Network(), RefNet()
        for i in case["dfs"]:
            n, m, _ = step(n, m, ops[i], labels)
            rec.step()
        dfs(n, m, ops, labels, case["depth"] - len(case["dfs"]), rec)
    elif "initial" in case:
        k = case["initial"]
        n, m = ntm.Network(k), RefNet()
        for i in range(k):
            m.add_node(i)
        labels = list(range(k)) + ["a"]
        look(n, m, labels)
        for op in operations(labels):
            step(n, m, op, labels)
            rec.step()
        rec.trace()
        require(len(ntm.Network()) == 0, "a new network has %d nodes", len(ntm.Network()))
        require(ntm.Network() is not n and len(n) == k, "networks share their nodes")
    elif "from" in case:
        n, m = ntm.Network(), RefNet()
        labels = [0, 1, 2]
        for i, j in case["from"]:
            n.add_edge(i, j, w=(i, j))
            m.add_edge(i, j, w=(i, j))
        look(n, m, labels)
        dfs(n, m, operations(labels), labels, case["depth"], rec)
    elif "undo" in case:
        undo(case, rec)
    elif "parallel" in case:
        parallel(case, rec)
    elif "orders" in case:
        orders(case["orders"], rec)
    else:
        equality(case, rec)


def dfs(n, m, ops, labels, depth, rec):
    if depth == 0:
        rec.trace()
        return
    before = snap(norm_real(n))
    again = saved(n)
    for op in ops:
        n2, m2, after = step(n, m, op, labels, again)
        rec.step()
        rec.state(after)
        rec.outcome(op[0], after)
        dfs(n2, m2, ops, labels, depth - 1, rec)
    same(snap(norm_real(n)), before, "the network whose copies were operated on")


def follow(n, m, ops, labels, rec):
    """A history on one network, without copies."""
    for op in ops:
        require(model(m, op), "not a history: %s", op)
        real(n, op)
        rec.state(look(n, m, labels))
        rec.step()
    rec.trace()
    rec.outcome(snap(m.norm()))


def undo(case, rec):
    """Builds a network, and takes it apart in some order: edge by edge, or node by node, or in turns; and builds it again."""
    names = spaces.LABELS[case["labels"]](case["n"])
    edges = [(names[i], names[j]) for i, j in spaces.shapes(case["n"])[case["undo"]]]
    n, m = ntm.Network(), RefNet()
    ops = [("add_node", a, {"c": a}) for a in names[::2]] + [("add_edge", i, j, {"w": k}) for k, (i, j) in enumerate(edges)]
    for op in ops:
        model(m, op)
        real(n, op)
    look(n, m, names)
    pairs = list(dict.fromkeys(edges))
    way = case["way"]
    if way == 0:
        ops = [("remove_edge", i, j) for i, j in pairs]
    elif way == 1:
        ops = [("remove_edge", i, j) for i, j in reversed(pairs)] + [("remove_node", a) for a in reversed(list(m.attrs))]
    elif way == 2:
        ops = [("remove_node", a) for a in list(m.attrs)[1::2]] + [("add_edge_bidir", names[0], a, {"again": 1}) for a in names]
    else:
        ops = []
        for k, a in enumerate(list(m.attrs)[:12]):
            ops += [("del" if k % 2 else "remove_node", a), ("add_edge", a, names[-1], {"w": k}), ("add_edge", names[-1], a, {}),
                    ("add_edge", a, names[-1], {"w": k}), ("update_edge", a, names[-1], [1], {"u": k}), ("add_node", a, {"d": k})]
    follow(n, m, ops, names, rec)


def parallel(case, rec):
    """k connections between two nodes, in several orders among others; the update of each one, and of all; the removal."""
    k = case["parallel"]
    for other in ((), (("a", "a"),), (("b", "a"), ("c", "b"), ("a", "c"))):
        for i in range(k):
            n, m = ntm.Network(), RefNet()
            ops = []
            for e in range(k):
                ops.append(("add_edge", "a", "b", {"w": e}))
                ops += [("add_edge", x, y, {"o": e}) for x, y in other]
            ops += [("update_edge", "a", "b", [i], {"u": 1}), ("update_edge", "a", "b", [], {"u": 0}), ("update_edge", "a", "b", [i, i], {"y": 1}), ("update_edge", "a", "b", [-1 - i, i], {"v": 2}),
                    ("update_edge", "a", "b", None, {"x": 3}),
                    # most of them: all but i, and from i on, in the other direction
                    ("update_edge", "a", "b", [e for e in range(k) if e != i], {"z": i}), ("update_edge", "a", "b", list(range(k - 1, i - 1, -1)), {"r": i})]
            ops += [[("remove_edge", "a", "b")], [("remove_node", "a")], [("remove_node", "b")]][i % 3]
            ops += [("add_edge", "a", "b", {"new": 1})]
            follow(n, m, ops, ["a", "b", "c"], rec)


def orders(edges, rec):
    """The same connections, in every order; without one of them; with one of them the other way around; with another attribute."""
    made = []
    for order in itertools.permutations(edges):
        n = ntm.Network(3)
        for i, j in order:
            n.add_edge(i, j, w=(i, j))
        made.append(n)
    for n in made:
        require(made[0] == n and n == made[0] and not made[0] != n, "networks with the connections %s, added in different orders, aren't equal", edges)
    for k, (i, j) in enumerate(edges):
        less, turned, changed, more = ntm.Network(3), ntm.Network(3), ntm.Network(3), ntm.Network(3)
        for e, (a, b) in enumerate(edges):
            if e != k:
                less.add_edge(a, b, w=(a, b))
            turned.add_edge(*((b, a) if e == k else (a, b)), w=(a, b))
            changed.add_edge(a, b, w=(a, b) if e != k else 0)
            more.add_edge(a, b, w=(a, b))
        more.add_edge(i, j, w=(i, j))
        for what, x in (("without one", less), ("with one more", more), ("with another attribute", changed)) + ((("turned", turned),) if i != j else ()):
            for n in (made[0], made[-1]):
                require(not n == x and not x == n and n != x, "the connections %s, and %s at %s, are equal", edges, what, (i, j))
    for n in made[:2]:
        n.add_node(3)
        require(not n == made[-1] or n is made[-1], "a network equals one with a node less")
    rec.trace()
    rec.step(len(made))
    rec.state(tuple(edges))
    rec.outcome(tuple(edges))


def equality(case, rec):
    ops = operations([0, 1])
    base = [("add_edge", 0, 1, {"w": 1}), ("add_edge", 1, 0, {"w": 2}), ("add_node", 5, {"c": 1})]

    def made(more):
        n, m = ntm.Network(), RefNet()
        for op in base + more:
            if model(m, op):
                real(n, op)
        return n, m
    a, ma = made([ops[case["eq"][0]]])
    b, mb = made([ops[case["eq"][0]]])
    c, mc = made([ops[case["eq"][1]]])
    require(a == b, "networks made in the same way are not equal")
    if snap(ma.norm()) != snap(mc.norm()):
        require(a != c, "different networks are equal: %s and %s", snap(ma.norm()), snap(mc.norm()))
    rec.trace()
    rec.step(3)
    rec.outcome(snap(ma.norm()), snap(mc.norm()))

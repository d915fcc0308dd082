"""
Copies and compression. For networks and activities with every type of label, attribute and activity value (None, booleans,
integers, floats, strings, bytes, lists, dicts, tuples, all nested in each other to depth 2) and all small graphs: a copy, a
compressed and decompressed network, and what a State with or without compression gives back, must equal what was given, with
its types and the order of its nodes; and for every operation (and pair of operations) on one of them, the other must not
change, while the one must change as the original would have. Empty activities and networks must not be taken for none, and
the garbage collector must be left as it was found.
"""
import collections
import copy
import enum
import gc
import itertools

from mc import spaces
from mc.engine import canon, require, same
from mc.props.c11 import look, model, operations, real
from mc.props.c13 import NAMES
from mc.refevolve import RefNet, build, eq, norm_real, snap, val
from mc.target import ntm

BASE = [None, True, False, 0, 1, -1, 127, 128, 255, 256, -32, -33, -128, -129, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32,
        2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63, 2 ** 64 - 1, 2 ** 64, -2 ** 63 - 1, 2 ** 100 + 1, -3 ** 70, 2 ** 128, -2 ** 128, -2 ** 200 - 7, 16 ** 64 - 1, -10 ** 500, 0.0, -0.0, 1.0, 0.1, 1e300, float("inf"), "", "a", "é", "x" * 40, b"", b"\xff\x00",
        b"a"]
NP = [("np.int64", 5), ("np.int32", -1), ("np.float64", 0.5), ("np.bool_", True), ("np.float32", 1.5), ("np.int64", 0)]


class Level(enum.IntEnum):
    LOW, HIGH = 1, 2


Point = collections.namedtuple("Point", "x y")
WORD = type("Word", (str,), {})
ORDERED = collections.OrderedDict([("b", 1), ("a", 2), ("c", collections.OrderedDict([(3, 1), (2, 0), (1, 5)]))])
# instances of subclasses; the copy may be of the class above
SUBCLASSES = [Level.HIGH, Point(1, "a"), [Point(0, Level.LOW)], WORD("w"), ORDERED, [ORDERED, (ORDERED,)], collections.Counter("bbac"),
              collections.defaultdict(int, {2: 1, 1: 2}), type("Reals", (float,), {})(0.5), type("Items", (list,), {})([2, 1]),
              {"b": 1, "a": {"z": 1, "y": [2, {"q": 0, "p": 1}]}}, {2: 0, 1: 0, 10: 0, -1: 0}, {"x": (ORDERED, {"k": 1, "c": 2})}]


def ordered(x):
    """As plain values, the items of dicts in their order."""
    if isinstance(x, dict):
        return ("dict",) + tuple((ordered(k), ordered(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return ("list" if isinstance(x, list) else "tuple",) + tuple(ordered(v) for v in x)
    for base in (int, float, str):
        if isinstance(x, base):
            return base(x)
    return x


def nested(depth, base):
    """All the values made from base by lists, tuples and dicts of up to two items."""
    yield from base
    if depth:
        inner = list(nested(depth - 1, base))
        for kind in ("list", "tuple", "dict"):
            for items in [()] + [(x,) for x in inner] + [(x, y) for x in inner[:6] for y in inner[:6]]:
                yield (list(items) if kind == "list" else items if kind == "tuple" else
                       {k: v for k, v in zip(("k", 0), items)})


def values():
    yield from BASE
    seen = set()
    for v in nested(2, [0, None, "a", 0.5]):
        if repr(v) not in seen:
            seen.add(repr(v))
            yield v


def cases(tier):
    deep = tier == "thorough"
    vs = list(values())
    for i in range(0, len(vs), 1):
        yield {"value": vs[i]}
    for v in NP:
        yield {"value": v}
        yield {"value": ["np in list", v]}
    for labels in sorted(spaces.LABELS):
        for n in (1, 2, 4):
            for shape, edges in sorted(spaces.shapes(n).items()):
                yield {"net": spaces.net(edges, n, labels, node_attrs=True)}
    for name in NAMES:
        d = {name: "a", "other": name}
        yield {"net": {"nodes": [0, name], "attrs": {0: d, name: {name: 0}}, "edges": [(0, name, d), (0, name, {name: None}), (name, name, {})]}}
    for labels in ("int", "str", "mixed", "tuple"):
        for shape, edges in sorted(spaces.shapes(40).items()):
            yield {"net": spaces.net(edges, 40, labels, node_attrs=True)}
    yield {"net": spaces.net(spaces.shapes(1000)["ring"], 1000, "sparse")}
    for size in (16, 32, 256, 70000):
        for big in ("s" * size, "é" * size, b"b" * size, list(range(size)), tuple(range(size)), {i: i for i in range(size)}, (0,) * size,
                    {"k%d" % i: (i, [i]) for i in range(min(size, 300))}):
            if size < 300 or not isinstance(big, dict):
                yield {"value": big}
    deepest = 1
    for i in range(60):
        deepest = [(deepest,), [deepest], {"d": deepest}][i % 3]
    yield {"value": deepest}
    for edges in spaces.digraphs(3):
        yield {"net": spaces.net(edges, 3)}
    for edges in spaces.multidigraphs(2, 2 if not deep else 3):
        yield {"net": spaces.net(edges, 2)}
        yield {"ops": edges, "depth": 1}
    for edges in spaces.digraphs(2):
        yield {"ops": edges, "depth": 3 if deep else 2}
    for k in range(len(SUBCLASSES)):
        yield {"subclass": k}
    for gc_on in (True, False):
        for what in range(6):
            yield {"gc": gc_on, "what": what}
    for labels in sorted(spaces.LABELS):
        for n in (3, 9, 17, 40, 130):
            yield {"many": n, "labels": labels}
    for edges in spaces.digraphs(2):
        for a in ({}, {0: None}, {0: 1, 1: [1, {"x": (1, 2)}]}, None):
            yield {"state": edges, "acts": a}


def same_net(got, want, what):
    require(type(got) is ntm.Network, "%s is a %s", what, type(got))
    a, b = norm_real(got), norm_real(want)
    if snap(a) != snap(b) or canon(a) != canon(b):
        same(a, b, what)
        same(snap(a), snap(b), what)
    same(list(got.nodes), list(want.nodes), "the order of the nodes of " + what)
    for n in want.nodes:
        same(list(got.in_edges(n)), list(want.in_edges(n)), "the order of the neighbours in " + what)
    require(got == want, "%s does not equal what it was made from", what)


def copies(n):
    """Each of the ways to get the network again."""
    yield "the copy", n.copy()
    packed = n.compress()
    require(isinstance(packed, bytes), "compress returned a %s", type(packed))
    yield "the decompressed network", ntm.Network.decompress(packed)
    yield "the copy's copy", n.copy().copy()
    s = ntm.State(network=n, compression=True)
    yield "the compressed state's network", s.network
    yield "the compressed state's network, again", s.network
    s = ntm.State(compression=True)
    s.network = n
    yield "the network set in a compressed state", s.network


def run(case, rec):
    rec.trace()
    if "value" in case:
        value(case["value"], rec)
    elif "net" in case:
        n = build(ntm.Network, case["net"])
        for what, c in copies(n):
            require(c is not n, "%s is the original", what)
            same_net(c, n, what)
            rec.step()
        for s in (ntm.State(network=n), ntm.State(network=n, activities={0: 1})):
            require(s.network is n or s.network == n, "a state's network is not what was given")
        before = snap(norm_real(n))
        for give in (lambda: n.copy(), lambda: ntm.State(network=n, compression=True).network):
            apart(give(), n)
            same(snap(norm_real(n)), before, "the original, after its copy changed in every place")
            other = give()
            source = give()
            c = source.copy()
            apart(source, c)
            same(snap(norm_real(c)), snap(norm_real(other)), "the copy, after what it was made from changed in every place")
            rec.step(2)
        rec.state(before)
        rec.outcome(before)
    elif "subclass" in case:
        given = SUBCLASSES[case["subclass"]]
        n = ntm.Network()
        n.add_edge("x", "y", w=given)
        n.add_node("x", att=given)
        for what, c in copies(n):
            for got in (c.edge("x", "y")[0]["w"], c["x"]["att"]):
                require(got == given and ordered(got) == ordered(given), "%s has %r for %r", what, got, given)
            rec.step()
        s = ntm.State(activities={0: given}, compression=True)
        require(s.activities[0] == given and ordered(s.activities[0]) == ordered(given), "the state has %r for %r", s.activities, given)
        rec.state(repr(given))
        rec.outcome(repr(given))
    elif "ops" in case:
        independent(case, rec)
    elif "gc" in case:
        collector(case, rec)
    elif "many" in case:
        many(case["many"], case["labels"], rec)
    else:
        state(case, rec)


def apart(n, other):
    """Changes a network in every place."""
    labels = list(n.nodes)
    for i, j, attrs in n.edges:
        attrs["changed"] = 1
        for v in attrs.values():
            if isinstance(v, list):
                v.append(1)
    for label in labels:
        n.add_node(label, changed=2)
        n.add_edge(label, labels[0], extra=1)
        n.add_edge(labels[-1], label)
    for label in labels[::3]:
        n.remove_edge(label, labels[0])
    for label in labels[1::3]:
        n.remove_node(label)
    n.add_edge("another", "label")


def value(raw, rec):
    if isinstance(raw, list) and raw and raw[0] == "np in list":
        given, expected = [val(raw[1]), {"k": (val(raw[1]),)}], [val(raw[1]).item(), {"k": (val(raw[1]).item(),)}]
    elif raw in NP and isinstance(raw, tuple):
        given, expected = val(raw), val(raw).item()
    else:
        given = expected = raw
    before = canon(given)
    n = ntm.Network()
    n.add_edge("x", "y", w=given, other=1)
    n.add_edge("x", "y", w=1)
    n.add_node("x", att=given)
    for what, c in copies(n):
        same(c.edge("x", "y")[0]["w"], expected, "the edge's attribute in " + what)
        same(c.edge("x", "y")[1], {"w": 1}, "the other edge in " + what)
        same(c["x"]["att"], expected, "the node's attribute in " + what)
        rec.step()
    for acts in ({"x": given}, {"x": given, 1: given, (0, 1): None}):
        want = {k: expected if v is given else v for k, v in acts.items()}
        for s in (ntm.State(activities=acts, compression=True), ntm.State(compression=True)):
            s.activities = acts
            same(s.activities, want, "the compressed state's activities")
            same(list(s.activities), list(acts), "the order of the compressed state's activities")
            got = s.activities
            got["x"] = "changed"
            same(s.activities, want, "the compressed state's activities, after what it gave was changed")
            rec.step()
        plain = ntm.State(activities=acts)
        same(plain.activities, acts, "the state's activities")
    require(canon(given) == before, "the value was changed")
    # a nested value must not be shared
    if isinstance(given, (list, dict)):
        c = n.copy()
        inner = c.edge("x", "y")[0]["w"]
        inner.clear()
        inner = c["x"]["att"]
        inner.clear()
        require(canon(given) == before, "a change of a copy's attribute changed the original's")
    if isinstance(given, (int, float, str, bytes, tuple)) and not isinstance(given, bool) and raw not in NP and expected == expected:
        try:
            hash(given)
        except TypeError:
            return
        n = ntm.Network()
        n.add_edge(given, "other", w=1)
        n.add_edge("other", given)
        for what, c in copies(n):
            same_net(c, n, what)
            same(list(c.nodes), [given, "other"], "the labels in " + what)
        s = ntm.State(activities={given: 1}, compression=True)
        same(s.activities, {given: 1}, "the label in the compressed activities")
    rec.state(repr(given))
    rec.outcome(repr(given))


def many(n, labels, rec):
    """The activities of many nodes, in the order they are given in, whichever it is."""
    names = list(dict.fromkeys(spaces.LABELS[labels](n)))
    for kind, order in (("as listed", names), ("reversed", names[::-1]), ("mixed", names[1::2] + names[::2])):
        acts = {x: (i * 7 + 1) % n for i, x in enumerate(order)}
        for compression in (False, True):
            s, later = ntm.State(activities=dict(acts), compression=compression), ntm.State(compression=compression)
            later.activities = dict(acts)
            for got in (s.activities, later.activities):
                require(got == acts and list(got) == order, "the activities of %d nodes, %s, are %r for %r", n, kind, got, acts)
            rec.step()
        rec.state(repr(acts))
    rec.outcome(repr(acts))


def independent(case, rec):
    labels = [0, 1]
    ops = operations(labels)
    desc = spaces.net(case["ops"], 2)
    for seq in itertools.product(ops, repeat=case["depth"]):
        for mode in (0, 1):  # operate on the copy or on the original
            n, m = build(ntm.Network, desc), build(RefNet, desc)
            c = n.copy()
            before = snap(norm_real(n))
            a, b = (c, n) if mode == 0 else (n, c)
            for op in seq:
                if model(m, op):
                    real(a, op)
            same(snap(norm_real(b)), before, "the %s, after %s on the %s" % (("original", seq, "copy") if mode == 0 else ("copy", seq, "original")))
            look(a, m, labels)
            rec.step(len(seq))
            rec.state(snap(m.norm()))
        s = ntm.State(network=build(ntm.Network, desc), compression=True)
        got = s.network
        m = build(RefNet, desc)
        for op in seq:
            if model(m, op):
                real(got, op)
        same(snap(norm_real(s.network)), before, "the compressed state's network, after %s on what it gave" % (seq,))
        rec.outcome(snap(m.norm()))


def collector(case, rec):
    n = build(ntm.Network, spaces.net([(0, 1), (1, 0)], 2))
    packed = n.compress()
    was = gc.isenabled()
    try:
        (gc.enable if case["gc"] else gc.disable)()
        what = case["what"]
        if what == 0:
            n.copy()
        elif what == 1:
            ntm.Network.decompress(packed)
        elif what == 2:
            s = ntm.State({0: 1}, n, compression=True)
            s.network, s.activities
        elif what == 3:
            try:
                ntm.Network.decompress(b"\xc1")
            except Exception:
                pass
        elif what == 4:
            try:
                ntm.Network.decompress(packed[:-3])
            except Exception:
                pass
        else:
            ntm.evolve(n, [0, 1], lambda ctx: 1, timesteps=3, compression=True, topology_rule=lambda ctx: ctx.network)
        require(gc.isenabled() is case["gc"], "the garbage collector was %s, and was left %s" % (
            ("enabled", "disabled") if case["gc"] else ("disabled", "enabled")))
    finally:
        (gc.enable if was else gc.disable)()
    rec.step()
    rec.outcome(repr(case))


def state(case, rec):
    desc = spaces.net(case["state"], 2)
    for compression in (False, True):
        for net in (None, ntm.Network(), ntm.Network(3), build(ntm.Network, desc)):
            acts = copy.deepcopy(case["acts"])
            s = ntm.State(activities=acts, network=net, compression=compression)
            t = ntm.State(compression=compression)
            require(t.activities is None and t.network is None, "an empty state has activities or a network")
            t.activities = acts
            t.network = net
            for x in (s, t):
                same(x.activities, case["acts"], "the activities")
                if net is None:
                    require(x.network is None, "a network where none was given")
                else:
                    same_net(x.network, net, "the state's network")
            if compression and acts and net is not None:
                acts[0] = "changed"
                acts.clear()
                same(s.activities, case["acts"], "the compressed activities, after what was given changed")
            u = ntm.State(activities={0: "other"}, network=ntm.Network(1), compression=compression)
            if case["acts"] is not None:
                u.activities = copy.deepcopy(case["acts"])
                same(u.activities, case["acts"], "the activities which were set later")
            if net is not None:
                u.network = net
                same_net(u.network, net, "the network which was set later")
            rec.step(4)
    rec.state(repr(case))
    rec.outcome(repr(case))

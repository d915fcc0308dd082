"""
Faults. A callback of an evolution (activity rule, topology rule, perturbation, input function, memoization key) is made to fail at every
single point at which the evolution calls one, with every kind of exception which the code might mistake for something else (a missing
key, the end of an iteration, an index out of range, ...), on systems with every feature of an evolution. The very exception must reach the
caller, at once: nothing is called again or any further; the calls before were those of the evolution which doesn't fail; the network, the
initial and past conditions and the input are as they were; the networks and activities handed out before are, too; and the evolution
started again on the same objects gives exactly what it gives when nothing has ever failed. The same for the wrappers of rules, and for
what fails inside of a copy or a conversion of a network.
"""
import itertools

from mc import spaces
from mc.engine import HarnessError, canon, require, same
from mc.refevolve import build
from mc.target import ntm

O = ntm.UpdateOrder


class Own(Exception):
    pass


class OwnKey(KeyError):
    pass


KINDS = [Own, KeyError, IndexError, StopIteration, TypeError, ValueError, AttributeError, AssertionError, LookupError, RuntimeError, NotImplementedError,
         ZeroDivisionError, OSError, OwnKey, UnicodeDecodeError, KeyboardInterrupt, GeneratorExit, RecursionError, MemoryError]
ORDERS = [O.ACTIVITIES_FIRST, O.TOPOLOGY_FIRST, O.SYNCHRONOUS]


def make(kind):
    return kind("utf8", b"x", 0, 1, "fault") if kind is UnicodeDecodeError else kind("fault")


def cases(tier):
    deep = tier == "thorough"
    k = 0
    graphs = list(spaces.digraphs(2)) + [[(0, 1), (0, 1), (1, 0), (1, 1)], [(0, 1), (1, 2), (2, 0), (2, 2)]]
    for rule, topo, pert, inp, past, memo, rot in itertools.product(("plain", "wrapped", "plan"), (None, "same", "fresh", "inplace"), (False, True), (None, "list", "fn"),
                                                                    (0, 2), (False, True), (False, True)):
        if rule == "plan" and (memo or rot) or rot and topo not in (None, "same") or rule == "wrapped" and memo:
            continue
        for order in range(3):
            if rule == "plan" and order:
                continue
            for stored in range(4 if not deep else 8):
                k += 1
                if deep or (k // 3 + order) % 2 == 0 or stored == 0:
                    yield {"rule": rule, "topo": topo, "pert": pert, "inp": inp, "past": past, "memo": memo, "rot": rot, "order": order,
                           "stored": (stored * 5 + k) % 16 if not deep else stored * 2 + k % 2, "edges": graphs[(k * 7) % len(graphs)], "k": k}
    for name in ("async", "reversible", "table", "ctrbl", "asyncrev"):
        for kind in range(len(KINDS)):
            yield {"wrapper": name, "kind": kind}
    for edges in spaces.digraphs(2):
        yield {"convert": edges}


class Faults:
    """Counts the calls of the callbacks, and fails at one of them."""
    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.log, self.after = at, exc, [], 0

    def hit(self, *what):
        if self.at is not None and len(self.log) > self.at:
            self.after += 1
        self.log.append(what)
        if len(self.log) - 1 == self.at:
            raise self.exc


def netview(net):
    return {"nodes": sorted(map(repr, net.nodes)), "edges": sorted((repr(i), repr(j), repr(sorted(a.items()))) for i, j, a in net.edges),
            "degrees": sorted((repr(n), net.degree(n), net.in_degree(n), net.out_degree(n)) for n in net.nodes), "rot": repr(net.rotation_system), "size": len(net)}


class System:
    def __init__(self, case):
        self.case = case
        edges = case["edges"]
        n = self.n = max([2] + [x + 1 for e in edges for x in e])
        rot = {j: tuple(dict.fromkeys(i for i, t in reversed(edges) if t == j)) for j in range(n)} if case["rot"] else None
        self.net = build(ntm.Network, spaces.net(edges, n, rot=rot, node_attrs=True))
        self.init = [1, 0, 2][:n] if case["k"] % 2 else {c: c + 1 for c in range(n)}
        self.past = [[0, 1, 1][:n], {c: 2 for c in range(n)}][:case["past"]] or None
        self.list = [[1, 2, 0, 3][:4], (0, 2, 1, 1), [2, 2, 2, 2]]
        self.handed = []

    def view(self):
        return canon([netview(self.net), self.init, self.past, self.list])

    def evolve(self, faults):
        case, n = self.case, self.n
        handed = self.handed = []

        def value(ctx):
            x = 3 * ctx.current_activity + 2 * sum(ctx.neighbourhood_activities) + len(ctx.neighbour_labels) + (ctx.input or 0)
            if ctx.past_activities:
                x += ctx.past_activities[0].get(ctx.node_label, 0)
            return x % 5

        def plain(ctx):
            faults.hit("activity", ctx.timestep, ctx.node_label, ctx.current_activity, tuple(ctx.neighbourhood_activities), ctx.input)
            handed.append(("a", dict(ctx.activities), ctx.activities, ctx.timestep))
            return value(ctx)

        def plan(ctx):
            faults.hit("activity", ctx.timestep, ctx.node_label, ctx.current_activity, tuple(ctx.neighbourhood_activities), ctx.input)
            if ctx.timestep == 1 and ctx.node_label == 0:
                ctx.add_node(4, {0: {"w": 1}, n: {}}, n)
            if ctx.timestep == 2 and ctx.node_label == n:
                ctx.remove_node(1)
            faults.hit("activity, done", ctx.timestep, ctx.node_label)
            return value(ctx)

        def topo(ctx):
            faults.hit("topology", ctx.timestep, tuple(sorted(ctx.activities.items())), len(ctx.network))
            net = ctx.network
            if case["topo"] == "same":
                return net
            if case["topo"] == "fresh":
                net = net.copy()
            if ctx.timestep % 2:
                net.add_edge(0, 0, tag=ctx.timestep)
                faults.hit("topology, edited", ctx.timestep)
                net.update_edge(0, 0, tag="again")
            elif net.has_edge(0, 0):
                net.remove_edge(0, 0)
            handed.append(("n", netview(net), net, ctx.timestep))
            faults.hit("topology, done", ctx.timestep)
            return net

        def pert(ctx):
            faults.hit("perturbation", ctx.timestep, ctx.node_label, ctx.node_activity, ctx.input)
            return (ctx.node_activity + 1) % 5 if ctx.node_label == 0 else ctx.node_activity

        def inputs(t, activities, network):
            faults.hit("input", t, tuple(sorted(activities.items())), len(network))
            return self.list[t - 1] if t < 4 else None

        class Key(ntm.MemoizationKey):
            def to_key(self, ctx):
                faults.hit("key", ctx.timestep, ctx.node_label)
                return (ctx.current_activity, tuple(ctx.neighbourhood_activities), ctx.input, ctx.past_activities[0].get(ctx.node_label, 0) if ctx.past_activities else None)

        rule = plan if case["rule"] == "plan" else plain
        if case["rule"] == "wrapped":
            rule = ntm.AsynchronousRule(plain, update_order=[1, 0])
        comp, cp, pa, pn = [bool(case["stored"] >> b & 1) for b in range(4)]
        kw = {"update_order": ORDERS[case["order"]], "compression": comp, "copy_network": not cp or case["topo"] == "inplace", "persist_activities": not pa, "persist_network": not pn}
        if case["topo"]:
            kw["topology_rule"] = topo
        if case["pert"]:
            kw["perturbation"] = pert
        if case["inp"] == "list":
            kw["input"] = self.list
        elif case["inp"] == "fn":
            kw["input"] = inputs
        else:
            kw["timesteps"] = 4
        if self.past:
            kw["past_conditions"] = self.past
        if case["memo"]:
            kw["memoize"] = True
            if case["k"] % 3:
                kw["memoization_key"] = Key()
        traj = ntm.evolve(self.net, self.init, rule, **kw)
        return [(s.activities, None if s.network is None else netview(s.network)) for s in traj]


def run(case, rec):
    rec.trace()
    if "wrapper" in case:
        return wrapper(case, rec)
    if "convert" in case:
        return convert(case, rec)
    clean = Faults()
    s = System(case)
    before = s.view()
    want = canon(s.evolve(clean))
    require(s.view() == before, "the evolution changed its arguments")
    if not clean.log:
        raise HarnessError("no callbacks")
    kinds = KINDS if case["k"] % 4 == 0 else [KINDS[case["k"] % len(KINDS)], KINDS[(case["k"] // 7 + 5) % len(KINDS)]]
    for at in range(len(clean.log)):
        for kind in kinds if len(kinds) == 2 or at < 12 or at % 4 == 0 else kinds[at % 5::5]:
            exc = make(kind)
            faults = Faults(at, exc)
            what = "a %s at call %d (%s)" % (kind.__name__, at, clean.log[at])
            try:
                got = s.evolve(faults)
            except BaseException as e:
                # (a generator turns a StopIteration into a RuntimeError, with its cause)
                if e is not exc and not (kind is StopIteration and e.__cause__ is exc):
                    if not isinstance(e, Exception):
                        raise
                    require(False, "%s: the caller got %r", what, e)
            else:
                require(False, "%s was lost: the evolution gave %s", what, got)
            require(faults.after == 0 and len(faults.log) == at + 1, "%s: there were %d calls after it", what, faults.after)
            require(faults.log == clean.log[:at + 1], "%s: the calls before were %s, expected %s", what, faults.log, clean.log[:at + 1])
            require(s.view() == before, "%s changed the arguments of the evolution", what)
            for sort, then, thing, t in s.handed:
                if sort == "a":
                    require(thing == then, "%s: the activities handed out at t=%d became %s, they were %s", what, t, thing, then)
                elif case["topo"] == "fresh":
                    require(netview(thing) == then, "%s: the network returned at t=%d changed", what, t)
            again = Faults()
            require(canon(s.evolve(again)) == want and again.log == clean.log, "%s: the evolution started again gives something else", what)
            require(s.view() == before, "the evolution after %s changed its arguments", what)
            rec.step(2 * at + 2)
            rec.state(case["k"], at, kind.__name__)
            rec.outcome(clean.log[at][:2], kind.__name__)


def fails(exc, call, what, *args):
    try:
        got = call()
    except BaseException as e:
        if e is not exc and not isinstance(e, Exception):
            raise
        require(e is exc or isinstance(exc, StopIteration) and e.__cause__ is exc, what + ": the caller got %r", *(args + (e,)))
    else:
        require(False, what + " was lost, and gave %r", *(args + (got,)))


def wrapper(case, rec):
    kind = KINDS[case["kind"]]
    name = case["wrapper"]
    net = ntm.topology.cellular_automaton2d(3, 3, neighbourhood="von Neumann") if name == "ctrbl" else ntm.topology.cellular_automaton(4)
    n = len(net)
    for at in range(1, 4 * n):
        exc = make(kind)
        calls = [0]

        def inner(ctx):
            calls[0] += 1
            if calls[0] == at:
                raise exc
            return (ctx.current_activity + sum(ctx.neighbourhood_activities)) % 2

        class Table(dict):
            def __getitem__(self, key):
                calls[0] += 1
                if calls[0] == at:
                    raise exc
                return dict.__getitem__(self, key)
        kw = {"timesteps": 8}
        if name == "async":
            rule, kw["timesteps"] = ntm.AsynchronousRule(inner, update_order=[2, 0, 1]), 4 * n + 2
        elif name == "reversible":
            rule, kw["past_conditions"] = ntm.ReversibleRule(inner), [[0] * n]
        elif name == "asyncrev":
            rule, kw["past_conditions"], kw["timesteps"] = ntm.ReversibleRule(ntm.AsynchronousRule(inner, update_order=[3, 1])), [[0] * n], 4 * n + 2
        elif name == "table":
            if kind is KeyError or issubclass(kind, LookupError):
                return  # a failing lookup is how a table says that something isn't in it
            rule = ntm.table_rule(Table({"%d%d%d" % x: sum(x) % 2 for x in itertools.product((0, 1), repeat=3)}))
        else:
            rule = lambda ctx: ntm.rules.nks_ca_rule(2 ** 31 + 77)(ctx) if inner(ctx) in (0, 1) else None  # noqa: E731
        fails(exc, lambda: ntm.evolve(net, [1] + [0] * (n - 1), rule, **kw), "a %s at invocation %d of %s", kind.__name__, at, name)
        require(calls[0] == at, "after a %s at invocation %d of %s there were %d more", kind.__name__, at, name, calls[0] - at)
        rec.step(at)
        rec.state(name, at, kind.__name__)


def convert(case, rec):
    """An attribute which can't be compressed, at every place: the copy is refused (or right), and nothing else is affected."""
    edges = case["convert"]
    for odd in (object(), lambda: 0, Own("x"), open):
        for place in range(2 + len(edges)):
            net = ntm.Network()
            for i in (0, 1):
                net.add_node(i, b=i if place != i else odd)
            for k, (i, j) in enumerate(edges):
                net.add_edge(i, j, b=(i, j) if place != k + 2 else odd, w=k)
            before = netview(net)
            rule = lambda ctx: (ctx.current_activity + sum(ctx.neighbourhood_activities)) % 3  # noqa: E731
            want = None
            for what, call in (("a copy", net.copy), ("compressing", lambda: ntm.Network.decompress(net.compress())),
                               ("an evolution with compression", lambda: ntm.evolve(net, [0, 1], rule, timesteps=3, compression=True)[-1].network),
                               ("an evolution with a topology rule", lambda: ntm.evolve(net, [0, 1], rule, timesteps=3, topology_rule=lambda c: c.network)[-1].network)):
                try:
                    got = call()
                except Exception:
                    rec.outcome(what, "refused")
                else:
                    same(netview(got), before, "%s of a network with the attribute %r", what, odd)
                    rec.outcome(what, "done")
                require(netview(net) == before, "%s of the network %s with the attribute %r changed it", what, edges, odd)
                got = [s.activities for s in ntm.evolve(net, [0, 1], rule, timesteps=3, copy_network=False, persist_network=False)]
                want = want or got
                same(got, want, "the evolution after %s", what)
                rec.step(3)
            # once it is gone, all is well
            if place < 2:
                net.add_node(place, b=7)
            else:
                net.update_edge(*edges[place - 2], b=7)
            same(netview(net.copy()), netview(net), "the copy without the odd attribute")
    rec.state(repr(edges))

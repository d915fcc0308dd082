"""
The reference interpreter for evolve(): what a trajectory, and what the rules see, must be. A case describes a network, the
initial activities, rules (as data), and the options; execute() runs the real evolve() with rules which record everything
they can see, interpret() computes the same from the definition, and conform() compares the two, step by step.

The activity rules are "probes": the next activity is a hash of all that the rule saw, so that a wrong view of any kind
also changes the rest of the evolution.

case = {
  "net":  {"nodes": [...], "attrs": {label: {...}}, "edges": [(i, j, {...}), ...], "rot": {label: (...)} or None},
  "init": {label: activity} | [activity, ...] | ("np", [...]) | None,
  "rule": None | ("probe", values) | ("plan", values, {(t, label): [action, ...]}) | ("nbr"|"ord"|"key:...", values),
  "topo": None | (style, [[op, ...], ...]),
  "pert": None | values,
  "T": timesteps or None, "inp": None | ("list"|"fn", [...]) | ("fnstate", T, k),
  "past": None | [...],
  "opts": {...}
}
"""
import collections
import zlib

import numpy as np

from mc.engine import Violation, canon, require, short
from mc.target import ntm

ORDERS = {"AF": ntm.UpdateOrder.ACTIVITIES_FIRST, "TF": ntm.UpdateOrder.TOPOLOGY_FIRST,
          "SY": ntm.UpdateOrder.SYNCHRONOUS}
RESERVED = ("in", "out", "incoming", "outgoing")


def crc(x):
    return zlib.crc32(repr(x).encode())


def val(v):
    """("np.int64", 3) -> np.int64(3); anything else is itself."""
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0].startswith("np."):
        return getattr(np, v[0][3:])(v[1])
    return v


def plain(v):
    """What a NumPy scalar must have become."""
    v = val(v)
    return v.item() if isinstance(v, np.generic) else v


# ---------------------------------------------------------------------------------------------- networks

class RefNet:
    def __init__(self):
        self.attrs = {}
        self.inc = {}
        self.rot = None

    def add_node(self, n, **attrs):
        self.attrs.setdefault(n, {}).update(attrs)
        self.inc.setdefault(n, {})

    def add_edge(self, i, j, **attrs):
        self.add_node(i)
        self.add_node(j)
        self.inc[j].setdefault(i, []).append(dict(attrs))

    def remove_edge(self, i, j):
        del self.inc[j][i]

    def update_edge(self, i, j, **attrs):
        for e in self.inc[j][i]:
            e.update(attrs)

    def remove_node(self, n):
        del self.attrs[n]
        del self.inc[n]
        for j in self.inc:
            self.inc[j].pop(n, None)

    def has_edge(self, i, j):
        return j in self.inc and i in self.inc[j]

    def copy(self):
        n = RefNet()
        n.rot = self.rot
        n.attrs = {k: dict(v) for k, v in self.attrs.items()}
        n.inc = {j: {i: [dict(e) for e in v] for i, v in d.items()} for j, d in self.inc.items()}
        return n

    def norm(self):
        out = {}
        ins = {j: sum(len(v) for v in d.values()) for j, d in self.inc.items()}
        outs = collections.Counter()
        for j, d in self.inc.items():
            for i, v in d.items():
                outs[i] += len(v)
        for n in self.attrs:
            out[n] = (self.attrs[n], ins[n], outs[n], ins[n] + outs[n], self.inc[n])
        return out


def build(cls, net):
    n = cls()
    for label in net["nodes"]:
        n.add_node(label, **net.get("attrs", {}).get(label, {}))
    for i, j, attrs in net["edges"]:
        n.add_edge(i, j, **attrs)
    if net.get("rot") is not None:
        if cls is RefNet:
            n.rot = net["rot"]
        else:
            n.rotation_system = dict(net["rot"])
    return n


def norm_real(n):
    """All that can be observed of a Network, in the form of RefNet.norm()."""
    require(isinstance(n, ntm.Network), "expected a Network, got %s", type(n))
    out = {}
    d = n.to_dict()
    nodes = list(n.nodes)
    require(len(n) == len(nodes) == len(set(nodes)), "len(network)=%d, but it has the nodes %s", len(n), nodes)
    edges = collections.Counter()
    for i, j, attrs in n.edges:
        edges[(i, j)] += 1
    seen = 0
    for label in nodes:
        inc = n.in_edges(label)
        for i, v in inc.items():
            require(edges[(i, label)] == len(v) and n.has_edge(i, label) and n.edge(i, label) == v,
                    "the views of the edge %r -> %r disagree", i, label)
            seen += len(v)
        out[label] = ({k: v for k, v in d[label].items() if k not in RESERVED},
                      n.in_degree(label), n.out_degree(label), n.degree(label), dict(inc))
    require(seen == sum(edges.values()), "edges lists %d edges, in_edges %d", sum(edges.values()), seen)
    return out


def snap(norm):
    """A frozen, ordered form of a normalized network."""
    return tuple(sorted([(repr(n), repr([(k, v.dtype, v) if isinstance(v, np.generic) else (k, v) for k, v in sorted(a.items())]) if a else "", i, o, d,
                          tuple(sorted([(repr(k), repr([sorted(e.items()) for e in v])) for k, v in inc.items()])))
                         for n, (a, i, o, d, inc) in norm.items()]))


def eq(a, b):
    """Equality of two values, with their types."""
    return a is b or (type(a) is type(b) and repr(a) == repr(b)) or canon(a) == canon(b)


def apply_ops(n, ops):
    for op in ops:
        if op[0] == "+":
            n.add_edge(op[1], op[2], **op[3])
        elif op[0] == "-":
            if n.has_edge(op[1], op[2]):
                n.remove_edge(op[1], op[2])
        elif op[0] == "~":
            if n.has_edge(op[1], op[2]):
                n.update_edge(op[1], op[2], **op[3])
        elif op[0] == "n":
            n.add_node(op[1], **op[2])
        elif op[0] == "0":
            for label in list(n.attrs if isinstance(n, RefNet) else n.nodes):
                n.remove_node(label)


# ---------------------------------------------------------------------------------------------- what a rule sees

def skey(x):
    return repr(x)


def edges_canon(inc):
    return sorted(((repr(i), [sorted(e.items()) for e in v]) for i, v in inc.items()))


def acts_canon(acts):
    return None if acts is None else sorted(((repr(k), v) for k, v in acts.items()), key=skey)


def view(t, label, cur, neigh, ordered, inc, acts, past, inp):
    return (t, label, cur, list(neigh) if ordered else sorted(neigh, key=skey), edges_canon(inc), acts_canon(acts),
            None if past is None else [acts_canon(p) for p in past], inp)


def view_of_ctx(ctx, ordered):
    labels, acts = ctx.neighbour_labels, ctx.neighbourhood_activities
    require(len(labels) == len(acts), "t=%s node %r: %d neighbour labels, but %d neighbourhood activities", ctx.timestep,
            ctx.node_label, len(labels), len(acts))
    for i, label in enumerate(labels):
        require(ctx.activity_of(label) is ctx.activities[label] or ctx.activity_of(label) == ctx.activities[label],
                "activity_of(%r) is not its activity", label)
        require(eq(acts[i], ctx.activities[label]),
                "t=%s node %r: neighbour %r has the activity %r, but %r is listed for it", ctx.timestep, ctx.node_label,
                label, ctx.activities[label], acts[i])
    conns = ctx.connection_states
    for i, v in conns.items():
        for k, e in enumerate(v):
            for a in e:
                require(eq(ctx.edge_data(i, a, k), e[a]), "edge_data(%r, %r, %d) is not the edge's", i, a, k)
                if k == 0:
                    require(eq(ctx.edge_data(i, a), e[a]), "edge_data(%r, %r) is not the edge's", i, a)
    if ctx.past_activities is not None:
        n = len(ctx.past_activities)
        for k in range(n):
            for label in ctx.past_activities[k]:
                require(eq(ctx.past_activity_of(label, k), ctx.past_activities[k][label]),
                        "past_activity_of(%r, %d) is not that node's", label, k)
        for label in ctx.past_activities[-1]:
            require(eq(ctx.past_activity_of(label), ctx.past_activities[-1][label]),
                    "past_activity_of(%r) is not that of the timestep before the last", label)
    return view(ctx.timestep, ctx.node_label, ctx.current_activity, list(zip(labels, acts)), ordered, conns,
                ctx.activities, ctx.past_activities, ctx.input)


def next_value(rule, v):
    kind, values = rule[0], rule[1]
    if kind in ("probe", "plan"):
        return values[crc(v) % len(values)]
    if kind == "const":
        return values
    if kind == "nbr":
        return values[crc(sorted((a for _, a in v[3]), key=skey)) % len(values)]
    if kind == "ord":
        return values[crc([a for _, a in v[3]]) % len(values)]
    if kind.startswith("key:"):
        return values[crc(fields(kind[4:], v)) % len(values)]
    raise AssertionError(kind)


def fields(names, v):
    """The part of a view which a custom memoization key is made from."""
    out = []
    for c in names:
        out.append({"c": v[2], "l": v[1], "t": v[0], "i": v[7],
                    "n": tuple(sorted((a for _, a in v[3]), key=skey)), "o": tuple(a for _, a in v[3])}[c])
    return tuple(out)


class _Key(ntm.MemoizationKey):
    def __init__(self, names, ordered):
        self.names, self.ordered = names, ordered

    def to_key(self, ctx):
        return fields(self.names, view_of_ctx(ctx, self.ordered))


def perturbed(values, label, act, t, inp):
    return values[crc((label, act, t, inp)) % len(values)]


def turned(inc, t):
    """The rotation system which a topology rule of the style "rotate" gives its network at a timestep."""
    out = {}
    for k, label in enumerate(sorted(inc, key=skey)):
        near = sorted(inc[label], key=skey)
        cut = (t + k) % len(near) if near else 0
        out[label] = (tuple if (t + k) % 2 else list)(near[cut:] + near[:cut])
    return out


def choose_ops(scripts, t, acts, norm):
    return scripts[crc((t, acts_canon(acts), sorted(((repr(k), edges_canon(v[4])) for k, v in norm.items())))) % len(scripts)]


def decode(v):
    """Decodes the NumPy values in an argument."""
    if isinstance(v, tuple) and v and v[0] == "np":
        return np.array(v[1])
    if isinstance(v, dict):
        return {k: val(x) for k, x in v.items()}
    if isinstance(v, list):
        return [val(x) for x in v]
    return v


class Log:
    def __init__(self):
        self.rule = []
        self.topo = []
        self.pert = []
        self.inputs = []


# ---------------------------------------------------------------------------------------------- the real thing

def execute(case, hold=None):
    """Runs the real evolve(). Returns (list of (activities, normalized network)), the Log and the call's arguments."""
    log = Log()
    net = hold if hold is not None else build(ntm.Network, case["net"])
    ordered = case["net"].get("rot") is not None and (case.get("topo") or ("",))[0] != "new"
    kw = {}
    rule = case.get("rule")
    if rule is not None:
        def activity_rule(ctx):
            v = view_of_ctx(ctx, ordered)
            log.rule.append(v)
            if rule[0] == "plan":
                for a in rule[2].get((ctx.timestep, ctx.node_label), ()):
                    if a[0] == "add":
                        ctx.add_node(val(a[1]), dict(a[2]), a[3])
                    else:
                        ctx.remove_node(a[1])
            return val(next_value(rule, v))
        kw["activity_rule"] = activity_rule
    topo = case.get("topo")
    if topo is not None:
        style, scripts = topo

        def topology_rule(ctx):
            norm = norm_real(ctx.network)
            log.topo.append((ctx.timestep, acts_canon(ctx.activities), snap(norm)))
            if style == "same":
                return ctx.network
            n = ctx.network
            if style == "fresh":
                n = n.copy()
            elif style in ("new", "rotate"):
                n = ntm.Network()
                for label in norm:
                    n.add_node(label, **norm[label][0])
                for i, j, e in ctx.network.edges:
                    n.add_edge(i, j, **e)
            apply_ops(n, choose_ops(scripts, ctx.timestep, ctx.activities, norm))
            if style == "rotate":
                n.rotation_system = turned({label: list(n.in_edges(label)) for label in n.nodes}, ctx.timestep)
            return n
        kw["topology_rule"] = topology_rule
    pert = case.get("pert")
    if pert is not None:
        def perturbation(ctx):
            log.pert.append((ctx.timestep, ctx.node_label, ctx.node_activity, ctx.input))
            if pert[0] == "same":
                return ctx.node_activity
            return val(perturbed(pert, ctx.node_label, ctx.node_activity, ctx.timestep, ctx.input))
        kw["perturbation"] = perturbation
    if case.get("T") is not None:
        kw["timesteps"] = case["T"]
    inp = case.get("inp")
    if inp is not None:
        if inp[0] == "list":
            kw["input"] = [x for x in inp[1]]
        else:
            def input_fn(t, acts, network):
                log.inputs.append((t, acts_canon(acts), snap(norm_real(network))))
                if inp[0] == "fn":
                    return inp[1][t - 1] if t <= len(inp[1]) else None
                return crc((t, acts_canon(acts))) % inp[2] if t < inp[1] else None
            kw["input"] = input_fn
    if case.get("past") is not None:
        kw["past_conditions"] = [decode(p) for p in case["past"]]
    if case.get("init") is not None:
        kw["initial_conditions"] = decode(case["init"])
    opts = dict(case.get("opts", {}))
    if "update_order" in opts:
        opts["update_order"] = ORDERS[opts["update_order"]]
    if isinstance(opts.get("memoization_key"), str):
        opts["memoization_key"] = _Key(opts["memoization_key"], ordered)
    before = arguments(net, kw)
    traj = ntm.evolve(network=net, **kw, **opts)
    require(isinstance(traj, list), "evolve returned a %s", type(traj))
    out = []
    for s in traj:
        n = s.network
        out.append((s.activities, None if n is None else norm_real(n)))
    after = arguments(net, kw)
    if not mutates_caller(case):
        require(before == after, "the caller's arguments changed during the evolution: %s", diff(after, before))
    return out, log


def mutates_caller(case):
    return case.get("topo") is not None and case["topo"][0] == "inplace" and case.get("opts", {}).get("copy_network") is False


def arguments(net, kw):
    return [snap(norm_real(net)), canon(net.rotation_system)] + [canon_arg(kw.get(k)) for k in
                                                                  ("initial_conditions", "past_conditions", "input")]


def canon_arg(x):
    if isinstance(x, np.ndarray):
        return ("ndarray", x.tolist())
    if isinstance(x, list):
        return [canon_arg(v) for v in x]
    return canon(x) if not callable(x) else None


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "now %s, was %s" % (short(x, 300), short(y, 300))
    return ""


# ---------------------------------------------------------------------------------------------- the definition

def as_map(x):
    if x is None:
        return {}
    if isinstance(x, tuple) and x and x[0] == "np":
        x = np.array(x[1]).tolist()
    if isinstance(x, list):
        return {i: plain(v) for i, v in enumerate(x)}
    return dict(x)


def interpret(case):
    log = Log()
    net = build(RefNet, case["net"])
    ordered = net.rot is not None and (case.get("topo") or ("",))[0] != "new"
    opts = case.get("opts", {})
    order = opts.get("update_order", "AF")
    rule, topo, pert, inp = case.get("rule"), case.get("topo"), case.get("pert"), case.get("inp")
    acts = as_map(case.get("init"))
    if case.get("init") is not None and isinstance(case["init"], dict):
        acts = {k: val(v) for k, v in case["init"].items()}
    past = None
    if case.get("past"):
        past = [{k: val(v) for k, v in p.items()} if isinstance(p, dict) else
                dict(enumerate(np.array(p[1]) if isinstance(p, tuple) else [val(v) for v in p])) for p in case["past"]]
    out = [(acts, net.norm())]
    window = list(past) if past else None
    t = 1
    while True:
        if inp is None:
            if t >= case["T"]:
                break
            item = None
        elif inp[0] == "list":
            if t > len(inp[1]):
                break
            item = inp[1][t - 1]
        else:
            log.inputs.append((t, acts_canon(acts), snap(net.norm())))
            if inp[0] == "fn":
                item = inp[1][t - 1] if t <= len(inp[1]) else None
            else:
                item = crc((t, acts_canon(acts))) % inp[2] if t < inp[1] else None
            if item is None:
                break

        def G(net, acts):
            new, added, removed, perts = {}, [], [], []
            for label in net.attrs:
                inc = net.inc[label]
                labels = net.rot[label] if net.rot is not None else list(inc)
                node_in = None if item is None else item[label] if isinstance(item, (list, tuple, str, range)) else item
                v = view(t, label, acts[label], [(x, acts[x]) for x in labels], ordered, inc, acts, window, node_in)
                log.rule.append(v)
                value = plain(next_value(rule, v))
                gone = False
                if rule[0] == "plan":
                    for a in rule[2].get((t, label), ()):
                        if a[0] == "add":
                            added.append((plain(a[1]), a[2], a[3]))
                        else:
                            removed.append(a[1])
                            gone = gone or a[1] == label
                if gone:
                    continue
                if pert is not None:
                    perts.append((t, label, value, node_in))
                    if pert[0] != "same":
                        value = plain(perturbed(pert, label, value, t, node_in))
                new[label] = value
            for label in removed:
                new.pop(label, None)
            for state, links, label in added:
                new[label] = state
            log.pert.extend(p for p in perts if p[1] not in removed)
            return new, added, removed

        def F(net, acts):
            if topo is None:
                return net
            style, scripts = topo
            log.topo.append((t, acts_canon(acts), snap(net.norm())))
            n = net.copy()
            if case.get("rotation_lost"):  # see known_findings.json
                n.rot = None
            if style != "same":
                apply_ops(n, choose_ops(scripts, t, acts, net.norm()))
            if style in ("new", "rotate"):
                n.rot = turned(n.inc, t) if style == "rotate" else None
            return n

        if order == "AF":
            new, added, removed = ({}, [], []) if rule is None else G(net, acts)
            if added or removed:
                net = net.copy()
                for label in dict.fromkeys(removed):
                    net.remove_node(label)
                for state, links, label in added:
                    net.add_node(label, activity=state)
                    for target, e in links.items():
                        net.add_edge(label, target, **e)
            net = F(net, new)
        elif order == "TF":
            net = F(net, acts)
            new = {} if rule is None else G(net, acts)[0]
        else:
            old = net
            net = F(net, acts)
            new = {} if rule is None else G(old, acts)[0]
        if window:
            window = (window + [acts])[-len(window):]
        acts = new
        out.append((acts if rule is not None and opts.get("persist_activities", True) else None,
                    net.norm() if opts.get("persist_network", True) else None))
        t += 1
    return out, log


def by_step(views):
    out = collections.OrderedDict()
    for v in views:
        out.setdefault(v[0], []).append(repr(v))
    return {t: sorted(v) for t, v in out.items()}


def conform(case, rec=None, hold=None, compare_networks=True, compare_log=True):
    """Raises Violation unless the real evolve() does what the definition says."""
    want, wlog = interpret(case)
    got, glog = execute(case, hold)
    require(len(got) == len(want), "the trajectory has %d states, expected %d", len(got), len(want))
    if compare_log:
        ts = [v[0] for v in glog.rule]
        require(ts == sorted(ts), "the activity rule saw the timesteps %s", ts)
        a, b = by_step(glog.rule), by_step(wlog.rule)
        for t in sorted(set(a) | set(b)):
            if a.get(t) != b.get(t):
                x, y = a.get(t, []), b.get(t, [])
                raise Violation("t=%s: the activity rule saw %s, expected %s" % (
                    t, short([v for v in x if v not in y]), short([v for v in y if v not in x])))
            require(len(x := a[t]) == len(b[t]), "t=%s: the activity rule was invoked %d times, expected %d", t, len(x), len(b[t]))
    removed = {a[1] for v in (case["rule"][2].values() if case.get("rule") and case["rule"][0] == "plan" else ())
               for a in v if a[0] == "rm"}
    gp = [p for p in glog.pert if p[1] not in removed]
    wp = [p for p in wlog.pert if p[1] not in removed]
    require(sorted(map(repr, gp)) == sorted(map(repr, wp)), "the perturbation saw %s, expected %s", short(gp), short(wp))
    require(repr(glog.topo) == repr(wlog.topo), "the topology rule saw %s, expected %s", short(glog.topo), short(wlog.topo))
    require(repr(glog.inputs) == repr(wlog.inputs), "the input function saw %s, expected %s", short(glog.inputs),
            short(wlog.inputs))
    for t, ((ga, gn), (wa, wn)) in enumerate(zip(got, want)):
        if not eq(ga, wa):
            raise Violation("t=%d: the activities are %s, expected %s" % (t, short(ga), short(wa)))
        if compare_networks and gn != wn or (gn is not None and compare_networks and snap(gn) != snap(wn)):
            raise Violation("t=%d: the network is %s, expected %s" % (t, short(gn), short(wn)))
    if rec is not None:
        rec.trace()
        rec.step(len(wlog.rule) + len(wlog.topo))
        for a, n in want:
            rec.state(repr(acts_canon(a)), 0 if n is None else hash(repr(snap(n))))
        rec.outcome(repr([acts_canon(a) for a, _ in want]))
    return got

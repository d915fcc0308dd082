"""
Turtle graphics. For all sequences of commands up to a length (moves, turns, pushes, pops, from several starts): the position, orientation,
distance and the segments drawn must be those of plane geometry, with pushes and pops nested; the returned position must be the current
one. For all strings up to a length: rendering an L-system must perform exactly the instructions bound to each symbol, in order, once,
whether bound as a function, as a function with arguments, or as a list of those, and then show (or animate) that turtle.
"""
import itertools
import math

from mc.engine import Violation, require, same
from mc.target import ntm

COMMANDS = [("forward",), ("forward", 2.5), ("forward", -1), ("forward", 0), ("rotate", 90), ("rotate", -30), ("push",), ("pop",)]
STARTS = [{}, {"start_x": 1.5, "start_y": -2, "start_orientation": 45}, {"start_x": -3}, {"start_y": 4}, {"start_orientation": 180}]


def cases(tier):
    deep = tier == "thorough"
    for first in range(len(COMMANDS)):
        for second in range(len(COMMANDS)):
            yield {"prefix": (first, second), "depth": 5 if deep else 4}
    for n in (1, 3, 4, 5, 6, 8, 36, 360):
        yield {"polygon": n}
    for n in range(1, 6 if deep else 5):
        for first in "FG+-[]0":
            yield {"render": n, "first": first}
    yield {"system": True}
    for deepest in (20, 60, 130) + ((400,) if deep else ()):
        yield {"nested": deepest}


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def walk(start, commands, t, rec):
    """Runs the commands on both; returns False when a pop is refused."""
    x, y, o = start.get("start_x", 0), start.get("start_y", 0), start.get("start_orientation", 0)
    stack, lines = [], []
    for c in commands:
        if c[0] == "pop" and not stack:
            try:
                t.pop()
            except Exception:
                return False
            raise Violation("a pop without a push was accepted, in %s" % (commands,))
        getattr(t, c[0])(*c[1:])
        if c[0] == "forward":
            d = c[1] if len(c) > 1 else 1
            nx, ny = x + d * math.sin(math.radians(o)), y + d * math.cos(math.radians(o))
            lines.append((x, nx, y, ny))
            x, y = nx, ny
        elif c[0] == "rotate":
            o += c[1]
        elif c[0] == "push":
            stack.append((x, y, o))
        else:
            x, y, o = stack.pop()
        require(close(t.pos[0], x) and close(t.pos[1], y), "at %s, expected %s, after %s", t.pos, (x, y), commands)
        require(close(t.x, x) and close(t.y, y), "at %s, expected %s, after %s", (t.x, t.y), (x, y), commands)
        require(close((t.orientation - o) % 360, 0) or close((t.orientation - o) % 360, 360), "oriented to %s, expected %s, after %s",
                t.orientation, o, commands)
        require(close(t.abs, math.hypot(x, y)), "at a distance of %s, expected %s, after %s", t.abs, math.hypot(x, y), commands)
        rec.step()
    require(len(t.trajectory) == len(lines), "%d lines, expected %d, after %s", len(t.trajectory), len(lines), commands)
    for (xs, ys), want in zip(t.trajectory, lines):
        require(len(xs) == len(ys) == 2 and all(close(a, b) for a, b in zip(tuple(xs) + tuple(ys), want)),
                "the lines are %s, expected %s, after %s", t.trajectory, lines, commands)
    rec.state(round(x, 9), round(y, 9), o % 360, len(stack))
    rec.outcome(len(lines), round(x, 9), round(y, 9))
    return True


class Recorder(ntm.Turtle):
    def __init__(self):
        super().__init__()
        self.did = []

    def plot(self, *a, **kw):
        self.did.append(("plot", a, kw))

    def animate(self, *a, **kw):
        self.did.append(("animate", a, kw))


def bindings(t, log):
    def say(*a):
        log.append(a)

    def do(name, *a):
        log.append((name,) + a)
        getattr(t, name)(*a)
    return {
        "F": t.forward, "G": (do, "forward", 2), "+": (t.rotate, 25), "-": [(do, "rotate", -25)], "[": [t.push, (do, "rotate", 45)],
        "]": [t.pop, (say, "back", 1, (2,), [3], None), (do, "rotate", -45)], "0": [],
    }


EXPAND = {"F": [("forward",)], "G": [("forward", 2)], "+": [("rotate", 25)], "-": [("rotate", -25)], "[": [("push",), ("rotate", 45)],
          "]": [("pop",), ("rotate", -45)], "0": []}
LOG = {"G": [("forward", 2)], "-": [("rotate", -25)], "[": [("rotate", 45)], "]": [("back", 1, (2,), [3], None), ("rotate", -45)]}


def render(word, state, rec):
    depth = 0
    for c in word:
        depth += {"[": 1, "]": -1}.get(c, 0)
        if depth < 0:
            return
    for kind in ("plot", "animate"):
        t, log = Recorder(), []
        kw = {"marker": "o"} if kind == "plot" else {"interval": 3, "repeat": True}
        getattr(ntm, kind + "_L_system")(state, t, bindings(t, log), **kw)
        same(t.did, [(kind, (), kw)], "what was done with the turtle of %s", word)
        same(log, [x for c in word for x in LOG.get(c, [])], "the instructions of %s", word)
        ref = ntm.Turtle()
        walk({}, [x for c in word for x in EXPAND[c]], ref, rec)
        require(len(ref.trajectory) == len(t.trajectory) and
                all(close(a, b) for p, q in zip(ref.trajectory, t.trajectory) for a, b in zip(tuple(p[0]) + tuple(p[1]), tuple(q[0]) + tuple(q[1]))),
                "%s draws %s, expected %s", word, t.trajectory, ref.trajectory)
        require(close(ref.pos[0], t.pos[0]) and close(ref.pos[1], t.pos[1]), "%s ends at %s, expected %s", word, t.pos, ref.pos)
    rec.trace()


def run(case, rec):
    rec.trace()
    if "prefix" in case:
        prefix = [COMMANDS[i] for i in case["prefix"]]
        for n in range(case["depth"] + 1):
            for i, rest in enumerate(itertools.product(COMMANDS, repeat=n)):
                start = STARTS[(i + n) % len(STARTS)]
                walk(start, prefix + list(rest), ntm.Turtle(**start), rec)
                rec.trace()
    elif "polygon" in case:
        n = case["polygon"]
        t = ntm.Turtle()
        walk({}, [("forward", 10), ("rotate", 360 / n)] * n if n > 1 else [("forward", 10)], t, rec)
        if n > 1:
            require(t.abs < 1e-9, "the polygon of %d sides isn't closed: %s", n, t.pos)
    elif "nested" in case:
        n = case["nested"]
        for leaf, down, up in ((("forward",), ("rotate", 17), ("forward", 0.5)), (("rotate", -5), ("forward", 2), ("rotate", 190)),
                               (("forward", -1), ("forward", 1000), ("forward", 1e-3))):
            into, back = [("push",), down, leaf], [leaf, ("pop",), up]
            for k in (1, 2, n // 2, n):
                for commands in (into * n + back * n, into * n + back * k + into * k + back * n, (into * k + back * k) * 3, into * n + back * k,
                                 ([leaf, down] * 5 + into + back) * n):
                    walk(STARTS[k % len(STARTS)], commands, ntm.Turtle(**STARTS[k % len(STARTS)]), rec)
                    rec.trace()
        net = ntm.Network()
        for word in ("[F+" * n + "G-]" * n, "[F]+" * n + "G0" * n, "F" * n + "[" * n + "-F]" * (n // 2) + "+[G" * 3, "F-+" * 4 * n):
            render(word, ntm.State(activities=dict(enumerate(word)), network=net), rec)
    elif "render" in case:
        net = ntm.Network()
        for rest in itertools.product("FG+-[]0", repeat=case["render"] - 1):
            word = case["first"] + "".join(rest)
            render(word, ntm.State(activities=dict(enumerate(word)), network=net), rec)
    else:
        for axiom, rules in (("F", {"F": "F+F-G", "G": "[G]F"}), ("G", {"F": "FF", "G": "F[+G][-G]0"}), ("F+G", {"F": "", "G": "GG"})):
            sub = ntm.SubstitutionSystem(axiom, rules, constants=["+", "-", "[", "]", "0"])
            traj = ntm.evolve(network=sub.network, initial_conditions=sub.initial_conditions, activity_rule=sub.activity_rule, timesteps=4)
            word = axiom
            for s in traj:
                render(word, s, rec)
                word = "".join(rules.get(c, c) for c in word)

"""
Turing machines. For all 20736 machines with two head states and two symbols (and machines with further states and symbols, among them
partial ones): both the tape-centric machine (on rings) and the head-centric machine must perform exactly the computation of the textbook
machine, step by step: what is written, where the head is, its state, that the tape wraps around, when it halts (in its terminating
state, or after the number of timesteps given), what is reported for plotting; a missing rule must be refused, exactly when it is needed. A tape-centric
machine must do so for one tape after another.
"""
import itertools

from mc.engine import Violation, require, same
from mc.target import ntm

TM = ntm.TuringMachine
DIRS = (TM.LEFT, TM.STAY, TM.RIGHT)
MOVE = {TM.LEFT: -1, TM.STAY: 0, TM.RIGHT: 1}
OPTIONS = list(itertools.product((0, 1), (0, 1), DIRS))
NAMED = {
    # binary counter over a delimited tape, and a^n b^n c^n (of the demonstrations)
    "counter": ({"inc": {"1": ("inc", "0", TM.LEFT), "0": ("back", "1", TM.RIGHT), "#": ("back", "#", TM.RIGHT)},
                 "back": {"0": ("back", "0", TM.RIGHT), "1": ("back", "1", TM.RIGHT), "#": ("inc", "#", TM.LEFT)}},
                ["#", "0", "0", "0", "0"], "inc", 4),
    "pairs": ({("q", 0): {(0, 1): [("q", 1), (1, 0), TM.RIGHT], (1, 0): [("q", 0), (1, 0), TM.LEFT]},
               ("q", 1): {(0, 1): [("q", 1), (0, 1), TM.STAY], (1, 0): [("q", 0), (0, 1), TM.RIGHT]}},
              [(0, 1), (0, 1), (1, 0), (0, 1)], ("q", 0), 1),
    "halves": ({0: {0: (1, 0.5, 2), 0.5: (0, "x", 0), "x": (1, None, 2), None: (0, 0, 2)},
                1: {0: (0, "x", 1), 0.5: (1, 0.5, 2), "x": (0, 0.5, 0), None: (1, None, 0)}},
               [0, 0.5, "x", None, 0, 0], 0, 0),
    "falsy": ({"": {0: (0, "", 2), "": (False, 0, 2), False: ("", 0, 0)}, 0: {0: ("", "", 2), "": (None, 0, 0)},
               None: {0: ("", "", 1), "": ((), 0, 2)}, (): {0: (0, 0, 2), "": ("", 0, 0)}}, [0, "", 0, 0, ""], "", 1),
    "beaver": ({"A": {0: ("B", 1, TM.RIGHT), 1: ("C", 1, TM.LEFT)}, "B": {0: ("A", 1, TM.LEFT), 1: ("B", 1, TM.RIGHT)},
                "C": {0: ("B", 1, TM.LEFT), 1: ("H", 1, TM.RIGHT)}, "H": {}}, [0] * 9, "A", 4),
}


def cases(tier):
    deep = tier == "thorough"
    for a in range(12):
        for b in range(12):
            yield {"first": a, "second": b, "deep": deep}
    for name in sorted(NAMED):
        yield {"named": name}
    for T in (100, 130, 257, 300, 520):
        yield {"far": T}
    for present in range(16):
        yield {"partial": present}
    for a in range(12):
        yield {"again": a, "deep": deep}
    yield {"refuse": True}


def step(table, config):
    tape, state, pos = config
    new_state, write, way = table[state][tape[pos]]
    return tape[:pos] + [write] + tape[pos + 1:], new_state, (pos + MOVE[way]) % len(tape)


def compute(table, tape, state, pos, T, end=None):
    """The configurations, up to T of them, or to the one in the terminating state."""
    out = [(list(tape), state, pos)]
    while len(out) < T and not (end is not None and len(out) > 1 and out[-1][1] == end):
        out.append(step(table, out[-1]))
    return out


def heads(want):
    out = [[None] * len(tape) for tape, _, _ in want]
    for row, (_, state, pos) in zip(out, want):
        row[pos] = str(state)
    return out


def run_tape(table, tape, state, pos, T, tm=None):
    tm = tm or ntm.TapeCentricTuringMachine(n=len(tape), rule_table=table, initial_head_state=state, initial_head_position=pos)
    traj = ntm.evolve(network=tm.network, initial_conditions=list(tape), activity_rule=tm.activity_rule, timesteps=T)
    return tm, traj


def tape_centric(table, tape, state, pos, T, rec, tm=None):
    want = compute(table, tape, state, pos, T)
    tm, traj = run_tape(table, tape, state, pos, T, tm)
    got = [[s.activities[c] for c in range(len(tape))] for s in traj]
    same(got, [w[0] for w in want], "the tapes of %s, from %s in state %s at %s", table, tape, state, pos)
    same(tm.head_activities(traj), heads(want), "the head of %s, from %s in state %s at %s", table, tape, state, pos)
    note(want, rec)
    return tm


def run_head(given, table, state, pos, T, end):
    tm = ntm.HeadCentricTuringMachine(tape=given, rule_table=table, initial_head_state=state, initial_head_position=pos,
                                      terminating_state=end, max_timesteps=T)
    traj = ntm.evolve(initial_conditions=tm.initial_conditions, network=tm.network, activity_rule=tm.activity_rule,
                      input=tm.input_function)
    return tm, traj


def head_centric(table, tape, state, pos, T, end, rec):
    want = compute(table, tape, state, pos, T or 400, end)
    given = list(tape)
    tm, traj = run_head(given, table, state, pos, T, end)
    what = "%s from %s in state %s at %s (terminating state %s, up to %s timesteps)" % (table, tape, state, pos, end, T)
    same([s.activities for s in traj], [{0: (w[1], w[2])} for w in want], "the head of %s", what)
    tapes, ann = tm.activities_for_plotting(traj)
    same([list(t) for t in tapes], [w[0] for w in want], "the tapes of %s", what)
    same(ann, heads(want), "the annotations of %s", what)
    same(given, list(tape), "the tape given to %s", what)
    note(want, rec)


def note(want, rec):
    for tape, state, pos in want:
        rec.state(tuple(tape), state, pos)
    rec.step(len(want) - 1)
    rec.outcome(tuple(want[-1][0]), want[-1][1], want[-1][2])


def refuse(f, what):
    try:
        f()
    except Exception:
        return
    raise Violation("not refused: %s" % (what,))


def run(case, rec):
    rec.trace()
    if "first" in case:
        for k, (c, d) in enumerate(itertools.product(range(12), repeat=2)):
            table = {0: {0: OPTIONS[case["first"]], 1: OPTIONS[case["second"]]}, 1: {0: OPTIONS[c], 1: OPTIONS[d]}}
            n = 3 + k % 3
            tapes = list(itertools.product((0, 1), repeat=n))
            starts = itertools.product(tapes, (0, 1), range(n)) if case["deep"] else [
                (tapes[(k * 5 + case["first"]) % len(tapes)], k % 2, (k // 2 + case["second"]) % n)]
            for i, (tape, state, pos) in enumerate(starts):
                if i % 3 == 0:
                    tape_centric(table, tape, state, pos, 8, rec)
                if i % 3 == 0 or case["deep"]:
                    end = (None, 1 - state)[(i + k // 7) % 2]
                    head_centric(table, tape, state, pos, 1 + (i + k) % 9, end, rec)
                rec.trace()
    elif "named" in case:
        table, tape, state, pos = NAMED[case["named"]]
        for T in (1, 2, 3, 10, 13):
            for at in range(len(tape)):
                head_centric(table, tape, state, at, T, "H" if case["named"] == "beaver" else None, rec)
                if case["named"] != "beaver" or T < 5:
                    tape_centric(table, tape, state, at, T, rec)
        if case["named"] == "beaver":
            for at in range(len(tape)):
                head_centric(table, tape, state, at, None, "H", rec)
        elif case["named"] == "counter":
            head_centric(table, tape, state, pos, 120, None, rec)
            tape_centric(table, tape, state, pos, 120, rec)
    elif "partial" in case:
        for opts in itertools.product((OPTIONS[0], OPTIONS[5], OPTIONS[8], OPTIONS[10]), repeat=2):
            full = {q: {s: opts[(q + s) % 2] for s in (0, 1)} for q in (0, 1)}
            table = {q: {s: full[q][s] for s in (0, 1) if case["partial"] >> (2 * q + s) & 1} for q in (0, 1)}
            for tape in itertools.product((0, 1), repeat=3):
                for pos in range(3):
                    try:
                        compute(table, tape, 0, pos, 6)
                        needed = False
                    except KeyError:
                        needed = True
                    if needed:
                        refuse(lambda: run_tape(table, tape, 0, pos, 6), "%s on %s" % (table, tape))
                        refuse(lambda: run_head(list(tape), table, 0, pos, 6, None), "%s on %s" % (table, tape))
                    else:
                        tape_centric(table, tape, 0, pos, 6, rec)
                        head_centric(table, tape, 0, pos, 6, None, rec)
                    rec.trace()
    elif "far" in case:
        # long computations, long tapes, and a shorter computation after it
        for name, n in (("counter", 12), ("halves", 40), ("pairs", 4), ("counter", 140), ("halves", 300)):
            table, tape, state, _ = NAMED[name]
            tape = (list(tape) * n)[:n]
            for pos in (0, n // 2, n - 1):
                tm = tape_centric(table, tape, state, pos, case["far"], rec)
                tape_centric(table, tape, state, pos, case["far"] // 2, rec, tm)
                tape_centric(table, tape[::-1] if name == "halves" else tape, state, pos, case["far"] + 3, rec, tm)
                head_centric(table, tape, state, pos, case["far"], None, rec)
                rec.trace()
    elif "again" in case:
        # one machine, several tapes, one after another
        for b, c in itertools.product(range(12), repeat=2):
            table = {0: {0: OPTIONS[case["again"]], 1: OPTIONS[b]}, 1: {0: OPTIONS[c], 1: OPTIONS[(b + c) % 12]}}
            tapes = list(itertools.product((0, 1), repeat=3))
            for i, Ts in enumerate(itertools.product((1, 2, 3, 5), repeat=3)):
                if case["deep"] or (i + b) % 8 == c % 8:
                    tm = None
                    for k, T in enumerate(Ts):
                        tm = tape_centric(table, tapes[(i + 3 * k + b) % 8], c % 2, b % 3, T, rec, tm)
                    rec.trace()
    else:
        refuse(lambda: ntm.HeadCentricTuringMachine([0], {0: {0: (0, 0, 1)}}, 0, 0), "neither a terminating state nor a number of timesteps")
        table = {0: {0: (0, 0, 7)}}
        refuse(lambda: run_head([0, 0], table, 0, 0, 5, None), "an unknown direction")
        same((TM.LEFT, TM.STAY, TM.RIGHT), (0, 1, 2), "the directions")

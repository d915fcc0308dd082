"""
Plots and animations. For all combinations of the options of the bound, and all the frames of each animation: what Matplotlib is left to
show must be exactly the given evolution: each activity in its place, the chosen timestep, all frames in order, over and over, with their
timestep; every node and connection of the network of the timestep, with its layout, label and colour; every series, limit and label; the
points of Poincare and bifurcation plots; the counts of the degrees; hexagons in rows shifted by half; turtle lines; positions; web pages.
"""
import contextlib
import itertools
import math
import os
import re
import tempfile

import matplotlib
matplotlib.use("Agg")
import matplotlib.animation  # noqa: E402
import matplotlib.colors  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402

from mc import spaces  # noqa: E402
from mc.engine import Violation, require, same  # noqa: E402
from mc.refevolve import build  # noqa: E402
from mc.target import ntm  # noqa: E402


def cases(tier):
    deep = tier == "thorough"
    for rows, cols in ((1, 1), (2, 3), (3, 2), (4, 4), (1, 5), (12, 15), (40, 7), (1, 101)):
        for form in ("list", "array", "trajectory"):
            for opts in range(8):
                yield {"grid": (rows, cols), "form": form, "opts": opts}
    for T, shape in itertools.product((1, 2, 3, 5), ((1, 4), (2, 2), (2, 3), (3, 2))):
        for form in ("list", "trajectory"):
            yield {"sliced": T, "shape": shape, "form": form}
    for T, shape in ((30, (5, 6)), (12, (11, 4)), (60, (1, 3))):
        for form in ("list", "trajectory"):
            yield {"sliced": T, "shape": shape, "form": form}
            yield {"film": T, "shape": shape, "form": form, "opts": 3}
            yield {"film": T, "shape": (shape[0] * shape[1],), "form": form, "opts": 1}
            yield {"line": T, "form": form}
    yield {"film": 130, "shape": (2, 3), "form": "list", "opts": 3}
    yield {"film": 260, "shape": (1, 2), "form": "trajectory", "opts": 1}
    yield {"line": 130, "form": "list"}
    for count in (1, 2, 3, 4, 11):
        yield {"several": count}
    for T, shape in itertools.product((1, 2, 3, 4, 7), ((1, 1), (2, 3), (3, 2), (4,), (1,))):
        for form in ("list", "trajectory"):
            for opts in range(4):
                yield {"film": T, "shape": shape, "form": form, "opts": opts}
    for T in (1, 2, 3, 6):
        for form in ("list", "trajectory"):
            yield {"line": T, "form": form}
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for part in range(8):
            yield {"networks": n, "part": part}
    for n in (9, 12):
        for part in range(8):
            yield {"networks": n, "part": part}
    for edges in list(spaces.digraphs(2)) + [e for i, e in enumerate(spaces.digraphs(3)) if deep or i % 9 == 0]:
        yield {"degrees": edges}
    for shape in sorted(spaces.shapes(6)):
        yield {"degrees": spaces.shapes(6)[shape], "n": 6}
    for n in (12, 20, 30):
        for shape in sorted(spaces.shapes(n)):
            yield {"degrees": spaces.shapes(n)[shape], "n": n}
    for opts in itertools.product((0, 1), repeat=7):
        yield {"series": opts}
    for n, m in itertools.product((1, 2, 3), (2, 3, 4, 6, 7, 8, 12)):
        yield {"chaos": n, "timesteps": m}
        yield {"chaos": n, "timesteps": m, "near": True}
    for label, color, legend in itertools.product(("words", "numbers", 0, 5, "one"), (None, "one", "each"), ("dict", "list", "tuple x")):
        yield {"labels": label, "color": color, "legend": legend}
    for rows, cols in ((1, 1), (2, 2), (3, 2), (2, 5), (5, 3), (4, 4)):
        for T in (1, 2, 4):
            yield {"hex": (rows, cols), "T": T}
    for rows, cols, T in ((9, 12, 2), (12, 9, 2), (2, 3, 14), (11, 2, 2), (13, 3, 1), (21, 4, 1), (3, 11, 11)):
        yield {"hex": (rows, cols), "T": T}
    for k in range(4):
        yield {"turtles": k}
    for a, b in list(itertools.product(range(0, 6), repeat=2)) + [(11, 3), (3, 11), (30, 40), (101, 2)]:
        yield {"positions": (a, b)}
    yield {"pages": True}
    yield {"files": True}
    yield {"tour": True}


@contextlib.contextmanager
def stage():
    """Shows nothing; records the animations, and what is handed to the drawing of networks."""
    from networkx.drawing import nx_pylab
    films, drawn, shown = [], [], []

    Film = matplotlib.animation.FuncAnimation

    def made(self, fig, func, frames=None, **kw):
        self.fig, self.func, self.kw, self.saved = fig, func, kw, []
        self.frames = range(frames) if isinstance(frames, int) else frames
        films.append(self)

    def play(self, n):
        """Shows n frames, the first again after the last; yields after each."""
        source = itertools.count() if self.frames is None else itertools.cycle(list(self.frames))
        for frame in itertools.islice(source, n):
            yield self.func(frame)

    def save(self, *a, **kw):
        self.saved.append((a, kw))

    def draw_networkx(G, pos=None, ax=None, arrows=True, with_labels=True, **kw):
        drawn.append((G, pos, dict(kw, arrows=arrows, with_labels=with_labels)))

    Film.play = play
    saved = [(Film, "__init__", made), (Film, "save", save), (nx_pylab, "draw_networkx", draw_networkx), (nx, "draw_networkx", draw_networkx),
             (nx_pylab, "draw", draw_networkx), (nx, "draw", draw_networkx),
             (plt, "show", lambda *a, **kw: shown.append(True))]
    saved = [(m, k, getattr(m, k), v) for m, k, v in saved]
    plt.close("all")
    try:
        for m, k, _, v in saved:
            setattr(m, k, v)
        yield films, drawn, shown
    finally:
        for m, k, old, _ in saved:
            setattr(m, k, old)
        del Film.play
        plt.close("all")


def table(rows, cols, seed=1):
    return [[(r * 7 + c * 3 + seed * r * c + seed) % 11 for c in range(cols)] for r in range(rows)]


def formed(form, rows):
    if form == "array":
        return np.array(rows)
    if form == "trajectory":
        # the nodes aren't in the order of their labels
        names = sorted(range(len(rows[0])), key=lambda i: (i % 3, -i))
        net = ntm.topology.disconnected(names)
        return ntm.evolve(net, {i: rows[0][i] for i in names}, lambda ctx: rows[ctx.timestep][ctx.node_label], timesteps=len(rows))
    return rows


def image(ax, want, what, *args):
    require(len(ax.images) == 1, "%s: there are %d images" % (what % args, len(ax.images)))
    got = np.asarray(ax.images[0].get_array()).tolist()
    require(got == want, "%s: shows %s, expected %s" % (what % args, got, want))


def run(case, rec):
    rec.trace()
    for name, f in (("grid", grid), ("sliced", sliced), ("several", several), ("film", film), ("line", line), ("networks", networks),
                    ("degrees", degrees), ("series", series), ("chaos", chaos), ("hex", hexes), ("turtles", turtles),
                    ("positions", positions), ("pages", pages), ("files", files), ("tour", tour), ("labels", labelled)):
        if name in case:
            rec.state(repr(case))
            rec.step()
            f(case, rec)
            return
    raise AssertionError("no check for %s" % sorted(case))


def grid(case, rec):
    rows, cols = case["grid"]
    want = table(rows, cols)
    kw = {}
    if case["opts"] & 1:
        kw.update(title="a title", colormap="jet", vmin=-1, vmax=20)
    if case["opts"] & 2:
        kw["node_annotations"] = [[(0 if (r, c) == (0, 0) else 0.5 if c == 2 else "%d/%d" % (r, c)) if (r + c) % 2 or c == r else None for c in range(cols)] for r in range(rows)]
    if case["opts"] & 4:
        kw["show_grid"] = True
    given = formed(case["form"], want)
    for f in (ntm.plot_activities,) if case["form"] == "trajectory" else (ntm.plot_activities, ntm.plot_grid):
        with stage() as (films, drawn, shown):
            f(given, **kw)
            ax = plt.gca()
            image(ax, want, "%s of %s with %s", f.__name__, want, kw)
            require(len(shown) == 1, "%s was shown %d times", f.__name__, len(shown))
            require(ax.get_title() == kw.get("title", ""), "the title is %r", ax.get_title())
            require(ax.images[0].get_cmap().name == kw.get("colormap", "Greys"), "the colours are %s", ax.images[0].get_cmap().name)
            lo, hi = ax.images[0].get_clim()
            flat = [x for row in want for x in row]
            require((lo, hi) == ((-1, 20) if "vmin" in kw else (min(flat), max(flat))), "the colours range from %s to %s", lo, hi)
            texts = {(t.get_position(), t.get_text()) for t in ax.texts if t.get_text() not in ("", "None")}
            marks = {((c, r), str(a)) for r, row in enumerate(kw.get("node_annotations", ())) for c, a in enumerate(row) if a is not None}
            require(texts == marks, "the annotations are %s, expected %s", texts, marks)
    if case["form"] != "trajectory":
        for f in (ntm.plot_activities, ntm.animate_activities):
            try:
                with stage():
                    f([])
            except Exception:
                continue
            raise Violation("%s shows nothing at all" % f.__name__)


def sliced(case, rec):
    T, (h, w) = case["sliced"], case["shape"]
    rows = table(T, h * w)
    frames = [[row[r * w:(r + 1) * w] for r in range(h)] for row in rows]
    for k in list(range(T)) + [-1, -T]:
        fs = [ntm.plot_activities] + ([ntm.plot_grid] if case["form"] == "list" else [])
        for f in fs:
            with stage():
                f(formed(case["form"], rows), shape=(h, w), slice=k)
                image(plt.gca(), frames[k], "%s with slice %d", f.__name__, k)
            rec.step()
    with stage():
        ntm.plot_activities(formed(case["form"], rows), shape=(h, w))
        image(plt.gca(), frames[-1], "the last timestep")
    if case["form"] == "trajectory":
        return
    with stage():
        ntm.plot_grid_multiple([rows, rows[::-1]], shape=(h, w), slice=0)
        for i, k in ((0, 0), (1, T - 1)):
            image(plt.figure(i).gca(), frames[k], "the first timestep, of plot %d", i)


def several(case, rec):
    n = case["several"]
    tables = [table(2 + i % 2, 3, i + 1) for i in range(n)]
    titles = ["title %d" % i for i in range(n)]
    for kw in ({}, {"titles": titles}, {"titles": titles, "colormap": "jet", "vmin": -3, "vmax": 30}):
        with stage() as (films, drawn, shown):
            ntm.plot_grid_multiple(tables, **kw)
            require(len(plt.get_fignums()) == n and len(shown) == 1, "%d figures, shown %d times", len(plt.get_fignums()), len(shown))
            for i, fig in enumerate(plt.get_fignums()):
                ax = plt.figure(fig).gca()
                image(ax, tables[i], "plot %d", i)
                require(ax.get_title() == (titles[i] if "titles" in kw else ""), "the title of plot %d is %r", i, ax.get_title())
                require("vmin" not in kw or (ax.images[0].get_clim() == (-3, 30) and ax.images[0].get_cmap().name == "jet"), "the colours")


def film(case, rec):
    T, shape = case["film"], case["shape"]
    size = int(np.prod(shape))
    rows = [[(t * 5 + c * 2 + t * c) % 9 + 10 * t for c in range(size)] for t in range(T)]
    if len(shape) == 2:
        frames = [[row[r * shape[1]:(r + 1) * shape[1]] for r in range(shape[0])] for row in rows]
    else:
        frames = [rows[:t + 1] + [[0] * size] * (T - t - 1) for t in range(T)]
    kw = {"shape": shape}
    if case["opts"] & 1:
        kw.update(with_timestep=True, show_grid=True)
    if case["opts"] & 2:
        kw.update(title="started", vmin=0, vmax=50, colormap="jet", show_margin=False, interval=7, blit=False)
    with stage() as (films, drawn, shown):
        ntm.animate_activities(formed(case["form"], rows), **kw)
        require(len(films) == 1 and len(shown) == 1, "%d animations, shown %d times", len(films), len(shown))
        ax = films[0].fig.axes[0]
        image(ax, frames[0], "before the animation")
        require(ax.get_title() == kw.get("title", ""), "the title is %r", ax.get_title())
        if "vmin" in kw:
            require(ax.images[0].get_clim() == (0, 50) and ax.images[0].get_cmap().name == "jet", "the colours")
            require(films[0].kw.get("interval") == 7 and not films[0].kw.get("blit"), "the options of the animation are %s", films[0].kw)
        at = None
        for _ in films[0].play(2 * T + 2):
            shot = np.asarray(ax.images[0].get_array()).tolist()
            now = [i for i in range(T) if frames[i] == shot]
            require(now, "the animation shows %s, which is none of the timesteps", shot)
            require(at is None or now[0] == (at + 1) % T, "timestep %s is shown after %s, of %d", now[0], at, T)
            at = now[0]
            if "with_timestep" in kw:
                require(ax.get_title() == "timestep: %d" % (at + 1), "the title is %r at timestep %d", ax.get_title(), at)
            rec.step()
            rec.state("film", T, shape, at)


def line(case, rec):
    T = case["line"]
    rows = table(T, 4)
    x = [3, 1, 4, 8]
    with stage() as (films, drawn, shown):
        ntm.animate_plot1D(x, formed(case["form"], rows), interval=9)
        require(len(films) == 1 and films[0].kw.get("interval") == 9, "the animation")
        ln = films[0].fig.axes[0].lines[0]
        require(ln.get_ydata().tolist() == rows[0] and ln.get_xdata().tolist() == x, "before the animation: %s", ln.get_ydata())
        for k, _ in enumerate(films[0].play(2 * T)):
            require(list(ln.get_ydata()) == rows[k % T] and list(ln.get_xdata()) == x, "frame %d: %s, expected %s", k, ln.get_ydata(), rows[k % T])
            rec.step()


LAYOUTS = {"shell": nx.shell_layout, "spring": None, "planar": nx.planar_layout, "kamada-kawai": nx.kamada_kawai_layout}


def pictured(got, net, pos, kw, what):
    G, where, opts = got
    require(list(sorted(G.nodes, key=repr)) == sorted(net.nodes, key=repr), "%s: the nodes are %s, expected %s", what, list(G.nodes), net.nodes)
    drawn, want = sorted(map(repr, G.edges())), sorted(repr((a, b)) for a, b, _ in net.edges)
    require(drawn == want, "%s: the connections are %s, expected %s", what, drawn, want)
    require(set(where) == set(net.nodes), "%s: there are positions for %s", what, list(where))
    if pos is not None:
        require(all(np.allclose(where[n], pos[n]) for n in net.nodes), "%s: the positions are %s, expected %s", what, where, pos)
    require(all(opts.get(k) == v for k, v in kw.items()), "%s: the options are %s, expected %s", what, opts, kw)


def networks(case, rec):
    n = case["networks"]
    graphs = [e for _, e in sorted(spaces.shapes(n).items())] if n > 4 else list(spaces.multidigraphs(2, 2)) if n == 2 else list(spaces.digraphs(n))[:: {1: 1, 3: 7, 4: 997}[n]]
    for k, edges in enumerate(graphs):
        if k % 8 != case["part"]:
            continue
        labels = ("int", "str", "one")[k % 3]
        net = build(ntm.Network, spaces.net(edges, n, labels))
        fixed = {x: (i, i * i) for i, x in enumerate(spaces.LABELS[labels](n))}
        G = net.to_networkx()
        for layout in ("shell", "spring", fixed):
            with stage() as (films, drawn, shown):
                ntm.plot_network(net, layout=layout, with_labels=bool(k % 2), node_color="c%d" % k, node_size=k)
                require(len(drawn) == 1 and len(shown) == 1, "drawn %d times, shown %d times", len(drawn), len(shown))
                pos = layout if layout is fixed else nx.shell_layout(G) if layout == "shell" else None
                pictured(drawn[0], net, pos, {"with_labels": bool(k % 2), "node_color": "c%d" % k, "node_size": k}, "plot_network (%s)" % (layout,))
            rec.step()
        if k % 7 == 0 or n > 4:
            walked(net, edges, n, k, labels, rec)
    for bad in ("circus", 5):
        try:
            with stage():
                ntm.plot_network(ntm.topology.complete(3), layout=bad)
        except Exception:
            pass
        else:
            raise Violation("the layout %s was accepted" % bad)
        try:
            with stage() as (films, drawn, shown):
                ntm.animate_network(formed("trajectory", table(2, 3)), layout=bad)
                list(films[0].play(1))
        except Exception:
            continue
        raise Violation("the layout %s was accepted for an animation" % bad)


def walked(net, edges, n, k, labels, rec):
    """An animated network, to which a node is added, and from which a connection is taken."""
    names = spaces.LABELS[labels](n)

    def rule(ctx):
        new = ctx.network.copy()
        if ctx.timestep % 2:
            new.add_edge("new%d" % ctx.timestep, names[0])
        elif list(new.edges):
            new.remove_edge(*list(new.edges)[0][:2])
        return new
    traj = ntm.evolve(network=net, topology_rule=rule, timesteps=4)
    for layout in sorted(LAYOUTS) + ["fixed", "each"]:
        if layout == "kamada-kawai" and n > 2:
            continue
        every = [{x: (i + t, -i) for i, x in enumerate(s.network.nodes)} for t, s in enumerate(traj)]
        given = every[-1] if layout == "fixed" else every if layout == "each" else layout
        if layout == "fixed":
            given = {x: (i, -i) for i, x in enumerate(names + ["new1", "new3"])}
        color = {t: "c%d" % t for t in range(4)} if k % 2 else "red"
        with stage() as (films, drawn, shown):
            try:
                out = ntm.animate_network(traj, layout=given, with_labels=bool(k % 3), node_color=color, node_size=7, with_timestep=True,
                                          with_arrows=bool(k % 4), show=False)
                require(len(films) == 1 and out is films[0] and not shown, "%d animations; shown %d times", len(films), len(shown))
                for t, _ in enumerate(films[0].play(6)):
                    t %= 4
                    want = traj[t].network
                    pos = None
                    if layout in ("shell", "planar"):
                        G = nx.MultiDiGraph()
                        G.add_nodes_from(want.nodes)
                        G.add_edges_from((a, b) for a, b, _ in want.edges)
                        pos = LAYOUTS[layout](G)
                    elif layout in ("fixed", "each"):
                        pos = given if layout == "fixed" else given[t]
                    got = drawn[-1]
                    if layout == "fixed":
                        got = (got[0], {x: p for x, p in got[1].items() if x in set(want.nodes)}, got[2])
                    pictured(got, want, pos, {"with_labels": bool(k % 3), "node_color": color[t] if k % 2 else color, "node_size": 7,
                                              "arrows": bool(k % 4)}, "frame %d of animate_network (%s)" % (t, layout))
                    require(films[0].fig.axes[0].get_title() == "timestep: %d" % (t + 1), "the title of frame %d is %r", t,
                            films[0].fig.axes[0].get_title())
                    rec.step()
            except nx.NetworkXException:
                pass
    with stage() as (films, drawn, shown):
        ntm.animate_network(traj)
        require(len(shown) == 1, "shown %d times", len(shown))


def degrees(case, rec):
    edges = case["degrees"]
    n = case.get("n") or (2 if all(max(e) < 2 for e in edges) and len(edges) <= 4 else 3)
    net = build(ntm.Network, spaces.net(edges, n))
    kinds = {"in": {x: sum(b == x for a, b in edges) for x in range(n)}, "out": {x: sum(a == x for a, b in edges) for x in range(n)}}
    kinds["both"] = {x: kinds["in"][x] + kinds["out"][x] for x in range(n)}
    for kind, by in kinds.items():
        for equation in (False, True):
            kw = {} if kind == "both" else {kind + "_degree": True}
            if equation:
                kw.update(equation=lambda k: k * 10 + 1, equation_text="eq", title="t", xlabel="X", ylabel_freq="Y", ylabel_prob="P", color="b")
            with stage() as (films, drawn, shown):
                ntm.plot_degree_distribution(net, **kw)
                require(len(shown) == 1, "shown %d times", len(shown))
                ax = plt.gcf().axes[0]
                bars = {round(p.get_x() + p.get_width() / 2, 6): p.get_height() for p in ax.patches}
                top = max(by.values())
                want = {d: sum(x == d for x in by.values()) for d in range(1, top + 1)}
                require({d: c for d, c in bars.items() if d > 0} == want, "the %s-degree bars of %s are %s, expected %s", kind, edges, bars, want)
                require((ax.get_xlabel(), ax.get_ylabel()) == (("X", "Y") if equation else ("Node degree", "Frequency")), "the labels")
                if equation:
                    twin = plt.gcf().axes[1]
                    ln = twin.lines[0]
                    require(list(ln.get_xdata()) == sorted(want) and list(ln.get_ydata()) == [d * 10 + 1 for d in sorted(want)], "the equation")
                    require(twin.get_ylabel() == "P" and [t.get_text() for t in twin.texts] == ["eq"] and ln.get_color() == "b", "its labels")
                    require("t" in (ax.get_title(), twin.get_title()), "the title")
            rec.step()
            rec.outcome(kind, tuple(sorted(want.items())))


def series(case, rec):
    multi, twin, colors, labels, limits, names, arrays = case["series"]
    x = [0, 1, 5, 7]
    ys = [[1, 4, 2, 3], [9, 8, 9, 1], [0, -5, 5, 0]][: 3 if multi else 1]
    if arrays:
        ys = [np.array(y) for y in ys]
    if twin and not multi:
        try:
            with stage():
                ntm.plot1D(x, [1, 2, 3, 4], twinx=True)
        except Exception:
            try:
                with stage():
                    ntm.plot1D(x, [[1, 2, 3, 4]], twinx=True)
            except Exception:
                return
        raise Violation("two y-axes were accepted for one series")
    kw = {}
    if twin:
        kw["twinx"] = True
    if colors:
        kw["color"] = ["r", "g", "b"][:len(ys)] if multi else "g"
    if labels:
        kw["label"] = ["first", "second", "third"] if multi else "only"
        kw["legend"] = {"loc": "upper left"}
    if limits:
        kw["xlim"] = (-1, 9)
        kw["ylim"] = [(-6, 10), (-20, 20)] if twin else (-6, 10)
    if names:
        kw.update(xlabel="X", ylabel=["Y", "Z"] if twin else "Y", title="T", tight_layout={"pad": 2})
    with stage() as (films, drawn, shown):
        ntm.plot1D(x, ys if multi else ys[0], **kw)
        require(len(shown) == 1, "shown %d times", len(shown))
        axes = plt.gcf().axes
        require(len(axes) == 1 + bool(twin), "there are %d axes", len(axes))
        for i, y in enumerate(ys):
            ax = axes[i % len(axes)]
            ln = ax.lines[i // len(axes)]
            require(list(ln.get_xdata()) == x and list(ln.get_ydata()) == list(y), "series %d is %s, expected %s", i, ln.get_ydata(), y)
            require(not colors or ln.get_color() == (kw["color"][i] if multi else "g"), "series %d has the colour %s", i, ln.get_color())
            require(not labels or ln.get_label() == (kw["label"][i] if multi else "only"), "series %d is called %s", i, ln.get_label())
            require(not labels or ax.get_legend() is not None, "there is no legend")
        require(sum(len(ax.lines) for ax in axes) == len(ys), "there are %d lines", sum(len(ax.lines) for ax in axes))
        for i, ax in enumerate(axes):
            require(not limits or tuple(ax.get_xlim()) == (-1, 9), "the limits of x are %s", ax.get_xlim())
            require(not limits or tuple(ax.get_ylim()) == (kw["ylim"][i] if twin else (-6, 10)), "the limits of y (%d) are %s", i, ax.get_ylim())
            require(not names or (i > 0 or ax.get_xlabel() == "X") and ax.get_ylabel() == (kw["ylabel"][i] if twin else "Y"), "the labels of axes %d", i)
        require(not names or "T" in [ax.get_title() for ax in axes], "the title")


def labelled(case, rec):
    """Labels (words or numbers, of each series or of all), colours, and a legend for each y-axis."""
    names = {"words": ["u", "v", "w"], "numbers": [0, 1.5, 2], "one": "same"}.get(case["labels"], case["labels"])
    each = names if isinstance(names, list) else [names] * 3
    colors = {None: None, "one": "m", "each": ["r", "g", "b"]}[case["color"]]
    x, ys = (3, 4, 9) if case["legend"] == "tuple x" else [3, 4, 9], [[1, 2, 3], [3, 5, 1], [0, -1, 4]]
    for twin in (False, True):
        for n in (1, 2, 3):
            if twin and n == 1:
                continue
            kw = {"label": each[:n] if isinstance(names, list) else names, "twinx": twin}
            if colors:
                kw["color"] = colors if isinstance(colors, str) else colors[:n]
            kw["legend"] = [{"title": "L"}, {"title": "R"}] if case["legend"] == "list" else {"title": "L"}
            if not twin and case["legend"] == "list":
                kw["legend"] = kw["legend"][:1] * 2
            with stage() as (films, drawn, shown):
                ntm.plot1D(x, ys[:n], **kw)
                axes = plt.gcf().axes
                for i in range(n):
                    ax = axes[i % len(axes)]
                    ln = ax.lines[i // len(axes)]
                    require(list(ln.get_ydata()) == ys[i] and list(ln.get_xdata()) == list(x), "series %d", i)
                    require(str(ln.get_label()) == str(each[i]), "series %d is called %r, expected %r", i, ln.get_label(), each[i])
                    require(not colors or ln.get_color() == (colors if isinstance(colors, str) else colors[i]), "the colour of series %d", i)
                for a, ax in enumerate(axes):
                    leg = ax.get_legend()
                    require(leg is not None, "axis %d has no legend", a)
                    require([t.get_text() for t in leg.get_texts()] == [str(e) for e in each[a:n:len(axes)]], "legend %d is %s", a,
                            [t.get_text() for t in leg.get_texts()])
                    require(leg.get_title().get_text() == ("R" if a and case["legend"] == "list" else "L"), "the title of legend %d", a)
            rec.step()
            rec.state(case["labels"], case["color"], case["legend"], twin, n)


def points():
    return [tuple(float(c) for c in p) for coll in plt.gca().collections for p in np.asarray(coll.get_offsets()).tolist()]


def chaos(case, rec):
    n, m = case["chaos"], case["timesteps"]
    if case.get("near"):
        runs = [[0.3 + i + 10.0 ** -(j * k + 3) for j in range(6)] for i in range(n) for k in (1, 2)]
        xs, n = [float(i) for i in range(len(runs))], len(runs)
        for given in (runs, np.array(runs)):
            with stage():
                ntm.bifurcation_plot(xs, given, m)
                want = {(x, y) for x, r in zip(xs, runs) for y in r[-m:]}
                require(set(points()) == want, "of values which are close, the points are %s, expected %s", points(), want)
        return
    runs = [[round(((i + 2) * 0.37 * (t + 1)) % 1, 3) if i != 1 else (t % 2) for t in range(7)] for i in range(n)]
    labels = {"xlabel": "X", "ylabel": "Y", "title": "T"}
    for kw in () if m > 7 else ({}, dict(labels, xlim=(0, 2), ylim=(-1, 3))):
        for given in [runs] + ([runs[0]] if n == 1 else []) + [[np.array(r) for r in runs]]:
            with stage() as (films, drawn, shown):
                ntm.poincare_plot(given, m, **kw)
                want = [(r[-m:][t], r[-m:][t + 1]) for r in runs for t in range(m - 1)]
                require(sorted(points()) == sorted(want), "the points are %s, expected %s", points(), want)
                ax = plt.gca()
                require(not kw or (tuple(ax.get_xlim()), tuple(ax.get_ylim()), ax.get_xlabel(), ax.get_ylabel(), ax.get_title()) ==
                        ((0, 2), (-1, 3), "X", "Y", "T"), "the limits or labels")
                require(len(shown) == 1, "shown %d times", len(shown))
            rec.step()
    xs = [1.5 + i for i in range(n)]
    for kw in ({}, labels):
        with stage() as (films, drawn, shown):
            ntm.bifurcation_plot(xs, runs, m, **kw)
            want = {(x, float(y)) for x, r in zip(xs, runs) for y in r[-m:]}
            require(set(points()) == want, "the points are %s, expected %s", points(), want)
            ax = plt.gca()
            require(not kw or (ax.get_xlabel(), ax.get_ylabel(), ax.get_title()) == ("X", "Y", "T"), "the labels")


def places(rows, cols):
    """The centres of the hexagons: rows shifted by half, the first not at all."""
    shift = 0.5 if rows % 2 else -0.5
    return [(math.sqrt(3) * (c + shift * (r % 2)), 1.5 * r) for r in range(rows) for c in range(cols)]


def in_view(ax, mids):
    (a, b), (c, d) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for x, y in mids:
        require(a <= x <= b and c <= y <= d, "the hexagon at %s, %s is out of view: x from %s to %s, y from %s to %s", x, y, a, b, c, d)


def hexes(case, rec):
    (rows, cols), T = case["hex"], case["T"]
    frames = [[(t * 3 + c * 2 + t * c) % 7 + (rows + T) % 3 for c in range(rows * cols)] for t in range(T)]
    traj = formed("trajectory", frames)
    for kw in ({}, {"vmin": -2, "vmax": 11, "colormap": "jet", "title": "T", "edgecolor": "red"}, {"vmin": 0}, {"vmin": 0, "vmax": 5.5}, {"vmax": 9}, {"vmin": -1.5}):
        if kw and "title" not in kw and rows * cols * T > 40:
            continue
        for k in list(range(T)) + [None]:
            with stage() as (films, drawn, shown):
                opts = dict(kw) if k is None else dict(kw, slice=k)
                ntm.plot_hex_grid(traj, shape=(rows, cols), **opts)
                want = frames[-1 if k is None else k]
                ax = plt.gca()
                require(len(ax.patches) == len(want) and len(shown) == 1, "%d hexagons, expected %d", len(ax.patches), len(want))
                norm = matplotlib.colors.Normalize(kw.get("vmin", min(want)), kw.get("vmax", max(want)))
                cmap = plt.get_cmap(kw.get("colormap", "Greys"))
                got = sorted((round(p.xy[0], 6), round(p.xy[1], 6), tuple(np.round(p.get_facecolor(), 6))) for p in ax.patches)
                exp = sorted((round(x, 6), round(y, 6), tuple(np.round(cmap(norm(v)), 6))) for (x, y), v in zip(places(rows, cols), want))
                require(got == exp, "the hexagons of %s are %s, expected %s", want, got, exp)
                require(ax.yaxis_inverted() and ax.get_title() == kw.get("title", ""), "the first row must be at the top, under the title")
                in_view(ax, places(rows, cols))
            rec.step()
        with stage() as (films, drawn, shown):
            # without a shape, there is a row for each timestep
            ntm.plot_hex_grid(traj, **kw)
            ax = plt.gca()
            every = [v for f in frames for v in f]
            norm = matplotlib.colors.Normalize(kw.get("vmin", min(every)), kw.get("vmax", max(every)))
            cmap = plt.get_cmap(kw.get("colormap", "Greys"))
            got = sorted((round(p.xy[0], 6), round(p.xy[1], 6), tuple(np.round(p.get_facecolor(), 6))) for p in ax.patches)
            exp = sorted((round(x, 6), round(y, 6), tuple(np.round(cmap(norm(v)), 6))) for (x, y), v in zip(places(T, rows * cols), every))
            require(got == exp, "the hexagons of %s are %s, expected %s", frames, got, exp)
            in_view(ax, places(T, rows * cols))
        with stage() as (films, drawn, shown):
            ntm.animate_hex(traj, shape=(rows, cols), interval=3, **kw)
            require(len(films) == 1 and len(shown) == 1 and films[0].kw.get("interval") == 3, "the animation")
            ax = films[0].fig.axes[0]
            coll = [c for c in ax.collections if isinstance(c, matplotlib.collections.PatchCollection)][0]
            mids = [tuple(np.round((p.vertices[:6]).mean(axis=0), 6)) for p in coll.get_paths()]
            require(mids == [(round(x, 6), round(y, 6)) for x, y in places(rows, cols)], "the hexagons are at %s", mids)
            in_view(ax, places(rows, cols))
            require(ax.yaxis_inverted() and ax.get_title() == kw.get("title", ""), "the first row must be at the top, under the title")
            require("vmin" not in kw or "vmax" not in kw or coll.get_clim() == (kw["vmin"], kw["vmax"]), "the colours range over %s", coll.get_clim())
            require(coll.get_cmap().name == kw.get("colormap", "Greys"), "the colours are %s", coll.get_cmap().name)
            at = None
            for _ in films[0].play(2 * T + 1):
                shot = list(coll.get_array())
                now = [t for t in range(T) if frames[t] == shot]
                require(now, "the animation shows %s, which is none of the timesteps", shot)
                require(at is None or (at + 1) % T in now, "timesteps %s are shown after %s", now, at)
                at = now[0] if at is None else (at + 1) % T
                rec.step()


def turtles(case, rec):
    for moves in itertools.product((("forward", 1), ("forward", 3), ("rotate", 45), ("rotate", -90)), repeat=4):
        if case["turtles"] != (("forward", 1), ("forward", 3), ("rotate", 45), ("rotate", -90)).index(moves[1]):
            continue
        t = ntm.Turtle()
        for m in moves:
            getattr(t, m[0])(m[1])
        if not t.trajectory:
            continue
        want = [(list(map(float, xs)), list(map(float, ys))) for xs, ys in t.trajectory]
        with stage() as (films, drawn, shown):
            t.plot(marker="o")
            got = [(list(map(float, ln.get_xdata())), list(map(float, ln.get_ydata()))) for ln in plt.gca().lines]
            require(got == want and len(shown) == 1, "the lines are %s, expected %s", got, want)
            ax = plt.gca()
            require(all(ln.get_marker() == "o" for ln in ax.lines), "the markers")
            in_view(ax, [q for xs, ys in want for q in zip(xs, ys)])
            require(not ax.yaxis_inverted() and not ax.xaxis_inverted() and ax.get_aspect() in (1, 1.0, "equal"), "the axes")
        rec.step()
        if moves[0][1] != 1:
            continue
        for repeat in (False, True):
            with stage() as (films, drawn, shown):
                t.animate(repeat=repeat, interval=2, marker="o")
                require(len(films) == 1 and len(shown) == 1 and films[0].kw.get("repeat") == repeat, "the animation")
                ax = films[0].fig.axes[0]
                require(len(list(films[0].frames)) == len(want), "there are %d frames for %d lines", len(list(films[0].frames)), len(want))
                # when it repeats, the last frame may leave nothing, and the drawing starts again
                for k, _ in enumerate(films[0].play(len(want) * (2 if repeat else 1))):
                    got = [(list(map(float, ln.get_xdata())), list(map(float, ln.get_ydata()))) for ln in ax.lines]
                    now = want[:k % len(want) + 1]
                    require(got == now or (repeat and len(now) == len(want) and not got), "frame %d: %s, expected %s", k, got, now)
                    require(all(ln.get_marker() == "o" for ln in ax.lines), "the markers")
                    in_view(ax, [q for xs, ys in want for q in zip(xs, ys)])
                    require(not ax.yaxis_inverted() and not ax.xaxis_inverted() and ax.get_aspect() in (1, 1.0, "equal"), "the axes")


def positions(case, rec):
    a, b = case["positions"]
    want = {}
    for i in range(a):
        for j in range(b):
            want[len(want)] = (i, j)
    same(ntm.vis.lattice_pos(a, b), want, "lattice_pos(%d, %d)", a, b)


def files(case, rec):
    """An animation is written to a file when asked, once, and never unasked."""
    traj = formed("trajectory", table(3, 4))
    star = ntm.Turtle()
    star.forward(1)
    star.rotate(90)
    star.forward(2)
    makers = {"animate_activities": lambda **kw: ntm.animate_activities(traj, shape=(2, 2), **kw), "animate_plot1D": lambda **kw: ntm.animate_plot1D([0, 1, 2, 3], traj, **kw),
              "animate_network": lambda **kw: ntm.animate_network(traj, **kw), "animate_hex": lambda **kw: ntm.animate_hex(traj, shape=(2, 2), **kw),
              "Turtle.animate": lambda **kw: star.animate(**kw)}
    for name, f in sorted(makers.items()):
        for kw in ({}, {"save": False}, {"save": True}, {"save": True, "dpi": 33}):
            if name == "animate_hex" and "dpi" in kw:
                continue
            with stage() as (films, drawn, shown):
                f(**kw)
                require(len(films) == 1 and len(films[0].saved) == bool(kw.get("save")), "%s with %s was saved %d times", name, kw, len(films[0].saved))
                require("dpi" not in kw or films[0].saved[0][1].get("dpi") == 33, "%s was saved as %s", name, films[0].saved)
            rec.step()
    for bad in ((1, 2, 2), ()):
        for f in (lambda: ntm.animate_activities(formed("list", table(3, 4)), shape=bad),):
            try:
                with stage():
                    f()
            except Exception:
                continue
            raise Violation("the shape %s was accepted" % (bad,))


def pages(case, rec):
    relations = [(1,), (2,), (1, 2), (2, 1), (1, 1), (1, 2, 3), (3, 3, 1), (2, 2, 2, 2)]
    large = [[tuple(int(str(x)) for x in r) for r in config] for config in (
        [(1000, 1000), (5000, 1000, 1000)], [(7000,), (7000, 7000, 7001, 7001, 7001)], [(258 + i % 5, 258 + i * i % 5) for i in range(20)])]
    for config in itertools.chain(large, itertools.chain.from_iterable(itertools.product(relations, repeat=n) for n in (0, 1, 2, 3))):
        G = ntm.vis.configuration_to_nx(config)
        edges = [(x, y) for r in config for x, y in zip(r, r[1:])]
        nodes = {x for r in config for x in r}
        require(set(G.nodes) == nodes and sorted(G.edges()) == sorted(edges), "the graph of %s has %s and %s", config, G.nodes, list(G.edges()))
        html = ntm.vis.get_html(G)
        ids = [int(x) for x in re.findall(r"\{id: (\d+), label: \d+", html)]
        require(sorted(ids) == sorted(nodes) and [int(x) for x in re.findall(r"label: (\d+)", html)] == ids, "the page of %s has the nodes %s", config, ids)
        links = [(int(x), int(y)) for x, y in re.findall(r"\{from: (\d+), to: (\d+), arrows: \"to\"", html)]
        require(sorted(links) == sorted(edges), "the page of %s has the connections %s", config, links)
        sizes = re.findall(r"from: (\d+), to: \1,[^}]*selfReferenceSize: (\d+)", html)
        require(len(sizes) == len(set(sizes)) == sum(x == y for x, y in edges), "the page of %s has the loops %s", config, sizes)
        rec.step()
        rec.state(tuple(config))
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "page.html")
        ntm.vis.show_network(G, name=name, is_notebook=True)
        with open(name) as f:
            require(f.read() == html, "the page which was written")


def tour(case, rec):
    pts = [(0, 0), (0, 2), (3, 3), (4, 0)]
    net = ntm.HopfieldTankTSPNet(pts)
    for perm in itertools.permutations(range(4)):
        m = [[1 if perm[k] == p else 0 for k in range(4)] for p in range(4)]
        G, pos, length = net.get_tour_graph(pts, m)
        with stage() as (films, drawn, shown):
            net.plot_tour(G, pos)
            require(len(drawn) == 1 and len(shown) == 1 and drawn[0][0] is G and drawn[0][1] == pos, "the tour which was drawn")
        rec.step()

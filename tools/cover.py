"""python3 tools/cover.py [ID...]: the lines of the package which the quick checks never run (with all IDs: over all of the checks)."""
import glob
import multiprocessing
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("MC_SCRATCH", "/tmp")
os.environ.setdefault("MPLBACKEND", "Agg")
from mc import engine, target  # noqa: E402

PKG = os.path.join(os.path.realpath(target.REPO), "netomaton") + os.sep


def lines_of(code):
    out = {l for _, _, l in code.co_lines() if l}
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            out |= lines_of(c)
    return out


def run(pid):
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "cover")

    def line(code, no):
        if code.co_filename.startswith(PKG):
            seen.add((code.co_filename[len(PKG):], no))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    mod = engine.module(pid)
    for i, case in enumerate(mod.cases("quick")):
        if i % 3 == 0 or i < 500 or True:
            got = engine.run_case(mod, case, engine.Rec())
            if got:
                print(pid, i, got[0][:200], flush=True)
                break
    return pid, seen


if __name__ == "__main__":
    ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 35)]
    seen = set()
    with multiprocessing.Pool(5, maxtasksperchild=1) as pool:
        for pid, s in pool.imap_unordered(run, ids, chunksize=1):
            seen |= s
    for path in sorted(glob.glob(PKG + "**/*.py", recursive=True)):
        name = path[len(PKG):]
        src = open(path).read()
        want = set()
        for c in compile(src, path, "exec").co_consts:
            if hasattr(c, "co_lines"):
                want |= lines_of(c)
        text = src.split("\n")
        missed = sorted(l for l in want if (name, l) not in seen and not text[l - 1].strip().startswith(("def ", "class ", '"""', "@")))
        for l in missed:
            print("%s:%d: %s" % (name, l, text[l - 1].strip()))

"""
python3 tools/plant.py [ID...]     confirm planted bugs in scratch copies of /repo, and run their checks

The bugs are in tools/bugs.py: (id, property, [(file, old, new)], demo (Python), needs, what_it_breaks). For each one a copy of
/repo is changed; the stable tests must pass and the demonstration must fail on the copy and pass on /repo. Then it is
written to seeded/<id>/ and the property's quick check is run against the copy. Nothing here is read by any check.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
DEMO_SH = """#!/bin/bash
# exit 0 where the property holds; run with the repository as the working directory
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD MPLCONFIGDIR=$(mktemp -d)
trap 'rm -rf -- "$MPLCONFIGDIR"' EXIT
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def tests(copy):
    xml = copy + ".xml"
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "3", "--dist", "worksteal", "--timeout=300", "-W", "ignore",
        "-o", "junit_family=xunit2", "--junitxml=" + xml, "tests"], copy, {"PYTHONPATH": copy, "MPLCONFIGDIR": "/opt/vp/mplconfig"})
    ok = set()
    for c in ET.parse(xml).getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    os.unlink(xml)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - ok)


def original(diff):
    """whether the patch changes a line of the original repository (or adds lines only)"""
    base = sh(["git", "log", "--format=%H", "-1", "--invert-grep", "--grep=^fix:"], "/repo").stdout.strip()
    seen, name, n, known = [], None, 0, {}
    for line in diff.decode().splitlines():
        if line.startswith("--- a/"):
            name = line[6:].strip()
            known[name] = [x.startswith("^") for x in sh(["git", "blame", "-s", base + "..HEAD", "--", name], "/repo").stdout.splitlines()]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1)) - 1
        elif name and line.startswith("-"):
            seen.append(known[name][n])
            n += 1
        elif name and line.startswith(" "):
            n += 1
    return not seen or any(seen)


def plant(bug):
    bid, prop, edits, demo, needs, breaks = bug
    copy = "/tmp/plant/%s/repo" % bid
    shutil.rmtree("/tmp/plant/" + bid, ignore_errors=True)
    os.makedirs("/tmp/plant/" + bid)
    try:
        sh(["cp", "-a", "/repo", copy], "/")
        for f, old, new in edits:
            p = os.path.join(copy, "netomaton", f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, "edit of %s matches %d times" % (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, stdout=subprocess.PIPE).stdout
        if not original(diff) and not os.environ.get("NOTESTS"):
            return bid, "changes only lines of fix commits"
        d = "/tmp/plant/%s/demo" % bid
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)
        a = sh(["bash", d + "/demo.sh"], "/repo")
        if a.returncode:
            return bid, "demo fails on /repo: " + a.stdout[-600:]
        b = sh(["bash", d + "/demo.sh"], copy)
        if not b.returncode:
            return bid, "demo passes on the changed copy"
        broken = [] if os.environ.get("NOTESTS") else tests(copy)
        if broken:
            return bid, "REJECTED, tests fail: %s" % broken[:3]
        out = os.path.join(HERE, "seeded", bid)
        if not os.environ.get("NOTESTS"):
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            open(out + "/patch.diff", "wb").write(diff)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        ev = "/tmp/plant/%s/verif" % bid
        shutil.copytree(HERE, ev, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        r = sh(["bash", ev + "/check.sh", prop, os.environ.get("TIER", "quick")], "/", {"MC_REPO": copy, "MC_WORKERS": "3"})
        if r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout:
            what = [l for l in r.stdout.splitlines() if l.startswith("        ")]
            return bid, "caught: " + (what[-1].strip()[:110] if what else "?")
        return bid, "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])
    finally:
        shutil.rmtree("/tmp/plant/" + bid, ignore_errors=True)


def main(ids):
    from bugs import BUGS
    assert len({b[0] for b in BUGS}) == len(BUGS)
    todo = [b for b in BUGS if not ids or any(re.fullmatch(i, b[0]) for i in ids)]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for f in concurrent.futures.as_completed([ex.submit(plant, b) for b in todo]):
            print("%-28s %s" % f.result(), flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])

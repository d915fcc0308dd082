"""Imports the code under test from /repo's working tree, and nothing else from there."""
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter("ignore")
import netomaton as ntm  # noqa: E402

_where = os.path.realpath(ntm.__file__)
if not _where.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("netomaton was imported from %s, not from %s" % (_where, REPO))

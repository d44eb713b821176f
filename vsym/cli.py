import os
import sys
import importlib

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
args = sys.argv[1:]
sys.argv = ["vsym", "--quiet"]       # vayesta parses sys.argv on import
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, repo)
import vayesta  # noqa
assert os.path.abspath(vayesta.__file__).startswith(os.path.abspath(repo)), vayesta.__file__
sys.argv = ["vsym"] + args
from vsym import harness  # noqa
mod = importlib.import_module("checks." + args[0].lower())
sys.exit(harness.main(args[0], mod.HARNESSES, mod.META, args[1:]))

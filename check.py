"""Entry point of every registered check."""
import argparse
import os
import shutil
import sys
import tempfile

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only")
ap.add_argument("--replay")
a = ap.parse_args()

HERE = os.path.dirname(os.path.abspath(__file__))
scratch = tempfile.mkdtemp(prefix="lipsvc_")
os.environ["HOME"] = scratch              # lips writes caches under ~/.cache: keep them in the scratch directory
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
os.chdir(scratch)
repo = os.environ.get("LIPS_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, repo)                  # the code under verification is imported from the working tree on every run
code = 0
try:
    import warnings
    warnings.simplefilter("ignore")
    import lips
    assert os.path.realpath(lips.__file__).startswith(os.path.realpath(repo) + os.sep), lips.__file__
    import vc.paths                        # noqa
    from vc import runner
    if a.replay:
        code = runner.replay(a.prop, a.replay)
    else:
        code = runner.main(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.only)
finally:
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(code)

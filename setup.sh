#!/bin/sh
# nothing to compile: the checks import lips from /repo's working tree.  Verifies that the tools are present.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -W ignore - <<'P'
import sys
sys.path.insert(0, "."); sys.path.insert(0, "/repo")
import vc.paths, z3
print("z3", z3.get_version_string())
P
command -v Singular

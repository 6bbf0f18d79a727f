#!/bin/bash
# Checks that what the checks need is here: the specification parses, the
# driver builds, Vim runs.  The checks themselves build all they need.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys, shutil
sys.path.insert(0, ".")
from vp import core
core.build_driver()
assert shutil.which("vim") and shutil.which("java")
s = core.Spec()
o = s.parse([dict(id=1, mode="file", src="if 1\n  echo 'a' . b\nendif")])
assert "tree" in o[1]
print("ready")
P

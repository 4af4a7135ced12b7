#!/bin/sh
# builds all contract crates of /repo with MIR output into .cache (every check also does this for what it needs)
cd "$(dirname "$0")" || exit 2
exec python3-vt -c "
from vc import build
print(build.build(list(build.PKGS)))"

#!/bin/bash
# Nothing to install: the checks build what they need from /repo and the
# committed sources. This only confirms that the tool chain is present.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v go protoc python3-vt >/dev/null
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
python3-vt - <<'P'
import sys; sys.path.insert(0, '.')
from pgvsym.util import Scratch
s = Scratch(); s.gotool(); s.plugin()
P

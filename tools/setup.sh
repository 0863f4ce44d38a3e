#!/bin/bash
# offline: pre-builds the harness (and the litcheck binary it runs) into /verif/target
set -e
cd "$(dirname "$0")/.."
python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
import check
ok, msg = check.build_harness(True)
print("harness built" if ok else msg)
PY
verus --version >/dev/null

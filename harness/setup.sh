#!/bin/bash
# Nothing needs to be prepared: each check compiles what it needs.  This verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
T=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$T"' EXIT
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$T" java/*.java
/opt/venv/bin/python -c 'import Cython, setuptools'
for m in spec/*.tla; do
  (cp spec/*.tla "$T"; cd "$T"; java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >"$T/sany.log" 2>&1 || { cat "$T/sany.log"; exit 1; })
done
echo "setup: ok"

#!/bin/bash
# Parses every specification module; nothing is left behind that a check needs.
cd "$(dirname "$0")" || exit 1
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
cp spec/*.tla "$T"/ && cd "$T" || exit 1
fail=0
for m in *.tla; do
    java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$m.out" 2>&1 || { echo "SANY: $m"; tail -5 "$m.out"; fail=1; }
done
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import quickly.dom.read" || fail=1
exit $fail

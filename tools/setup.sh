#!/bin/bash
# Nothing to compile: parse every specification and import every harness.
cd "$(dirname "$0")/.." || exit 1
tmp=$(mktemp -d) || exit 1
cp spec/*.tla "$tmp" || exit 1
status=0
for f in spec/*.tla; do
    (cd "$tmp" && exec java -Djava.io.tmpdir="$tmp" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "$(basename "$f")" >"$tmp/out" 2>&1)
    if [ $? != 0 ] || grep -q "^\*\*\* Errors\|Fatal errors" "$tmp/out"; then
        cat "$tmp/out"; status=1
    fi
done
for f in harness/*.py; do
    /opt/venv/bin/python -c "import sys; compile(open(sys.argv[1]).read(), sys.argv[1], 'exec')" "$f" || status=1
done
rm -rf "$tmp"
exit $status

#!/bin/bash
# Nothing to build: the specification is interpreted by TLC and the harness by
# the repository's own Python.  Make sure both are there and parse.
cd "$(dirname "$0")" || exit 1
set -e
mkdir -p evidence
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp spec/*.tla "$T"/
cd "$T"
for m in *.tla; do
  java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > sany.log 2>&1 || { cat sany.log; exit 1; }
done
cd - > /dev/null
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0,'harness'); import props, structured; print(len(props.PROPS), 'properties')"

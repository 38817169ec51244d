#!/bin/bash
# Offline check that the tools the checks use are there and that every module of the specification parses.
set -e
cd "$(dirname "$0")"
for t in java gcc cargo python3; do command -v $t >/dev/null || PATH=/root/.cargo/bin:$PATH command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
cp=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp spec/*.tla "$d"; cd "$d"
for m in Trace Gen LexMC IoMC IoTrace Cli IsaMC IsaForms FsMC FsTrace; do
  java -Djava.io.tmpdir="$d" -cp $cp tla2sany.SANY $m.tla > out 2>&1 || { cat out; exit 1; }
  if grep -q "rrors:" out; then cat out; exit 1; fi
done
echo "setup ok"

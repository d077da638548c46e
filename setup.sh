#!/bin/bash
# setup_cmd: compile the TLC override and check the arithmetic against its laws
set -e
cd "$(dirname "$0")"
bash build.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
T=/opt/veriftools/tla
cd spec
java -Xss64m -Xmx2g -Djava.io.tmpdir="$tmp" -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.NumOverrides \
  -cp "${VERIF_BUILD:-../build}:$T/tla2tools.jar:$T/CommunityModules-deps.jar" \
  tlc2.TLC -metadir "$tmp/states" -noGenerateSpecTE -workers 4 NumLaws.tla > "$tmp/out" || { tail -30 "$tmp/out"; exit 1; }
grep -q "No error has been found" "$tmp/out"
echo "arithmetic laws hold"

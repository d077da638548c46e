#!/bin/bash
# Compiles the scalar-arithmetic override used by TLC into $VERIF_BUILD (default /verif/build).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${VERIF_BUILD:-$here/build}"
T=/opt/veriftools/tla
src="$here/java/verif/NumOverrides.java"
cls="$out/verif/NumOverrides.class"
if [ ! -f "$cls" ] || [ "$src" -nt "$cls" ]; then
  mkdir -p "$out.$$"
  javac -nowarn -cp "$T/tla2tools.jar:$T/CommunityModules-deps.jar" -d "$out.$$" "$src"
  rm -rf "$out"; mv "$out.$$" "$out"
fi

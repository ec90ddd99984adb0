#!/bin/bash
# Nothing is kept between runs: every check compiles the Java override itself.
# This only proves that the toolchain the checks rely on is there.
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d) && trap 'rm -rf "$d"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$d" java/*.java 2>/dev/null && test -x /opt/venv/bin/python

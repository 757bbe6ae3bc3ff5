#!/bin/sh
# Nothing is kept between checks: see whether what they need is there, and build once.
set -e
d=$(mktemp -d)
python3 "$(dirname "$0")/../harness/build.py" "$d" >/dev/null
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
rm -rf "$d"

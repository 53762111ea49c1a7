#!/bin/bash
# Nothing is kept between runs: the checks build the extension from /repo themselves.  This only makes sure that the tools are there.
set -e
cd "$(dirname "$0")/.."
python3 -m py_compile check.py lib/*.py checks/*.py
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h > /dev/null 2>&1 || true
test -x /usr/lib/postgresql/16/bin/postgres
echo setup ok
